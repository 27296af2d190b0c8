import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
CY="src/cycle_safe.rs"; EC="src/generic/equiv_classes.rs"; GE="src/generic.rs"; UT="src/utils.rs"; DS="src/deep_safe.rs"; WS="src/wide_safe.rs"; RB="src/robust.rs"; BA="src/basic.rs"
RNG="src/cycle_safe/modes/interleave/random/mod.rs"
HOOK="guarded hook: the default random-number generator of the premade functions can be driven by the simulator"
p("C01","The cycle-capable verdict is right under every random phase schedule",
 "For any two finite graphs, cyclic or sharing or overlapping, every cycle-capable comparison (premade `cycle_safe` and `robust`, with or without precheck, and any generic combination of the interleave mode with recursion modes, tables and limits whose slow limit is at least one) reports equivalence exactly when every pair of nodes at the same position of the two graphs agrees in own value and number of edges. The verdict does not depend on the random numbers drawn, on the configured limits, or on the order in which a recursion mode takes up pending work.",
 ["schedules","inputs","configurations"],
 "all pairs of finite graphs; all sequences of values the random generator may return; all legal limit settings (including those derived from a redefined precheck limit); all orders in which pending counterparts are taken up",
 "The tests compare two equal copies of five fixed shapes under one fixed random sequence and three limit settings; inequivalence hidden behind sharing, partial merges of classes and other random sequences are never reached.",
 [CY,EC,GE,RB],[("interleaving of fast and slow phases",CY+" Interleave::do_edges"),("equivalence classes (union-find)",EC+" EquivClasses::same_class"),("main comparison step",GE+" Equiv::equiv_main")],
 ["returned comparison value"],
 [dict(name="ticker",meaning="position in the slow/fast schedule",where=CY),dict(name="table of classes",meaning="nodes assumed equivalent",where=EC)],HOOK)
p("C02","A cycle-capable comparison always finishes within a linear step bound",
 "With N distinct non-leaf nodes in the two graphs, slow limit S>=1 and fast limit maximum F, a cycle-capable comparison descends into at most (N-1)+floor((N-1)/S)*(F+1) counterpart pairs (after at most the precheck limit of traversed pairs when a precheck is used), whatever the random generator returns and however cyclic or shared the graphs are. Its total bookkeeping on equivalence classes stays within a constant times log N per examined pair.",
 ["schedules","inputs","configurations"],
 "all finite graphs, all random sequences, all limits including tiny, huge and derived ones, all recursion modes",
 "Tests only show that a few degenerate shapes finish quickly under one random sequence; they cannot bound the work for adversarial sequences and shapes, where one missed merge or a lost phase switch turns into unbounded or exponential work.",
 [CY,EC],[("phase limits and ticker reset on a found equivalence",CY+" Interleave::do_edges"),("merging of classes, weighted union, link shortening",EC+" all_seen, get_rep_and_weight")],
 ["number of node pairs traversed and descended, number of class accesses through a caller-supplied shared pointer"],
 [dict(name="ticker",meaning="decides slow/fast phase",where=CY)],HOOK)
p("C03","A multi-way result is the first real difference, left operand on the left",
 "When a comparison is not equivalent, the value it returns is the one given by the first counterpart pair it met that differs (its own-value comparison, or Less/Greater when the left/right node runs out of edges first), and nothing more is examined after that. For acyclic graphs with depth-first functions, and for all graphs with breadth-first functions, that is the first difference in depth-first preorder respectively level order, no matter what the random schedule or precheck did. Exchanging the operands under the same schedule reverses the result.",
 ["schedules","inputs","configurations"],
 "all graph pairs, node value types with multi-way comparison, all random schedules, all limits, all premade functions and built-in recursion modes",
 "The ordering tests use graphs of at most a dozen nodes, which never leave the precheck or the first slow phase; skipping of assumed-equal pairs, phase switches and precheck aborts never interact with ordering there.",
 [GE,"src/lib.rs",CY,DS,WS,RB,BA],[("edge-by-edge iteration and amount-of-edges comparison",GE+" EdgesIter::get_next"),("early return of an inequivalent value",GE+" Equiv::equiv, equiv_main"),("traversal orders",DS+" RecurQueue, "+WS+" RecurStack, "+BA+" CallStack")],
 ["returned comparison value","sequence of calls on the node type"],None,HOOK)
p("C04","An aborted precheck leaves no trace",
 "A comparison with precheck gives the same result as without. If the precheck completes within its limit nothing of the cycle-detecting part is started; if it is cut off at its limit, at whatever point and with whatever work pending, the second phase examines the original pair from scratch exactly as if no precheck had run, on a reset recursion structure. The precheck never traverses more pairs than its limit.",
 ["crash_points","inputs","configurations","schedules"],
 "all points at which the limit may cut the precheck off (limits x graphs), all combinations of precheck and interleave recursion modes including caller-supplied ones, all random schedules",
 "Tests use two or three limits on fixed equal shapes where leaked or lost pending work cannot change the boolean outcome.",
 [GE,DS,WS,RB,CY],[("two-phase driver",GE+" precheck_interleave::equiv"),("reset and conversion of the recursion structure",GE+" Equiv::from; RecurMode::reset in "+DS+", "+WS)],
 ["sequence of calls on the node type, creation of the table, draws of the random generator, returned value"],None,HOOK)
p("C05","A traversal budget is honoured exactly and never alters the verdict",
 "The limited comparisons of `basic`, `deep_safe` and `wide_safe` compare at most the given number of counterpart pairs (the roots count as one); they return the unlimited result exactly when it is reached within the budget, and otherwise report that the limit was reached after exactly that many pairs. This holds for every budget, every unsigned integer type used for it, and also for cyclic graphs.",
 ["fault_sequences","inputs","configurations"],
 "every budget from zero up as the point where the resource runs out, every graph pair (cyclic included), every unsigned integer type, three traversal strategies",
 "One unit test checks eleven tiny inputs on the call-stack variant with u32; the queue and stack variants are tested only with the maximal budget, where the limit is never reached.",
 [BA,DS,WS,GE],[("countdown per traversed pair",BA+" Limited::do_traverse"),("wiring of limited variants",BA+", "+DS+", "+WS+" limited_equiv")],
 ["returned result, number of pairs compared"])
p("C06","A component's error stops the comparison and is returned as is",
 "When a caller-supplied recursion mode or descend mode (memory limit, deadline, cancellation) returns an error at any call, the comparison makes no further calls on nodes or components, and returns exactly that error, neither a verdict nor another error. With a precheck, an error during the precheck is returned without starting the second phase, and reaching the precheck limit is never reported to the caller. A fresh comparison after the fault has gone gives the ordinary result.",
 ["fault_sequences","inputs","configurations"],
 "every call at which a component can fail, deadlines under simulated latency, capacities, both phases, all graph pairs",
 "The custom components of the tests carry error types but never actually fail (the failing branches are behind `if true` or a capacity of 2^30).",
 [GE,BA],[("error conversion and early return",GE+" equiv_main try_into!, Equiv::equiv"),("phase error split",GE+" precheck_interleave::equiv, PrecheckError, InterleaveError")],
 ["returned result, calls observed by the node type and the components"])
p("C07","A panic in caller code corrupts nothing; the library adds no panics",
 "If a node method, identity operation, table, shared pointer, generator or recursion component panics at any call, that same panic reaches the caller, everything the comparison held is released, and later comparisons of the same graphs on the same thread give the right result in the same steps as ever. Without a panic in caller code no comparison panics, for any graph, schedule or limit.",
 ["crash_points","inputs","schedules"],
 "every call into caller code as the crash point, all graphs, schedules, limits, recursion modes and tables",
 "No test panics in a callback; unwinding through the traversal, the class table and the pending structures is never exercised.",
 [GE,EC,UT,CY],[("no shared or poisoned state outside one invocation",GE+" Equiv"),("cells replaced with a dummy while cloned",EC+" Class::clone_inner")],
 ["panic payload, live-object counts, later verdicts and call sequences"])
p("C08","Every way out of a comparison releases everything it took",
 "After a comparison ends, by verdict, limit, error or panic, every node handle, identity, class, table and pending structure it created has been dropped and no memory it allocated remains; node handles are cloned only where the caller allowed it (once per operand for a precheck). Class links never form a cycle that would keep them alive.",
 ["fault_sequences","inputs","schedules","crash_points"],
 "all graphs, schedules and limits, and all exit points (verdict, limit, injected error, injected panic)",
 "Tests never count live objects; a leak of a few reference-counted cells or handles per comparison is invisible to them.",
 [EC,GE,UT,DS,WS],[("ownership of pending edges and classes",UT+" LazyVecStack/LazyVecQueue; "+EC+" Class, Table")],
 ["live counts of caller-supplied handles, identities, shared pointers; allocator balance"])
p("C09","Each comparison reflects only the graphs as they are at that time",
 "In any history of building, mutating, freeing (with identities reused), comparing, failing and nested comparing from inside node callbacks, each comparison gives the verdict for the graphs as they are at that time and proceeds exactly as it would alone. No knowledge of equivalences, limits or pending work survives from one comparison into another or leaks between an outer and a nested one.",
 ["histories","inputs","schedules"],
 "all histories of build/mutate/free/compare/abort operations with reuse of identities and re-entrant comparisons",
 "Every test does one comparison of freshly built graphs (sorting tests excepted, which are tiny); no test mutates, reuses identities, nests or compares after an aborted comparison.",
 [GE,EC,CY],[("state owned by one invocation",GE+" Equiv; "+CY+" Interleave; "+EC+" EquivClasses")],
 ["verdicts and call sequences over the history"],None,HOOK)
p("C10","Concurrent comparisons of shared graphs are independent",
 "When several threads compare graphs built of shared, thread-safe nodes, in any interleaving, with stalls and with some of them crashing midway, every comparison yields the result, and makes the sequence of calls, that it yields alone with the same random numbers. No comparison waits for another.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of node callbacks of several comparing threads, stalls and panics of some",
 "No test uses more than one thread per comparison subject; the test runner's parallelism shares no graphs and is not controlled.",
 [GE,CY,EC,RNG],[("absence of shared mutable state; generator state per comparison or per thread",CY+" Interleave::rng; "+RNG)],
 ["verdicts and per-thread call sequences; progress of unstalled threads"],None,HOOK)
p("C11","The node callback protocol is kept on every path",
 "A comparison compares only nodes at the same position of the two graphs, the left one as the receiver and the right one as the argument, at most once per visit, and looks at edges only after the nodes compared equivalent; nodes with the same identity are not looked into at all. For each visit edge indexes are requested for both nodes in increasing order from zero, without gaps, each at most twice, and never beyond the first index for which either node has no edge; this includes nodes with as many edges as the index type can number.",
 ["schedules","inputs","fault_sequences"],
 "every visit in every comparison: all graphs, index types, recursion modes, random schedules, prechecks cut off anywhere and injected faults",
 "Test node types tolerate any order and number of calls; nothing in the tests observes the calls.",
 [GE,UT,"src/lib.rs"],[("lazy edge iteration",GE+" EdgesIter"),("peek and advance",UT+" LazierIterator::next, NonAdvancingIterator"),("index increment",  "src/like_anticipated.rs Step")],
 ["sequence of calls on the node type"],None,HOOK)
p("C12","Call-stack use is bounded whatever the depth and schedule",
 "Comparisons of `deep_safe`, `wide_safe` and `robust`, and generic ones with queue or stack recursion, use an amount of call stack that does not grow with the depth, width or size of the graphs, in traversal and in releasing what they hold, whatever the random schedule, limit or fault. With a call-stack precheck in front, the stack grows with the precheck limit at most.",
 ["schedules","inputs","fault_sequences","configurations"],
 "deep, wide, cyclic and heavily merging graphs, all random schedules and limits, all exit points",
 "Tests run two deep shapes to the default 2 MiB stack; they cannot see recursion that appears only in some phase, in a chain of merged classes, on release, or that is just short of overflowing.",
 [GE,DS,WS,RB,EC],[("loop instead of recursion",GE+" Equiv::equiv; RecurQueue/RecurStack::recur"),("short link chains by weighted union",EC+" all_seen")],
 ["stack extent observed in callbacks and drops of caller-supplied types"],None,HOOK)
p("C13","Pending work is generated lazily, so memory is bounded by the shape",
 "During a comparison with queue recursion the nodes held for pending work never exceed a constant per incompletely consumed node pair of the breadth-first frontier, and with stack recursion a constant per ancestor that still has further edges, never the number of their edges. So breadth-first handles lists of any length, and depth-first handles nodes of any width and lists whose long edge is given last, within constant memory, under every random schedule.",
 ["inputs","schedules","fault_sequences"],
 "all acyclic shapes and schedules, with a simulated heap that fails any node handle beyond the bound",
 "Tests only show that some huge inputs do not exhaust the machine's memory; holding a few times or a few thousand times more than needed goes unnoticed.",
 [UT,DS,WS,GE],[("iterators kept instead of edges, removed as soon as exhausted",UT+" LazierIterator::next")],
 ["number of live node handles at every callback"],None,HOOK)
p("C14","The provided random generators stay in range, vary, and withstand interference",
 "Each provided generator, at any point of its sequence and for any bound from 1 to 65535, returns only numbers below the bound and over time all of them, so fast phases are really varied up to their maximum. Comparisons using any provided generator keep right verdicts and work bounds even when other code in the thread uses or reseeds the generator's shared state between any two steps.",
 ["schedules","histories","configurations"],
 "all histories of bounds, all three generators, and arbitrary interference with thread-local generator state at every callback",
 "The tests use one generator at one bound through equal graphs only; two of the three generators are never run by the tests.",
 [RNG,"src/cycle_safe/modes/interleave/random/wyrng.rs","src/cycle_safe/modes/interleave/random/oorandom.rs","src/cycle_safe/modes/interleave/random/fastrand.rs",CY],
 [("range reduction","src/cycle_safe/modes/interleave/random/*.rs rand_upto")],["numbers returned; verdicts and work of comparisons"])
p("C15","Identities stay pinned while they are relied upon",
 "For node types whose nodes are materialised on demand and discarded when nobody refers to them, with identities reused at once for other nodes, verdicts are as right as for permanent nodes, because the comparison keeps an identity it has recorded until it no longer consults it.",
 ["histories","inputs","schedules","fault_sequences"],
 "all graphs behind a simulated store that loads nodes on demand, evicts and reuses identities immediately, with failing loads as crash points, all schedules",
 "All test nodes live as long as the comparison (or have globally unique numbers), so a stale identity can never be met.",
 [EC,UT,CY],[("table keys own the identity",EC+" Table::insert; hash_map::Table"),("identity keeping its referent","src/utils.rs RefId")],
 ["verdicts; set of nodes held by identities"],None,HOOK)
p("C16","Skip decisions of a caller-supplied controller are obeyed exactly",
 "A caller-supplied descend mode is asked once for every counterpart pair before it is compared and once for every distinct, equal-valued pair that has edges before these are descended; answering no skips exactly that comparison or exactly those descendants and the comparison continues with everything else, in order. The result is that of the pairs actually compared.",
 ["schedules","inputs","fault_sequences"],
 "all sequences of yes/no/error answers, all graphs, all built-in recursion modes",
 "No test supplies a descend mode of its own.",
 [GE,BA],[("consultation of the descend mode",GE+" Equiv::equiv_main")],["sequence of calls on controller and nodes, returned value"])
p("C17","Pointer identities compare, order and hash consistently",
 "Reference identities are equal exactly when they point to the same object (with the same metadata), equal ones hash alike, and their order is a total order consistent with equality.",
 ["inputs"],"all pairs of references of all smart-pointer types","Tests use them only indirectly.",[UT],[("pointer comparison",UT+" RefId")],["results of comparison and hashing"])
p("C18","The crate builds and works without std or alloc and with any generator feature",
 "With default features off, or only alloc, or any generator feature selected, the crate builds, links without std, and the items available behave the same.",
 ["configurations"],"all feature combinations","Only two combinations are built.",["src/lib.rs","Cargo.toml",RNG],[("feature gates","src/lib.rs")],["build result"])
p("C19","No unsafe code",
 "The crate contains no unsafe code on any feature combination.",
 ["programs"],"the source","Not a runtime matter.",["src/lib.rs"],[("forbid(unsafe_code)","src/lib.rs")],["compiler"])
p("C20","Index increments stop at the end of the index type",
 "Incrementing an index of any primitive integer type yields the next value, or nothing when there is none.",
 ["inputs"],"all values of all primitive integer types","Only small indexes occur in tests.",["src/like_anticipated.rs"],[("checked_add","src/like_anticipated.rs Step")],["returned value"])
for q in P:
    assert len(q["title"])<=80,(q['id'],len(q['title']))
    q['anchors']={k:v for k,v in q['anchors'].items()}
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q,ensure_ascii=False)+'\n' for q in P))
