"""Which rules decide which property, and what each establishes."""

RULES = {
 "P01": {
  "title": "Processing audio never allocates or frees heap memory",
  "rules": [("rt", "p01"), ("retire", "p01_buffers"), ("retire", "p03_buffers")],
  "technique": "interprocedural effect analysis: call-graph reachability of heap operations over resolved MIR",
  "note": "Every function reachable from the audio-side entry points (runner, graph, every node and wrapper) is classified; no allocation "
          "or deallocation function is reachable except through listed findings. Trait calls are resolved to every implementation; trusts "
          "rustc's MIR and treats the nodes' initialisation as editing-side.",
  "explain": "Roots: the processing entry points of the runner and of every node and wrapper. Over the resolved call graph (monomorphic "
             "where possible, all implementations of a trait method otherwise, drop glue included, down to the standard library's MIR) "
             "no function that allocates or frees may be reachable, except behind a proof that the path cannot be taken (Weak/Arc counts, moved-out values).",
 },
 "P02": {
  "title": "Processing audio never waits",
  "rules": [("rt", "p02"), ("log", "p24_logger")],
  "technique": "interprocedural effect analysis: reachability of blocking, I/O and system calls, and spin-loop detection on MIR",
  "note": "As P01, for locks, waits, sleeping, system calls, I/O, and loops whose exit depends only on shared state written by another thread. "
          "Trusts rustc's MIR and the classification of foreign functions in rules/rt.py.",
  "explain": "Roots as P01. No foreign function outside the allowed list (memory, math) and no lock, park, sleep or I/O primitive may be "
             "reachable; every loop reachable on the audio side is classified, and none may have all its exits conditioned on atomics alone.",
 },
 "P03": {
  "title": "Nodes and buffers in use by the audio thread are never freed",
  "rules": [("retire", "p03_free"), ("retire", "p03_flag"), ("retire", "p03_buffers"), ("retire", "p03_arena"), ("audio", "p03_hold")],
  "technique": "path-sensitive ownership and typestate analysis of retirement on flattened MIR",
  "note": "Nodes leave the graph only in the retirement loop, on paths where the flag stored with their key was read as raised; each pending "
          "removal gets the flag of the schedule that follows it; the audio side holds the very collection of nodes; schedules own the buffers they point into and the audio side keeps "
          "what it takes out of them. The step from these facts to absence of dangling use is a paper argument (DESIGN.md).",
  "explain": "The function that frees retired nodes is walked path-sensitively: a removal from the node table needs the flag fact of the same "
             "element, and its entry must go with it. Every store of a takeover flag is traced to one creation per schedule. Buffer "
             "allocations are followed from the allocator into schedules, pending lists and the audio side's holder.",
 },
 "P04": {
  "title": "Takeover of a schedule is announced last",
  "rules": [("audio", "p04_takeover"), ("retire", "p04_load")],
  "technique": "path-sensitive ordering (typestate) analysis on flattened MIR, with atomic orderings read from the operands",
  "note": "On every path of the takeover the flag is raised after every carried node has been moved and the old schedule is only handed back "
          "afterwards; the store has Release and the loads Acquire or stronger. Sufficiency of these orderings is the memory model's, not re-proved.",
  "explain": "process_block is flattened with the takeover inlined and walked against a typestate per received schedule (carried / parameters / "
             "announced / replaced / returned); loop exhaustion proves that all carried nodes were moved. The orderings of the store and of "
             "every load of the flag are constants of the calls.",
 },
 "P05": {
  "title": "Schedules handed to the audio thread are neither lost nor leaked",
  "rules": [("audio", "p05_returned"), ("retire", "p05_handover"), ("retire", "ring_capacity")],
  "technique": "path-sensitive typestate analysis of both ends of the schedule queues on flattened MIR, with capacity dataflow",
  "note": "Every schedule received is put in use and the one it replaces pushed back, on every path; the commit checks for room before it "
          "changes anything, drains returned schedules first, and reports an error otherwise; the return queue is at least as large as "
          "the other plus one. The queue (rtrb) itself is trusted.",
  "explain": "The loop over received schedules is walked against a typestate (received, replaced, returned); the commit against (drained, room "
             "known, sent); the capacities given to the two queues' constructors are evaluated symbolically and compared.",
 },
 "P06": {
  "title": "Every edit takes effect at the next commit",
  "rules": [("graph", "p06"), ("graph", "p06_commit"), ("graph", "p06_drop"), ("audio", "p06_takeover")],
  "technique": "path-sensitive typestate analysis over flattened MIR of every edit operation and of the commit",
  "note": "On every path of every editing entry point, a change of nodes or connections is accompanied by marking the graph for recalculation; "
          "the commit clears the mark only after a successful hand-over of a schedule built from a recomputed order and buffers; the audio side "
          "takes every waiting schedule before it runs nodes. Paths are "
          "over-approximated (constants and enum variants only).",
  "explain": "Each public editing method is flattened with its helpers inlined and walked path-sensitively against an automaton "
             "(edit seen / mark raised); the commit is walked against the protocol order -> buffers -> schedule -> hand-over -> mark cleared.",
 },
 "P07": {
  "title": "Invalid edits are rejected and change nothing",
  "rules": [("edits", "p07")],
  "technique": "path-sensitive must-check-before-use analysis on flattened MIR of every edit operation",
  "note": "On every path of every editing entry point, each change of the graph is preceded by the tests its arguments need (graph, "
          "node existence, output, input, graph channel and parameter bounds, derived from the arguments that reach the change), and no "
          "error is returned after a change. A connection of several channels is several edits; set_name and set_mortality refuse by logging.",
  "explain": "Each public edit operation is flattened (helpers, combinators and closures inlined). Facts established by branches are "
             "collected along every path in canonical form (call chains reduced to the data they test); at every write to nodes, edges or "
             "the event queue the facts required for the keys and indices used must be known, and no path from a write may return Err.",
 },
 "P08": {
  "title": "No edit creates a cycle without a feedback node",
  "rules": [("cycles", "p08")],
  "technique": "path-sensitive must-check-before-use analysis on flattened MIR, with a loop-exhaustion typestate for the search itself",
  "note": "Every edit that stores an edge whose source leads (through nodes made by the edit) to the sink named by the caller has, on that path, "
          "a negative answer of the reachability search for exactly that pair; the search is shown to follow every signal and parameter "
          "connection of every node it reaches. That negative answers imply acyclicity is the usual induction, not mechanised.",
  "explain": "The search function is found by structure (worklist loop returning bool) and walked against a typestate: every node popped is "
             "compared and its signal and parameter connections are all pushed, false only when the worklist is empty. Each edit operation is "
             "walked with path-sensitive values; at every return the edges written are composed through fresh nodes into source/sink pairs.",
 },
 "P10": {
  "title": "Buffers are not shared and nodes run after their inputs",
  "rules": [("order", "p10_order"), ("order", "p10_buffers"), ("order", "p10_allocator")],
  "technique": "path-sensitive typestate analysis of the ordering and allocation algorithms on flattened MIR",
  "note": "The ordering is shown to emit a node only after every signal and parameter source of it, and every node that is needed once; "
          "the allocator is shown to hand out a buffer only when its borrow count is zero, with one borrow per reader. That these facts "
          "imply freedom from conflicts in every graph is a paper argument (DESIGN.md), not mechanised.",
  "explain": "The order computation, the buffer assignment and the allocator are found by structure and role and walked path-sensitively "
             "against typestates: loop exhaustion over sources, visited marks, dependents counted per edge kind (signal, parameter, graph "
             "output), a buffer returned only after its node's inputs, and taken only from the free ones.",
 },
 "P28": {
  "title": "Every connection carries its signal, everything else is silent",
  "rules": [("signals", "tasks"), ("signals", "outputs"), ("signals", "inputs"), ("signals", "ar_params"),
            ("audio", "p28_parameters"), ("audio", "block"), ("audio", "removed"), ("blocks", "p28_run")],
  "technique": "path-sensitive for-all-elements dataflow analysis of schedule generation and of the block on flattened MIR",
  "note": "For every element of each edge table the schedule gets the pointer computed from that edge's own source, channel and block size, or "
          "silence; the block copies every graph output from its own entry after all tasks, or fills it with silence. Values are symbolic "
          "access paths; arithmetic on pointers is matched structurally, lengths of allocations are P10's and the allocator's.",
  "explain": "Loops over the order, the edge tables, the graph's outputs, inputs and the tasks are identified by the container they iterate over, "
             "in any of the recognised iteration forms; on every path through an iteration the obligation of its element must be met "
             "with values derived from that same element, and every loop must run to exhaustion before the function returns.",
 },
 "P16": {
  "title": "Parameter changes on the audio thread are applied or kept",
  "rules": [("changes", "p16_apply"), ("changes", "p16_time"), ("changes", "p16_block")],
  "technique": "path-sensitive effect summaries of the applying function and typestate analysis of the change queues on flattened MIR",
  "note": "Per path of the applying function: facts (token, time, node) against the ordered calls on the node and the value returned. Per path of "
          "the block: each change popped or received is applied or put back, ages only while due, and is dropped only on the listed facts. "
          "Second and sample arithmetic inside Seconds is trusted; the waiting list being full is a permitted loss.",
  "explain": "apply_parameter_change is summarised path by path (facts, ordered effects, result) and each summary compared with the rule: applied only "
             "when token and time facts allow, with delay, smoothing and value of the change itself, on the node whose key was compared. "
             "process_block is walked against an automaton of the change in hand (popped / new / applied / to be kept).",
 },
 "P09": {
  "title": "Removing a node or edge removes exactly the right connections",
  "rules": [("purge", "p09_free"), ("purge", "p09_output"), ("purge", "p09_input"), ("purge", "p09_collapse")],
  "technique": "path-sensitive for-each analysis of the edge tables on flattened MIR (which elements are removed, kept or replaced, under which facts)",
  "note": "For the loops over each edge table every element is proved to be cleared exactly when its source (and channel) is the one to remove. "
          "That every connection is in one of the three tables is the graph's data model (P06 decides who may write them). "
          "Which nodes are auto-removed is checked for summing nodes only.",
  "explain": "Freeing a node and disconnecting an output walk all three edge tables; on every path an element is cleared iff the path facts "
             "prove that its source (and channel) equal the arguments, every element of every table is visited, retained entries are "
             "compared inside the closure, and the disabled parameter is the one that was connected. Disconnecting an input takes the slot "
             "named by its arguments and no other. A summing node with one input left is bypassed in every table before it is freed.",
 },
 "P26": {
  "title": "Connecting makes exactly the requested connection",
  "rules": [("connect", "p26_signal"), ("connect", "p26_sum"), ("connect", "p26_param"), ("handles", "p26_handles"), ("handles", "p26_single"), ("lists", "p26_lists")],
  "technique": "per-path effect summaries of the connect operations and ordered-list analysis of the handle methods on flattened MIR",
  "note": "Each accepted path of every connect operation is summarised (facts, writes to the edge tables, nodes inserted) and compared with the requested "
          "connection; each method of SH and DH is proved to issue one operation per channel pair, in order, with the arguments of that pair. "
          "The channel iterators themselves (position, end) are trusted.",
  "explain": "The edge record written, its slot, its source and channel, and what happens to the previous entry (kept as the other input of a summing "
             "node, or replaced) are compared with the arguments on every path that returns Ok. Handle methods are walked with a for-each automaton "
             "whose items are decoded through zip/enumerate/chain; lists of channels are summarised as ordered segments.",
 },
 "P14": {
  "title": "Arithmetic on handles computes what it says",
  "rules": [("arith", "p14_expr"), ("arith", "p14_number"), ("arith", "p14_apply"), ("arith", "p14_ugen")],
  "technique": "symbolic wiring summaries of all operator implementations and for-each analysis of the arithmetic nodes on flattened MIR",
  "note": "All 82 operator implementations (handle and number operands on either side, four operators, pow) are expanded down to graph operations: one node of the right "
          "operator per channel, operand k of that channel wired to input k. Nodes: out[i] = op(a[i], b[i]) for every channel and frame. "
          "What f32/f64 operators compute is the language's; channel counts are concretised to 2.",
  "explain": "Operator implementations are flattened; per iteration of the loop over the operands' channels exactly one MathUGen of the operator the trait names must be "
             "made, the left operand's channel connected to input 0 and the right one's to input 1, and its output appended to the result. "
             "Constants must be the operand itself through value-preserving conversions.",
 },
 "P11": {
  "title": "Wrapped nodes behave like the node plus the wrapper's one effect",
  "rules": [("wrap", "p11_delegate"), ("wrap", "p11_effect"), ("wrap", "p11_frames"), ("wrap", "p11_before"), ("wrap", "p11_tables"), ("wrap", "p11_dyn"), ("wrap", "p11_make")],
  "technique": "delegation summaries of every path of every wrapper method, with loop automata for the per-sample effects, on flattened MIR of generic code",
  "note": "Wrappers are found by type (a UGen with a field that is a UGen type parameter); a wrapper the check knows no effect for stops it. "
          "Every UGen method of each: called on the wrapped node once per path with the same arguments; the wrapper's own parameter (index T::Parameters) is not passed on. "
          "How WrPreciseTiming and WrSmoothParams divide a block is P17; the values of a smoothing ramp are not decided.",
  "explain": "Each method of each wrapper is flattened as generic code (T symbolic) and every path is summarised as facts, writes, and calls to the wrapped node. "
             "Required: the same method, once, same arguments; own parameters kept apart. process/process_block: the node first, then the documented operator exactly once on every "
             "sample of every channel with the operands in the documented order. Also: frame-by-frame fallback of UGen, parameter tables, type-erased DynUGen/UGenEnum and the constructors.",
 },
 "P15": {
  "title": "Scheduled changes carry what the caller asked for",
  "rules": [("send", "p15_send"), ("send", "p15_parameter"), ("send", "p15_set"), ("send", "p15_handles"), ("send", "p15_values"), ("send", "p15_channel")],
  "technique": "path summaries of every sending method on flattened MIR: the event sent is compared, field by field, with the arguments; identity tracing for handles and queues",
  "note": "`impl Into` conversions of the caller's own types are opaque; the conversions this workspace defines are checked one by one (p15_values). "
          "Handle::set with Param::Index does not check the bound (a change for a parameter that does not exist), which the statement does not ask for.",
  "explain": "For the 12 methods of Parameter, HandleTrait::set of both handles, Graph::set, GraphEdit::set and Graph::set_many: on every path exactly one event is sent, its node, parameter, "
             "value, smoothing, token and time come from the handle and the arguments of that method, and the result is Err when the queue was full or the target does not exist. "
             "The sender pushes the event it was given once. Handles name the node that was pushed or looked up; a parameter index is in bounds or is the position of the name asked for. "
             "The two halves of the event queue of a graph are those of one ring buffer.",
 },
 "P17": {
  "title": "Nodes see the block they are asked to produce",
  "rules": [("parts", "p17_meta"), ("parts", "p17_parts")],
  "technique": "path-sensitive cursor automaton over wrappers that divide blocks, and value summaries of block descriptions and partial blocks, on flattened generic MIR",
  "note": "Wrappers that divide a block are found by what they do (make a part of a block or touch the description of one). Bounds are proved from the branch facts and from `min` with the rest of the block; "
          "a division the automaton cannot bound is reported. Whether the wrapped node itself stays inside the part it is given is that node's.",
  "explain": "Per path of process_block: parts start at one cursor that starts at 0, grows by exactly the length of the part just produced and ends at the number of frames; input part, output part and description use that "
             "same start and length; the length stays within the block; the description is the original one when it is read and when the function returns. "
             "make_partial, PartialBlock and PartialBlockMut: every accessor is the parent's at the frame plus the start.",
 },
 "P19": {
  "title": "Nodes are initialised before they produce audio",
  "rules": [("inits", "p19_push"), ("inits", "p19_only"), ("inits", "p19_values")],
  "technique": "typestate over the insertion of nodes and value tracing of sample rate and block size from the options to every context, on MIR",
  "note": "Initialisation before the first block also needs that schedules only contain nodes of the graph (P04) and that insertion happens at one place, which the check establishes; "
          "UGens that contain UGens pass init on (checked for those of the workspace).",
  "explain": "The node table of a graph is inserted into at one place only, after exactly one init of that node with the graph's sample rate and block size on every path. No other function of the workspace calls init except implementations "
             "of init, which pass both values on unchanged, at most once per contained node. Every construction of Graph, GraphGen, AudioProcessor and AudioCtx gets both values from its maker's.",
 },
 "P20": {
  "title": "Done actions free the node they are about",
  "rules": [("done", "p20_wrap"), ("done", "p20_wiring"), ("done", "p20_graph"), ("done", "p20_poll")],
  "technique": "path summaries of the done wrapper, identity tracing of the shared flags, and a for-all loop automaton over the polling commit, on flattened MIR",
  "note": "That a node which is freed is removed together with its edges is P06/P07. A node that may not be removed (immortal) keeps its flag; free_node_from_key refuses it. Memory orderings are P03's subject only for schedules; the flag is polled again at every commit.",
  "explain": "The wrapper resets the flags, runs the node once and on every path maps (done, configured action) to the removal flags and raises the node's own flag exactly when the node is to be removed. The flag given to a node is the same "
             "allocation as the one in the wrapper or graph that raises it. A graph asked to be removed raises its flag after all nodes ran. Every commit frees exactly the nodes whose flag is up, before it decides whether there is anything to commit.",
 },
 "P12": {
  "title": "Parameter tables agree with the parameters a node accepts",
  "rules": [("params", "p12_tables"), ("params", "p12_kinds"), ("params", "p12_integers"), ("wrap", "p11_tables")],
  "technique": "per-path summaries of every UGen's table methods and parameter dispatch on type-checked MIR, compared with the type-level parameter count",
  "note": "Every UGen implementation in the workspace is found by trait; tables are decoded from the arrays the methods build, the dispatch from the conditions on the index on each path of param_apply and the conversions applied to the value. "
          "What a node does with a value after it has accepted it is not decided.",
  "explain": "For each UGen: the number of descriptions and hints equals the Parameters type; the name, the kind of value (float, trigger, integer, bool) and the index that param_apply accepts agree, index by index; "
             "indices outside are rejected. ParameterValue conversions and hint kinds agree; integer parameters' number, range and descriptions agree with the enum's variants, and sending and receiving are inverse.",
 },
 "P21": {
  "title": "Only what may cross threads crosses threads",
  "rules": [("witness", "p21"), ("witness", "p21_impls")],
  "technique": "compile-fail witnesses with compiling twins, type-checked (never run) against the current tree, and an audit of every manual Send/Sync implementation and of the bounds on pushed nodes",
  "note": "The compiler is the oracle. Generic witnesses (any node type without a Send bound is refused) cover all node types; wrappers, closures and the two sides' types are enumerated. "
          "That a manual assertion is justified by how its type is used is an argument in DESIGN.md, not decided.",
  "explain": "Programs that push a node holding an Rc (bare, wrapped in every wrapper, captured by a closure, or of an unbounded generic type), or that need a raw block to be Send or Sync, must be refused with a trait error inside the witness; "
             "their twins must be accepted, and so must programs that move or share the processor, graph, handles and receiver. Every manual Send/Sync implementation: only the known types, and conditional on the type parameters they hold.",
 },
 "P22": {
  "title": "Connections with mismatched channel counts do not compile",
  "rules": [("witness", "p22"), ("witness", "p22_wrappers")],
  "technique": "compile-fail witnesses with compiling twins, type-checked (never run) against the current tree; generic type identities proved by the compiler for all node types",
  "note": "The compiler is the oracle. Each operation is tried with ten mismatched pairs of counts in two arrangements (a bound on the wrong counts is satisfied in one of them), with stacks and channel handles, and generically (unbounded handles must be refused). "
          "Handles of unknown channel count (DH) are checked at run time by design and are not part of this.",
  "explain": "About 280 programs that must be refused, each with the error inside the witness, and about 200 that must be accepted; identities (a handle's counts are its node's, a stack's are the sums, an arithmetic result has its operands' outputs) are stated generically where the types can be named. "
             "For every wrapper and for subgraph nodes the associated channel counts are compared with those of the wrapped node.",
 },
 "P25": {
  "title": "Feedback delays by exactly one block",
  "rules": [("feedback", "p25_delay"), ("connect", "p26_signal"), ("blocks", "p28_run")],
  "technique": "path summaries of both halves of the feedback pair with evaluation of their buffer indices over block numbers and sizes, and identity tracing of the shared buffers, on flattened MIR",
  "note": "The index expressions depend on the clock and the block size only, and are compared for block numbers 0..6 and six block sizes (they are periodic in the block number); the clock advancing by one block per block is checked at the processor. "
          "That both halves run in every block is P10's and P28's.",
  "explain": "The two halves are found at the function that adds a pair. Per path of their process_block exactly one copy of a whole block between channel 0 and one whole buffer of the pair; the buffer read in block n is the one written in block n-1 and not the one written in block n. "
             "A new pair has one shared allocation of two zeroed buffers of one block; each half names the other as its partner, and freeing a node frees its partner on every path. The edges made by a feedback request go through the pair.",
 },
 "P27": {
  "title": "Inspection shows the graph as it is",
  "rules": [("show", "p27_lists")],
  "technique": "loop and path summaries (which element of which table each record is built from, and under which conditions one is skipped) on flattened type-checked MIR",
  "note": "Audio rate parameter connections are not in the inspection (documented as to do in the code) and are not part of the statement; nodes pushed since the last commit are not listed. The text made from an inspection (dot output) is not decided.",
  "explain": "Inspection: one pass over the whole node order, the whole input row of each node and all output edges; every iteration adds exactly one record when there is an edge, built from that element only - source, channels and feedback flag are those of the edge, index is its position, name, counts and parameters are those of the node. "
             "Node data are taken from the generator's own counts and tables; the parameter list reads descriptor i and then steps; a subgraph's node is marked with the subgraph's id; node handles name each node of the inspection once.",
 },
 "P24": {
  "title": "Log messages are framed",
  "rules": [("log", "p24"), ("log", "p24_logger")],
  "technique": "typestate of the logger (open / closed message) over every path of every function that logs, and path summaries of the receiver's slices with relational (linear) entailment of their bounds, on flattened type-checked MIR",
  "note": "Assumes the ring buffer (rtrb) delivers what was pushed, in order. Parts lost because the channel is full are outside the statement. Loops of the receiver are decided by one iteration from an arbitrary position: what is handed over is the interval from the position to the next end marker, and the position moves right behind it.",
  "explain": "Senders: on every path a run of parts on one logger is ended by the end marker before the function returns or something that may log is called; an end marker ends a message; helper functions are followed into their callers. Sending a part pushes that part once. "
             "Values become the part of their kind, uncut, never an end marker. Receiver: everything in every channel is searched from the end of the last message; the slices handed over for one message add up to exactly its parts in order (with the wrap of the channel), the number released is the number handed over. The processor's context logs to the channel whose receiver is returned.",
 },
 "P18": {"title": "Safe accessors never read or write outside a block",
  "rules": [("bounds", "p18")],
  "technique": "MIR bounds analysis: every raw memory operation and unchecked access of the block, frame, buffer and wavetable types is reduced to a linear address over the fields of its type and shown inside the allocation from the guards on its paths; the address functions of read, write and slice are compared with each other",
  "note": "static analysis of compiler MIR; the length invariants of each type are shown from its constructors and that its fields are not public",
  "explain": "Every dereference, pointer offset, from_raw_parts and unchecked index in the safe methods of the block, frame, buffer and wavetable types becomes base + linear offset; on each path the offset plus the length accessed must be entailed to stay below the size its constructor allocated. read, write and channel slices of one type must name the same address for the same channel and frame, and the address map must be injective. iter_mut gives out each channel once. Integer narrowing in an index is reported."},
 "P23": {"title": "Dereferencing raw memory requires unsafe code",
  "rules": [("rawptr", "p23"), ("rawptr", "p23_safe"), ("rawptr", "p23_made"), ("rawptr", "p23_ctx"), ("rawptr", "p23_wit")],
  "technique": "type-checked signature, field and implementation queries over everything other crates can name; call-graph query for unsafe operations in safe functions; path analysis of the sizes raw memory is used with; compile-fail witnesses judged by the compiler",
  "note": "Exported items are those reachable through public modules and re-exports, as the compiler sees them. What the private parts of the graph do with their own pointers is decided under P05, P17, P18 and P28.",
  "explain": "Exported functions that take raw pointers are unsafe and none makes a mutable reference of shared ones; exported types that hold raw pointers have no public fields, are not copied (nor are types that free memory), and their sizes are never written after construction (or provably stay within a block). Exported safe functions that call unsafe ones: only the ones whose arguments are shown valid. No integer becomes a pointer. Before every task the block size of the context is compared with that of the buffers. 40 programs (unsafe calls without unsafe, slices, parts and output blocks that outlive their owner, are held twice or exchanged) must be refused, their twins accepted."},
 "P29": {
  "title": "Times compute exactly",
  "rules": [("times", "p29")],
  "technique": "abstract interpretation of the flattened MIR over polynomials with floor divisions in a normal form, with a polyhedral domain for branches",
  "note": "Operands are arbitrary normalised times; results are compared with the specification as polynomials over tesimals, intermediate results are bounded by "
          "their type, ways that the linear constraints exclude are cut. Conversions through floating point, and products of beats, are not exact and not part of the property.",
  "explain": "Every operation is interpreted from its entry with symbolic times: each integer is a polynomial, a division is an atom with its defining inequalities, "
             "each branch splits the abstract state. At each return the result's total, normalisation and (for comparisons) order are entailed; a checked or narrowing "
             "operation that the constraints do not bound is reported.",
 },
}
