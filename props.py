"""The properties: source of properties.jsonl and of the descriptive half of MANIFEST.json (see gen.py)."""

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=None))

GG = "knaster_graph/src/graph_gen.rs"
GR = "knaster_graph/src/graph.rs"
TM = "knaster_primitives/src/time.rs"
GE = "knaster_graph/src/graph_edit.rs"
TA = "knaster_graph/src/task.rs"
SC = "knaster_graph/src/scheduling.rs"
BA = "knaster_graph/src/buffer_allocator.rs"
PR = "knaster_graph/src/processor.rs"
WR = "knaster_core_dsp/src/wrappers_core"
UG = "knaster_core/src/ugen.rs"

PROPS = [
P("P01", "Processing audio never allocates or frees heap memory",
  "While a block of audio is produced, including taking over an edited graph, applying parameter changes, retiring what was replaced and running any node of the library, the heap is neither allocated from nor freed to. Allocation happens when nodes, graphs and schedules are created, initialised or dropped on the editing side.",
  ["schedules", "inputs", "programs"], "every graph, node type, edit, parameter change and block",
  "The existing tests run a few graphs with one allocator check; which branch frees (a full ring, a replaced schedule, an event's token) depends on timing and history.",
  [GG, TA, PR, "knaster_core_dsp/src", "knaster_core/src"],
  [("block processing entry points of every node", UG), ("runner", PR), ("retired schedules are returned through a queue", GG)]),
P("P02", "Processing audio never waits",
  "While a block of audio is produced no lock is taken, no other thread is waited for (neither by blocking nor by spinning until it acts), and no operating system service, input or output is used. Logging from the audio side goes through a bounded queue and is dropped when the queue is full.",
  ["schedules", "inputs", "programs"], "every interleaving with the editing thread, every graph and node type",
  "A test that takes an uncontended lock or prints once passes; only under contention does it glitch.",
  [GG, TA, PR, "knaster_core/src/log.rs"],
  [("wait-free queues between the threads", GG), ("logging through a ring buffer", "knaster_core/src/log.rs")]),
P("P03", "Nodes and buffers in use by the audio thread are never freed",
  "A removed node, and a signal buffer that was replaced by a bigger one, stay allocated until the audio thread has taken over a schedule that no longer uses them. A node that was never part of a schedule, and one whose schedule has been taken over, is freed at a following commit, every schedule keeps the buffers it points into alive, and the audio side of a graph keeps the nodes its schedules point into alive, also after the graph itself is dropped.",
  ["schedules", "histories"], "every interleaving of edits and commits with block processing",
  "The dangling pointer is only dereferenced when a commit falls between two particular blocks; single-threaded tests alternate the two.",
  [GR, GG, TA, BA],
  [("one takeover flag per schedule, cloned into each pending removal", GR), ("schedules hold the buffers they use", TA),
   ("buffers are freed only when nobody else holds them", GR)],
  [("pending removals", "nodes waiting for the audio thread to take over a newer schedule", GR)]),
P("P04", "Takeover of a schedule is announced last",
  "The audio thread announces that a new schedule has been taken over only after nothing of the previous schedule can be used by it any more: state carried over from the previous schedule has been moved, and every later access in that block goes through the new schedule. The announcement is made with release ordering and read with acquire ordering, or stronger.",
  ["schedules"], "every interleaving of the announcement with a commit on the editing thread",
  "Moving the announcement forward or relaxing it fails only under a particular interleaving, on weakly ordered hardware.",
  [GG, TA, GR], [("takeover on the audio thread", TA), ("atomic flag per schedule", GR)]),
P("P05", "Schedules handed to the audio thread are neither lost nor leaked",
  "Every schedule the audio thread replaces is handed back to the editing side, which drops it at the next commit. A commit that cannot hand over its schedule because the audio thread has not kept up reports an error and keeps the edits, so that a later commit delivers them.",
  ["schedules", "histories"], "every rate of commits relative to audio blocks",
  "Needs as many commits as the queue is long without a block in between, then progress.",
  [GR, GG], [("bounded queue of schedules", GR), ("queue of retired schedules", GG)]),
P("P06", "Every edit takes effect at the next commit",
  "Every operation that changes which nodes exist or what they are connected to (adding or freeing nodes, connecting, replacing or disconnecting signals and parameters) is part of the schedule that the next successful commit sends to the audio thread. Ending an edit session commits it, and the audio thread takes over waiting schedules before it produces the next block.",
  ["histories", "inputs"], "every sequence of edit operations and commits, every argument",
  "Tests connect and then commit after other edits that also trigger recalculation, which masks an operation that forgets to.",
  [GR, GE, GG], [("recalculation mark", GR), ("commit", GR), ("end of an edit session", GE)]),
P("P07", "Invalid edits are rejected and change nothing",
  "An edit that names a node of another graph, a node that does not exist or has been freed, a channel or a parameter that the node does not have, returns an error, and an edit that returns an error has left the graph as it was. A connection of several channels counts as one edit per channel; setting a name or mortality refuses by logging.",
  ["inputs", "histories"], "every argument of every edit operation, in every state of the graph",
  "Tests try a few invalid arguments; a missing check in one operation, or a mutation before the check, shows up only with the wrong argument to that operation.",
  [GR, GE], [("argument checks at the start of each edit operation", GR)]),
P("P08", "No edit creates a cycle without a feedback node",
  "An edit that would make a node depend on its own output within one block, through any mixture of signal and parameter connections, is rejected. Feedback connections are broken by a one block delay.",
  ["inputs", "histories"], "every sequence of connections",
  "Cycles through parameter connections or replaced edges need specific multi-step graphs.",
  [GR], [("cycle check before an edge is added", GR)]),
P("P09", "Removing a node or edge removes exactly the right connections",
  "After a node is freed no connection from it or to it remains: signal inputs of other nodes, parameters of other nodes and graph outputs all lose it. Disconnecting an output or an input removes the connections of exactly that endpoint. When a summing node that the graph inserted is left with one input, exactly what it fed is connected to that input instead.",
  ["histories", "inputs"], "every graph and every node or endpoint removed",
  "Each kind of connection must be purged; a test checks the one it set up.",
  [GR], [("freeing a node", GR), ("disconnecting", GR)]),
P("P10", "Buffers are not shared and nodes run after their inputs",
  "Within a block a node's output buffer is not given to another node before everything that reads it (signal inputs, parameter inputs and graph outputs) has run, and every node runs after all nodes it reads from, whether through signal or parameter connections. Feedback connections are the only exception.",
  ["inputs", "histories"], "every graph shape",
  "Buffer reuse conflicts need particular fan-out shapes; the error is an audible wrong signal, not a failure.",
  [GR, BA], [("topological order", GR), ("borrow counting buffer allocator", BA)]),
P("P11", "Wrapped nodes behave like the node plus the wrapper's one effect",
  "A wrapper around a node passes on initialisation, every block or frame, every parameter change, parameter delay, audio rate parameter connection and parameter description to the wrapped node, and adds only what it is documented to add.",
  ["programs", "inputs"], "every wrapper, every wrapped node, every parameter",
  "Tests wrap one node with one wrapper and check one channel; a method that falls back to its empty default is invisible until that method matters.",
  [WR], [("delegating implementations", WR)]),
P("P12", "Parameter tables agree with the parameters a node accepts",
  "For every node and wrapper the number of parameters, their descriptions, their value hints and the parameters it reacts to agree, in the same order.",
  ["programs", "inputs"], "every node type, every parameter index",
  "One parameter per node is exercised by tests.",
  ["knaster_core_dsp/src", "knaster_core/src", "knaster_macros/src"], [("parameter tables", UG)]),
P("P14", "Arithmetic on handles computes what it says",
  "An arithmetic expression over node handles and constants creates the corresponding operation with the left operand as the left input and the right operand as the right input, for every combination of handle types and constants; each arithmetic node applies its operator to its first and second input in that order, for every channel and frame.",
  ["programs", "inputs"], "every operator, operand type combination and channel count",
  "Commutative operators and equal channels mask swapped operands; only a few of the generated combinations are tested.",
  [GE, "knaster_core_dsp/src/ugens/math.rs"], [("operator implementations for handles", GE), ("arithmetic nodes", "knaster_core_dsp/src/math.rs")]),
P("P15", "Scheduled changes carry what the caller asked for",
  "Every way to schedule a parameter change sends exactly one change that names the node of the handle, the requested parameter, the requested value and smoothing and the requested time and token. A failure to send it is reported as an error.",
  ["programs", "inputs"], "every handle type and every scheduling method",
  "Tests use one of the many methods; a dropped time or smoothing is only audible.",
  ["knaster_graph/src/handle.rs", SC], [("handle methods", "knaster_graph/src/handle.rs")]),
P("P16", "Parameter changes on the audio thread are applied or kept",
  "A change the audio thread receives is applied to the node and parameter it names, with its value, its smoothing and its delay within the block, or it is kept for a later block because its time or its token has not come. It is dropped only when its node does not exist, when it has waited too long for a node or token, or when the waiting list is full.",
  ["schedules", "histories", "inputs"], "every sequence of changes and arrival time",
  "Tests schedule single changes; loss needs several waiting changes or particular times.",
  [GG], [("application of scheduled changes", GG)]),
P("P17", "Nodes see the block they are asked to produce",
  "A wrapper that produces a block in parts gives each part consecutive, non-overlapping and complete frames of the inputs and outputs, tells the node the position and length of that part, and leaves the description of the block as it found it.",
  ["inputs", "programs"], "every block size, split point and wrapped node",
  "Off-by-one splits need particular delays and block sizes.",
  [WR, UG], [("partial blocks", "knaster_primitives/src/block.rs"), ("sample accurate timing wrapper", WR)]),
P("P18", "Safe accessors never read or write outside a block",
  "No safe method of the block, frame, buffer and wavetable types reads or writes memory outside of the block for any channel or frame index (for a part of a block: outside of the block it is a part of). Reading a sample, writing it and the slice of its channel all mean the same sample, different samples are different memory, and the mutable channels of one block never overlap. Safe constructors allocate the memory they work on or check its size.",
  ["inputs"], "every block size, channel count and index",
  "Out of bounds accesses inside a bigger allocation go unnoticed by tests.",
  ["knaster_primitives/src/block.rs", BA], [("bounds checks in accessors", "knaster_primitives/src/block.rs")]),
P("P19", "Nodes are initialised before they produce audio",
  "Every node is initialised with the sample rate and block size of the graph it is added to before its first block, exactly once per addition, and graphs initialise with the values their processor or parent uses.",
  ["programs", "histories"], "every way to add a node",
  "A node that does not depend on the sample rate works uninitialised.",
  [GR, PR], [("initialisation when a node is pushed", GR)]),
P("P20", "Done actions free the node they are about",
  "When a node reports that it is done, the requested removal reaches the node (or the graph) that was configured for it, and no other: the flag raised on the audio thread is the one the graph polls for that node, and the graph frees that node at the next commit.",
  ["histories", "schedules"], "every done action and node",
  "Tests cover one envelope; wiring of flags is per wrapper and per node.",
  [GR, GG, WR], [("removal flag per node", GR)]),
P("P21", "Only what may cross threads crosses threads",
  "A graph accepts only nodes that may be sent to another thread (including everything a wrapper or closure in them holds), because it hands them to the audio thread. The audio processor, the graph, node and parameter handles and the log receiver can be moved to another thread, and graph and handles can be used from several threads; a wrapped node can be moved only if the node in it can, and blocks that point into memory they do not own can be neither moved nor shared.",
  ["programs"], "every program that compiles",
  "Whether a violating program compiles is not observable by running programs that do compile.",
  [GR, GE, GG, TA, "knaster_graph/src/block.rs"], [("bounds on the nodes a graph takes", GE), ("manual Send and Sync implementations", TA)]),
P("P22", "Connections with mismatched channel counts do not compile",
  "With statically typed handles, connecting outputs to a different number of inputs or graph output channels, combining signals with different numbers of channels by arithmetic, or linking a parameter to anything but one channel is a compile error. The channel counts in a handle's type are those of its node, wrapping a node keeps its channel counts and sample type, a node takes and returns frames of exactly its channel counts, and a graph only accepts nodes of its sample type.",
  ["programs"], "every program that compiles",
  "A test cannot contain a program that does not compile.",
  [GE, UG], [("bounds on the methods and operators of SH", GE), ("channel counts of handles (Static)", GE)]),
P("P23", "Dereferencing raw memory requires unsafe code",
  "Safe code outside the library cannot make it use a pointer that is not valid: every public operation that takes a raw pointer is unsafe, no public field or copy gives access to one or to the sizes it is used with, and safe public operations use raw memory only in ways whose requirements they meet themselves. Channels, blocks and parts of blocks that the library gives out cannot outlive, exchange or mutably share the memory they are made of.",
  ["programs"], "every program without unsafe code",
  "A test cannot enumerate programs.",
  ["knaster_graph/src", "knaster_core/src", "knaster_primitives/src"], [("unsafe markers", "knaster_primitives/src/block.rs")]),
P("P24", "Log messages are framed",
  "Every message logged from the audio thread goes to the log channel as one chain: its parts in order and unchanged, then an end marker, with nothing of another message in between (parts that find the channel full are lost). The receiver hands every complete chain to its handler exactly once and in order, in one piece or in two where the channel wraps around, and keeps an incomplete chain until the rest has arrived.",
  ["inputs", "schedules"], "every logging call site",
  "Which message runs into the next depends on what is logged next.",
  ["knaster_core/src/log.rs"], [("log chains", "knaster_core/src/log.rs")]),
P("P25", "Feedback delays by exactly one block",
  "A feedback connection delivers each block of its source, complete and in order, to its sink exactly one block later, in whatever order its two ends run; in its first block it delivers silence. Every feedback connection has buffers of its own, and its two halves are removed together.",
  ["inputs", "histories"], "every graph with feedback",
  "The order in which the two halves run depends on the shape of the graph.",
  [GR, "knaster_graph/src"], [("feedback node pair", GR)]),
P("P26", "Connecting makes exactly the requested connection",
  "A connection request that is accepted adds the requested connection - from the requested output channel of the requested node or graph input to the requested input, parameter or graph output - and either replaces what the sink was connected to or is summed with it, as asked; every other connection stays as it was. Connecting handles pairs the outputs of the left handle with the inputs of the right one in order, a handle's channels are those of its parts in order, and a request for one channel concerns that channel only.",
  ["inputs", "histories", "programs"], "every graph shape, sequence of edits and combination of handles",
  "Tests connect equal channels of small graphs, where a swapped channel, a replaced instead of summed input or a dropped pair goes unnoticed.",
  [GR, GE], [("connect2 and connect_to_parameter", GR), ("methods of SH and DH", GE)]),
P("P27", "Inspection shows the graph as it is",
  "A graph inspection taken after a commit lists every node of the graph once, with its number of inputs and outputs, its parameters and its name, and every signal connection - from nodes and graph inputs to node inputs and graph outputs - with its endpoints, its channels and whether it is a feedback connection. A node that contains a graph is marked with that graph. The handles made from an inspection name its nodes, each with its own parameters and channel counts.",
  ["inputs", "histories"], "every graph",
  "Each kind of connection is reported by its own code.",
  [GR, "knaster_graph/src/inspection.rs"], [("inspection", GR)]),
P("P28", "Every connection carries its signal, everything else is silent",
  "In each block every input of every node reads the output channel of the node it is connected to, or silence when it has no connection; every parameter with an audio rate connection reads the channel connected to it; inputs connected to the graph read the graph's own input of that index. Each output channel of the graph is the signal of the node (or graph input) connected to it, taken after all nodes have run once, or silence; a graph that has been removed outputs silence.",
  ["inputs", "histories"], "every graph shape, every block",
  "A swapped channel or a stale buffer sounds like the right signal in the few graph shapes that are tried.",
  [GG, GR, TA], [("schedule generation", GR), ("output copying", GG), ("silent input buffer", BA), ("audio rate parameter connections", TA)]),
P("P29", "Times compute exactly",
  "A time in seconds or beats is a number of tesimals, split into a whole part and fewer tesimals than make up a whole. For such times the sum (also in place), the checked and the saturating difference, the comparisons, the product of two times in seconds, the conversions to and from a number of tesimals, and the conversion from a number of samples give exactly the result of the same computation on the numbers of tesimals (rounded down where it has a fraction), again with fewer tesimals than make up a whole, whenever the result can be represented; the checked difference is absent, and the saturating one zero, exactly when more is subtracted than there is. Conversion to samples gives exactly the number of whole samples. No intermediate result is cut off or overflows, and nothing panics. Sample rates are positive and fit 32 bits.",
  ["inputs"], "every pair of times, every sample rate",
  "The carry between tesimals and the whole part is only wrong for particular values (exactly one whole, borrow with equal whole parts); drift shows after hours.",
  [TM], [("seconds", TM), ("beats", TM)],
  [("tesimal", "the smallest unit of time, SUBSECOND_TESIMALS_PER_SECOND or SUBBEAT_TESIMALS_PER_BEAT to the whole", TM)]),
]

_WIP = "not claimed: no check of this property has been built yet"
NA = {p["id"]: _WIP for p in PROPS}
