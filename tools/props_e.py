P("C13", "UIDs are compared by their text",
  "Wherever the module looks something up, records it or compares it by UID, two UIDs with the same text name the same thing, whichever implementation or object they are, and two UIDs with different text never do.",
  ["inputs", "histories"], "every implementation of uuid.UID, equal texts in different objects, texts which differ in one character",
  "Tests look things up with the UID object they stored them under and with texts which differ entirely; a comparison by identity or of a part of the text passes them.",
  ["pkg/uuid/uuid.go", "pkg/cache/memory/links.go", "pkg/graph/memory/wg.go", "pkg/plan/simple/simple.go"],
  [("index keys", "pkg/cache/memory/links.go, pkg/graph/memory/wg.go, pkg/plan/simple/simple.go")],
  "type and taint analysis of the SSA: comparisons, map keys and assertions on UIDs and on what is made of their text",
  "The text is followed through variables, calls and conversions within the module, not through struct fields.")

P("C30", "A failed part makes the operation fail",
  "When something an operation relies on fails (a supplied marshaler, broker, graph, scraper, handler or attribute source, a library call, or another operation of the module) the operation returns a non-nil error. "
  "Only failures which say that something is missing are tolerated, where this is documented.",
  ["inputs", "faults"], "every call which can fail, at every position in a sequence of calls",
  "Tests use parts which never fail, or fail at the first call; a dropped or overwritten error needs a failure at one particular call.",
  ["pkg/store/memory/store.go", "pkg/graph/memory/wg.go", "pkg/space/marshal/marshal.go", "pkg/space/marshal/json/json.go",
   "pkg/broker/ingester/simple/ingester.go", "pkg/broker/digester/simple/digester.go", "runner.go"],
  [("error results of calls", "all packages")],
  "path-sensitive error flow: every error result of a call on a path against the error the operation returns",
  "An error counts as reported when the operation returns any error that is known not to be nil on that path.")

P("C32", "Foreign or missing values are reported and never crash an operation",
  "Entities, nodes, edges and graphs of foreign implementations, members a graph does not have, and lookups which return nothing make an operation return an error (or do what the interface allows) and never panic. "
  "Nil arguments are outside of this, and so is adding a node whose ID another node of the graph has, which is documented to panic.",
  ["inputs", "faults"], "every implementation of the interfaces in the signatures, every UID present or absent",
  "Tests use the types of the module only, whose values satisfy every assertion.",
  ["pkg/graph/memory/wg.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go", "pkg/store/memory/store.go"],
  [("type assertions", "pkg/graph/memory/wg.go, pkg/store/memory/store.go"), ("results of lookups in gonum graphs", "pkg/graph/memory/wg.go")],
  "path-sensitive typestate of assertions and maybe-nil results, with an invariant on the types of the members of the graph",
  "That the members of a graph are nodes and edges of the module is shown for every insertion into the gonum graph; users who write into the embedded gonum graph themselves are outside.")

P("C34", "The DOT form shows the graph",
  "The DOT form of a graph is named by the DOT ID of the graph, is directed exactly when the graph is, shows every node and edge of the graph with their DOT attributes, and has the graph, node and edge attributes given as DOT options, none when none were given. "
  "A failed encoding is reported.",
  ["inputs", "faults"], "every graph of each kind, with and without DOT options",
  "Tests check that the result is not empty.",
  ["pkg/graph/memory/wg.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go", "pkg/graph/options.go"],
  [("WG.DOT", "pkg/graph/memory/wg.go"), ("DOTAttributers", "pkg/graph/memory/wg.go")],
  DATAFLOW + " into the DOT encoder, whose queries are evaluated on the value it is given",
  "The encoder of gonum is trusted to write what its queries return.")

P("C36", "Messages of a topic are received in the order they were published",
  "Messages which are published to a topic one after another are received in that order, whatever other calls do in between: a publish puts its message into the one queue of the topic before it returns, nothing else puts a message in or back, "
  "and a receive hands the message it takes to its handler itself, before it returns.",
  ["schedules", "histories"], "every interleaving of publishers, receivers and other calls, any failing handler",
  "Tests publish and receive a few messages from one goroutine each; messages overtake each other only in particular interleavings or after a failure.",
  BROKER + ["pkg/broker/ingester/simple/ingester.go", "pkg/broker/digester/simple/digester.go"],
  [("queue", "pkg/broker/memory/memory.go"), ("Subscriber.Receive", "pkg/broker/memory/subscriber.go")],
  "effect analysis: who sends on and receives from message channels and who calls handlers, on every path of every operation and goroutine",
  "A Go channel is first in first out. Receivers on the same topic compete, each gets a part of the messages in order.")

P("C37", "New UIDs are unique",
  "No two UIDs the module makes are the same.", ["histories"], "all calls of uuid/memory.New and all new subscriptions, nodes and messages",
  "A collision cannot be provoked by a test.", ["pkg/uuid/memory/default.go"], [("New", "pkg/uuid/memory/default.go")], "", "")
NA["C37"] = "it rests on the random numbers google/uuid draws at run time; that a fresh UID is drawn for each subscription, node and message is part of C05, C20 and C25"

P("C38", "The DOT form can be read back",
  "The DOT form of any graph is a document which a DOT parser accepts and which yields the same IDs and attributes.", ["inputs"], "every ID and attribute text",
  "Tests use plain words.", ["pkg/graph/memory/wg.go"], [("WG.DOT", "pkg/graph/memory/wg.go")], "", "")
NA["C38"] = "quoting is decided inside the DOT encoder of gonum by the runtime content of IDs and attributes, which are written as they are given; no static argument over this module bounds those strings"

P("C39", "Waits end in time",
  "A wait with a timeout ends not much later than the timeout.", ["schedules"], "every load of the machine",
  "Depends on load.", ["pkg/broker/memory/memory.go", "pkg/broker/memory/subscriber.go"], [("time.After", "pkg/broker/memory")], "", "")
NA["C39"] = "it is about elapsed wall clock time under a scheduler; that each wait has a timer of the right duration is C08"

P("C40", "Causes of failure and kinds of messages can be told apart",
  "A caller can tell every failure and every kind of message the module names from every other: each exported error variable is set exactly once, when its package is initialised, to a non-nil value of its own which neither is, nor wraps, the value of an error with another name, "
  "the texts of the errors of one package differ, and nothing changes an error afterwards; the kinds of broker messages have pairwise different values, and the text of a kind is its name, that of any other value Unknown.",
  ["inputs", "histories"], "every pair of exported errors, every value of the message type",
  "Tests compare an error with the variable the code itself returns, which holds even when two variables are the same error; the text is compared for the values which exist.",
  ["pkg/broker/errors.go", "pkg/broker/type.go", "pkg/graph/errors.go", "pkg/store/errors.go", "pkg/cache/errors.go", "pkg/plan/errors.go", "pkg/space/errors.go", "pkg/space/marshal/errors.go", "errors.go"],
  [("Err", "errors.go"), ("Type.String", "pkg/broker/type.go")],
  "dataflow over the package initialisers (what each error variable is set to, and that nothing else stores to it) and abstract interpretation of Type.String for each kind and for values beyond them",
  "That each failure reports the right one of these errors is part of the properties of the operations.")

P("C41", "Operations leave what they are given as it is",
  "No operation changes what its caller passes to it: after any exported function or method returns, the slices, maps, attributes, messages and values given as arguments (other than the receiver and a target made to be filled in, such as that of Unmarshal or the options an option is applied to) have the elements, entries and content they had before, in the same order. "
  "This includes lists of options, of UIDs, of entities and of links given to bulk operations. Attributes of an entity, link, node or edge which exists already are set by nothing but the Set of the attributes themselves.",
  ["inputs", "histories"], "every argument of every exported function and method, all paths",
  "Tests throw their arguments away after the call; a caller which uses a list of UIDs or options twice sees the change.",
  ["pkg/cache/memory/links.go", "pkg/store/memory/store.go", "pkg/attrs/memory/memory.go", "pkg/space/marshal/marshal.go", "pkg/broker/memory/memory.go", "pkg/graph/memory/wg.go", "runner.go"],
  [("Links.BulkPut", "pkg/cache/memory/links.go"), ("Memory.BulkAdd", "pkg/store/memory/store.go"), ("NewFromMap", "pkg/attrs/memory/memory.go")],
  "effect analysis: on every path of every exported function the roots of all stores, map writes, copies, sorts, in-place appends and attribute writes are compared with the parameters",
  "What an object is built to keep (attributes, nodes) it shares with its caller as before; it does not change it on the way in.")
