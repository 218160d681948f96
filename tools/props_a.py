P("C01", "Shared state is free of data races",
  "Any two calls on the same broker, broker subscription, links cache, plan, graph or store from different goroutines, and any call and a "
  "goroutine those calls started, never access the same mutable state without one of them ordering the other when at least one access is a write. "
  "That holds as well for state which several such objects share (package level variables), and for the values they hand out or store "
  "(nodes, edges, entities, subscriptions): an operation of one of these objects does not change a value which somebody may already be reading.",
  ["schedules", "programs"], "every interleaving of every combination of exported methods and constructors, with goroutines the code starts itself",
  "The tests are single threaded almost everywhere and are not run with the race detector; a race needs two particular calls to overlap.",
  BROKER + CACHE + GRAPH + STORE + ["pkg/plan/simple/simple.go"],
  [("Memory.RWMutex", "pkg/broker/memory/memory.go"), ("Links.mu", "pkg/cache/memory/links.go"), ("WG.mu", "pkg/graph/memory/wg.go"),
   ("Memory.mu", "pkg/store/memory/store.go")],
  "lockset analysis over SSA paths of all exported functions and goroutines",
  "Decides, for every exported function and every goroutine they start, that an access to mutable state of an object which owns a mutex happens "
  "with that mutex held (for writing when it writes); accesses to objects not yet published are exempt. State reached through values the "
  "user keeps (the map a getter returned, the Attrs of an entity) is the subject of other properties.")

P("C02", "Locks are released, never deadlock and are never held while blocking",
  "Every exported call releases each lock it took on every way out, including error returns; never takes a lock it already holds; and no two "
  "calls can take two locks in opposite orders. No call blocks on a channel, waits for a timer or runs a user supplied callback (message "
  "handler, context function) while it holds a lock, so a slow handler or a full queue never stops other users of the same object; nor does a call "
  "go round a loop forever without changing anything.",
  ["schedules", "programs", "inputs"], "every path of every exported function and goroutine, every interleaving of calls",
  "A leaked lock or a wait under a lock shows only after the one path that leaks it, and then as a hang; tests take few error paths and no concurrent ones.",
  BROKER + CACHE + GRAPH + STORE + ["pkg/plan/simple/simple.go"],
  [("sync.RWMutex use", "pkg/broker/memory/memory.go"), ("Subscriber.Receive unlocks before the handler", "pkg/broker/memory/subscriber.go")],
  "lock typestate and lock-order analysis over SSA paths",
  "Each path of each exported function and goroutine is walked with the set of held locks; release on return, double lock, unlock of an unheld lock, "
  "lock-order cycles, and blocking operations or dynamic calls to user functions under a lock are decided.")

P("C03", "Check and act happen in one critical section",
  "When a call changes a broker, cache, plan, graph or store because of something it read there (whether the broker is open, a topic exists, an ID "
  "is free, a node is present), nothing another goroutine does in between can have made that untrue, and a query answers from the state at one moment: "
  "every call takes effect as if at one instant.",
  ["schedules"], "every interleaving of two or more calls on the same object",
  "A check-then-act window is open for nanoseconds in a test; only a schedule that lands in it shows the lost update.",
  BROKER + CACHE + GRAPH + STORE + ["pkg/plan/simple/simple.go"],
  [("Pub/Sub test the session and use the topic under one lock", "pkg/broker/memory/memory.go"), ("Link, RemoveNode and Unlink", "pkg/graph/memory/wg.go")],
  "atomicity analysis: value numbering with one version of guarded state per critical section",
  "Writes to guarded state whose condition or value stems from an earlier critical section are reported unless the condition is tested again in the "
  "section of the write. Iterating over a snapshot while calling user handlers is not a write and is not restricted.")

P("C04", "Publishing succeeds exactly when the message was enqueued",
  "A publish returns success exactly when the given message, unchanged, was put once into the queue of the given topic and of no other topic. On "
  "every failure nothing was enqueued and the error tells the cause: the broker is not connected, the caller's context ended (its error is "
  "matched by errors.Is), or the publish timed out because the queue stayed full (ErrTimeout).",
  ["schedules", "inputs", "configurations"], "every topic, message, option, context state and interleaving with Open, Close, Sub, Unsubscribe and receivers",
  "Tests publish to an open broker with free capacity; the losing branches (a full queue with context and timer ready, Close in between) depend on the schedule.",
  BROKER, [("Memory.Pub", "pkg/broker/memory/memory.go")],
  DATAFLOW + ", matching channel operations to results",
  "Every path of Pub is enumerated (helpers inlined) and the sends that take place are matched with the result and the select case that ended the wait.")

P("C05", "Topics are isolated and live as long as the broker session",
  "Every publisher and subscriber of a topic of an open broker uses the same queue from the first use of the topic until the broker is closed, and no "
  "operation on one topic creates, replaces, removes or reads the queue of another. A subscription has a fresh unique ID and the topic it was asked "
  "for, receives from that topic's queue only, and is added without removing any other subscription; queues have the capacity configured for the broker, and the default one if that is negative.",
  ["histories", "schedules", "inputs"], "every sequence of Open, Pub, Sub, Unsubscribe and Close over any topic names and options",
  "Tests use one or two topics and one subscriber at a time; losing messages by replacing a topic needs a history such as subscribe, unsubscribe, publish, subscribe.",
  BROKER, [("Memory.topics", "pkg/broker/memory/memory.go"), ("Memory.Sub", "pkg/broker/memory/memory.go")],
  DATAFLOW + " over all writes to the topic table",
  "Every write to the table of topics in the package and every use of a message channel is shown to belong to the topic of the operation.")

P("C06", "Receiving hands each message to the handler exactly once",
  "A Receive call takes at most one message from its topic and calls its handler with it, unchanged and with the context of the call, exactly once; it returns what "
  "the handler returned, so success means that a message was handled. When it handles none it fails with an error that tells the cause: the "
  "caller's context ended (its error), the receive timed out (ErrTimeout; one waiting message may then be dropped), or the subscription or the broker session has ended (ErrSubscriptionInactive).",
  ["histories", "schedules", "inputs"], "every sequence of messages, handler results and interleavings with Unsubscribe, Close and context cancellation",
  "Tests receive one message with a handler that succeeds; duplicates, drops and swallowed errors appear only with more messages or failing handlers.",
  BROKER, [("Subscriber.Receive", "pkg/broker/memory/subscriber.go")],
  DATAFLOW + ", matching receives to handler calls",
  "Covers the hand-over in Receive. A message dropped because its receive timeout ran out while the handler was still busy is documented behaviour of the package and not restricted.")

P("C07", "Broker sessions open and close completely and independently",
  "After a successful Open the broker is connected until it is closed or the context given to that Open ends; opening an open broker succeeds and "
  "changes nothing; publishing, subscribing, receiving and unsubscribing neither begin nor end a session. Close (and the end of the context) ends the session completely: the broker is disconnected, its topics with their queued messages and "
  "all its subscriptions are gone, and closing again succeeds and changes nothing; the end of the context of an earlier session never affects a later session.",
  ["histories", "schedules"], "every history of Open, Close and context cancellation, any number of sessions and subscribers",
  "Tests open and close once; state left over from a previous session needs reopen histories and a context that ends late.",
  BROKER, [("Memory.Open", "pkg/broker/memory/memory.go"), ("Memory.run", "pkg/broker/memory/memory.go"), ("Memory.Close", "pkg/broker/memory/memory.go")],
  DATAFLOW + " with typestate of the session",
  "Every path of Open, Close and of the goroutine Open starts is matched against the session's life cycle.")

P("C08", "Every wait in the broker is bounded",
  "Every blocking wait of a publish or receive ends when the caller's context ends, its timeout elapses, and for receives also when the subscription "
  "or the broker session ends. The timeout is the one given to the call, else the "
  "one the subscription was created with, else the broker's, else a positive default, and an ended context is reported as the context's error.",
  ["schedules", "configurations"], "every blocking operation on every path, every combination of timeouts, every schedule",
  "A missing case in a select never fails a test that does not wait on it, it hangs a production system.",
  BROKER, [("Subscriber.Receive select", "pkg/broker/memory/subscriber.go"), ("Memory.Pub select", "pkg/broker/memory/memory.go")],
  "enumeration of blocking operations with the cases that end them, dataflow of timeouts to timers",
  "Decides that each blocking channel operation of the package and of its goroutines is a select with the required exits and that timers get the right duration; "
  "that a ready case is eventually chosen is the runtime's.")

P("C09", "No channel of the broker is closed twice or sent on after it is closed",
  "No sequence or interleaving of Open, Close, Pub, Sub, Receive and Unsubscribe, repeated or concurrent, makes the broker panic by closing a channel "
  "twice, closing a nil channel or sending on a closed channel; a second Unsubscribe or Close is harmless.",
  ["schedules", "histories"], "every interleaving and repetition of broker and subscription operations",
  "The panic needs a second close or a concurrent one at the right time; tests call each operation once and in order.",
  BROKER, [("Subscriber.active", "pkg/broker/memory/subscriber.go"), ("Memory.Close", "pkg/broker/memory/memory.go")],
  "typestate of channels over SSA paths with lock epochs",
  "Every close is shown to happen under the write lock and once per channel; no channel that is closed anywhere is a target of a send.")

P("C10", "Unsubscribing ends exactly one subscription",
  "Unsubscribe makes the subscription inactive for good, wakes its pending and refuses its future receives, and removes this subscription and no "
  "other from the broker, leaving the topic and the other subscribers of the same topic as they were. It succeeds without waiting whatever the state of the broker, "
  "and unsubscribing twice has the effect of unsubscribing once. A subscription lasts until it or the session is ended: publishing and receiving do not end it.",
  ["schedules", "histories"], "every set of subscriptions and every interleaving of Unsubscribe with Pub, Sub, Receive, Close and itself",
  "Tests have a single subscription; removing too much or too little needs several on one topic.",
  BROKER, [("Subscriber.Unsubscribe", "pkg/broker/memory/subscriber.go"), ("Memory.run", "pkg/broker/memory/memory.go")],
  DATAFLOW + " of Unsubscribe and the session's goroutine",
  "Every path of Unsubscribe, of goroutines it starts, and every iteration of the session's goroutine is matched against the permitted effects.")

P("C11", "A link put into the cache is found from both of its ends",
  "After a link is put into the links cache it is returned both by looking up its source and by looking up its target, and every other cached link "
  "stays. When a link between the same two ends is there already, put leaves it as it is and succeeds, unless upsert was asked for, which replaces it in both lookups. A lookup returns "
  "exactly the cached links from (or to) that UID, compared by its text, each once; for a UID without links an empty result and no error.",
  ["histories", "inputs"], "every history of Put, Delete and Clear over any links and UIDs, and UIDs which are different values of the same text",
  "Tests put one link per UID; the second link of the same source, and UIDs of different dynamic type, are where the two views diverge.",
  CACHE, [("Links.Put", "pkg/cache/memory/links.go"), ("Links.GetFrom/GetTo", "pkg/cache/memory/links.go")],
  DATAFLOW + " matching index writes",
  "The writes of every path to the two indexes are matched against required and permitted sets; the induction over histories is by the invariant that both indexes hold the same links.")

P("C12", "Deleting from the links cache removes exactly the links of a UID",
  "Delete of a UID removes from both lookups every link which has that UID as source or target and no other link; Clear removes every link. Both "
  "succeed also when there is nothing to remove.",
  ["histories", "inputs"], "every content of the cache and every UID, including links between a node and itself and nodes with many links",
  "Tests delete a UID with one link and look at one view.",
  CACHE, [("Links.Delete", "pkg/cache/memory/links.go"), ("Links.Clear", "pkg/cache/memory/links.go")],
  DATAFLOW + " matching index writes", "As for C11: required and permitted index writes on every path, with complete loops over the affected links.")

P("C14", "Bulk operations of the links cache equal their items",
  "A bulk put or delete on the links cache has the effect of the single operation, with the same options, applied to each of its items in order, and a bulk lookup returns for "
  "every given UID which has links exactly the links the single lookup returns, under that UID. No item is skipped or done twice, nothing else in the cache "
  "changes, and an empty bulk does nothing and succeeds.",
  ["inputs", "histories"], "every number of items, repeated items, options and cache contents",
  "Tests pass one or two distinct items; skipped items need more, repeated or linked ones.",
  CACHE, [("BulkPut, BulkDelete, BulkGetFrom, BulkGetTo", "pkg/cache/memory/links.go")],
  DATAFLOW + " with loop summaries over the items",
  "Each bulk operation is shown to be one complete loop over its items, whose iterations satisfy the rules of the single operation.")

P("C17", "Graph nodes are added, replaced and identified by UID",
  "Adding a node puts it and nothing else into the graph; adding a node whose UID is already there fails with the duplicate error and changes "
  "nothing, unless upsert was asked for: then the new node takes the old one's place and keeps its edges. A node created for an entity carries this "
  "entity and the given attributes and DOT ID, and an ID which no node of the graph has and no earlier created node was given.",
  ["histories", "inputs"], "every graph content and every sequence of NewNode, AddNode, Link and RemoveNode",
  "Tests add a few nodes to an empty graph; ID reuse and lost edges need removals, gaps and upserts of linked nodes.",
  GRAPH, [("WG.NewNode", "pkg/graph/memory/wg.go"), ("WG.AddNode", "pkg/graph/memory/wg.go")],
  DATAFLOW + " against a model of gonum's weighted graph",
  "Every path is matched against permitted writes to the UID index and the gonum graph; gonum's own methods are modelled from their documentation and source.")

P("C18", "Linking joins two nodes of the graph by one edge with the given weight",
  "Link of two different present nodes makes one edge between exactly these, in the given direction where the graph is directed, with the given weight, UID, DOT ID and "
  "attributes; the same link again returns the existing edge; Link with an absent node or of a node with itself fails and changes nothing. Edge returns exactly the edge of two "
  "nodes, or the error that tells whether a node or the edge is missing; Unlink removes that edge and nothing else, and succeeds when there is none.",
  ["histories", "inputs"], "every graph, pair of UIDs (also equal ones, absent ones), weight and attributes, for directed and undirected graphs",
  "Tests link a few pairs in a fresh graph; argument order, absent nodes and repeated links are combinations they do not reach.",
  GRAPH, [("WG.Link", "pkg/graph/memory/wg.go"), ("WG.Edge", "pkg/graph/memory/wg.go"), ("WG.Unlink", "pkg/graph/memory/wg.go")],
  DATAFLOW + " against a model of gonum's weighted graph", "Every path's results and graph writes are matched against the permitted ones.")

P("C19", "A subgraph is a bounded copy with its own edges",
  "The subgraph of a node and a depth contains exactly the nodes a breadth first walk from it reaches within that depth, and all edges among them, with "
  "the weights they have in the graph and copies of their attributes. It shares no edge with the graph: changing either later does not change the "
  "other; a missing root is reported and the graph itself never changes.",
  ["inputs", "histories"], "every graph, root and depth (0, the diameter and beyond), cycles and several edges per node",
  "Tests take one small tree; the depth boundary and shared attribute maps need other shapes and later writes.",
  GRAPH, [("WG.SubGraph", "pkg/graph/memory/wg.go")], DATAFLOW + " over the walk's callbacks",
  "Decides that the walk is gonum's breadth first walk with the right stop condition and that each visited node and each edge among visited nodes is copied; "
  "that gonum's walk visits nodes in order of depth is trusted. Nodes are shared by design.")

P("C20", "The graph's nodes and its UID index never disagree",
  "After any sequence of operations a node can be looked up by UID exactly when it is one of the graph's nodes, and each edge joins two present nodes. Removing a "
  "node removes it with its edges and nothing else; removing a UID which is not there succeeds and changes nothing.",
  ["histories"], "every history of the exported graph operations",
  "Each test checks one operation on a fresh graph; a stale index entry shows only when a later operation uses it.",
  GRAPH, [("WG.nodes", "pkg/graph/memory/wg.go"), ("WG.RemoveNode", "pkg/graph/memory/wg.go")],
  "inductive invariant over all exported methods by " + DATAFLOW,
  "Every exported function of the package that writes the index or the gonum graph is found and its writes are matched in pairs. Users calling the embedded gonum builder directly bypass it.")

P("C21", "Graph queries return exactly the members asked for",
  "Looking up a node returns the node added under that UID or the not-found error; listing nodes or edges returns every node or edge of the graph once and "
  "nothing else; listing the neighbours of a node returns exactly the nodes its edges lead to.",
  ["inputs", "histories"], "every graph content, including empty graphs and nodes without edges",
  "Tests compare the count of a small fixed graph.",
  GRAPH, [("WG.Node, Nodes, Edges, From", "pkg/graph/memory/wg.go")], DATAFLOW + " with loop summaries",
  "Each query is shown to be one complete loop over the graph's members that keeps each of them once.")
