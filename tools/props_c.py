PIPE = ["runner.go", "options.go", "scraper.go", "pkg/broker/ingester/simple/ingester.go", "pkg/broker/digester/simple/digester.go",
        "pkg/broker/handlers/handlers.go"]

P("C22", "Every option sets its own setting and no other",
  "An option made by any exported With function of the module sets exactly the one setting it is named after, to the value it was given (or to true when it takes none), "
  "whatever the options contained before, and each time it is applied. It changes nothing else: no other setting, no option value it was given, and no state outside of the options.",
  ["inputs"], "every option of every package, every value, every content of the options it is applied to",
  "Most options are never applied in a test, and those which are are applied to empty options where a second write does not show.",
  ["options.go", "pkg/broker/options.go", "pkg/cache/options.go", "pkg/graph/options.go", "pkg/store/options.go", "pkg/space/link/options.go",
   "pkg/space/entity/options.go", "pkg/broker/ingester/options.go", "pkg/broker/digester/options.go"],
  [("the With functions of every options.go", "pkg/*/options.go")],
  DATAFLOW + " of every option applied to options of any content",
  "The exported functions which return an option are enumerated from the type-checked program; the returned function is applied to a symbolic struct and all of its fields are compared.")

P("C23", "Values return what they were made with",
  "The accessors of an entity, object, resource, link, node, edge, graph, store and UID return what the value was constructed with: the arguments, the options which were given, and "
  "else the documented default - a new unique UID, new empty attributes, a DOT ID derived from the value (for an edge a DOT ID option is also its UID). "
  "Setting the DOT ID changes only the DOT ID, reversing an edge gives a new edge with only the ends swapped, and neither constructing nor reading changes anything else.",
  ["inputs"], "every constructor, every argument, every combination of options",
  "Tests construct values with one or two combinations of options and read some of the accessors; swapped or ignored fields of equal type show only in the others.",
  ["pkg/space/entity/entity.go", "pkg/space/entity/object.go", "pkg/space/entity/resource.go", "pkg/space/link/link.go", "pkg/graph/memory/node.go",
   "pkg/graph/memory/edge.go", "pkg/graph/memory/wg.go", "pkg/store/memory/store.go", "pkg/uuid/memory/default.go"],
  [("New, NewResource, NewObject and their accessors", "pkg/space/entity"), ("NewNode, NewEdge, Edge.ReversedEdge", "pkg/graph/memory")],
  DATAFLOW + ", composing each constructor with each accessor",
  "Every accessor is analysed on the result of every path of its constructor, and the term it returns is compared with the argument, option or default it has to be.")

P("C24", "Options of a constructor are defaults which the options of a call override",
  "The marshaler of an ingester, the handler of a digester and the store, broker and marshaler of a runner are the ones given to the call, else the ones given to the constructor, else the "
  "documented default (JSON, and copying the payload to standard output). The options of a call are for that call only: they do not change what later calls use.",
  ["histories", "inputs"], "every combination of options of the constructor and of the call, every sequence of calls",
  "The ingester, digester and runner have no tests of their options; a setting kept from one call shows only in the next one.",
  PIPE, [("Ingester.Ingest", PIPE[3]), ("Digester.Digest", PIPE[4]), ("Runner.Run", PIPE[0])],
  DATAFLOW + ", composing each constructor with each operation",
  "Each operation is analysed on the result of each path of its constructor; the term of the setting it uses must be the options of the call folded over those of the constructor.")

P("C25", "The pipelines hand on what they are given and report every failure",
  "Ingest marshals the data once and publishes exactly one message with the payload, the given type and a new unique ID on the given topic, or publishes nothing and returns the marshaling error; its result is that of publishing. "
  "Digest receives with the given context from the given subscription until receiving fails, and returns that failure; the default handler writes the whole payload to standard output and reports when it can not. "
  "Run without a plan is an ErrMissingPlan and scrapes nothing, otherwise it scrapes the plan once and returns the result.",
  ["inputs", "histories", "faults"], "every data, marshaler, broker, subscriber and scraper, failing at any call",
  "No test runs the ingester, the digester or the runner against a marshaler, broker, subscriber or scraper which fails.",
  PIPE, [("Ingester.Ingest", PIPE[3]), ("Digester.Digest", PIPE[4]), ("DumpData", PIPE[5]), ("Runner.Run", PIPE[0])],
  DATAFLOW + ", matching the calls of the collaborators and their results",
  "On every path the calls of the marshaler, broker, subscriber, scraper and output are enumerated with their arguments, and what is known about their errors is compared with what is returned.")

P("C28", "Attributes are stored, listed and copied completely",
  "Setting an attribute stores the value under its key and changes no other; reading one returns the value stored under the key and the list of keys has every key once. "
  "Copying attributes, from attributes or from a map or to a map, yields a new container with exactly the attributes of the source, leaves the source alone, shares nothing with it and fails when reading the source fails; a copy of a missing source is a new empty container. "
  "The DOT attributes of a value are exactly its attributes.",
  ["inputs", "faults"], "every number of attributes, every key and value, sources which fail at any read",
  "Tests copy one or two attributes from a source which never fails; aliasing and partial copies show only when a copy is changed or a read fails.",
  ["pkg/attrs/attrs.go", "pkg/attrs/memory/memory.go", "pkg/attrs/memory/dot.go"],
  [("Attrs.Set, Get, Keys, Attributes; NewCopyFrom, NewFromMap; ToMap; DOTAttrs", "pkg/attrs")],
  DATAFLOW + " with loop summaries over the keys",
  "Each path is matched with one complete loop over all keys of the source and one write per key.")

P("C31", "The plan is the set of the added and not deleted resources",
  "Adding a resource to a plan stores it under its UID, replacing the one with that UID; Get returns the stored resource or ErrResourceNotFound, GetAll returns every stored resource once, "
  "and Delete removes the one with the UID. No operation changes the entry of any other UID, and a new plan is empty.",
  ["histories", "inputs"], "every content of the plan, every UID (equal UIDs of different values are the same)",
  "Tests add one resource and read it back; a key which is not the UID or an incomplete list shows only with several resources.",
  ["pkg/plan/plan.go", "pkg/plan/simple/simple.go"], [("Simple.Add, Get, GetAll, Delete", "pkg/plan/simple/simple.go")],
  DATAFLOW + ", matching the index entries read and written",
  "Each path of each operation is matched with the one index entry it may read or write and with the returned values.")

P("C35", "Every option has an effect",
  "Every setting which an exported option can set is used by an operation of the module it is an option of, and an operation uses the settings which are meant for it (the timeout of a broker call, upsert and attributes of an add, the values a constructor sets) of the options it is given: an option that a user gives is not silently ignored.",
  ["inputs"], "every option of every package",
  "Tests pass options and check that no error is returned; that the setting is ignored has no visible effect in them.",
  ["options.go", "pkg/broker/options.go", "pkg/graph/options.go", "pkg/store/options.go", "pkg/space/link/options.go"],
  [("the With functions of every options.go", "pkg/*/options.go")],
  "field liveness over SSA of the whole module",
  "It shows that something reads the field an option sets and, for the operations listed in usedBy (spec_options.go), that an effect, result or decision of the operation depends on it, not that the use is right: that is C04-C10, C15-C18, C23 and C24 for the options those name. Six options of the repository are read by nothing (known findings).")
