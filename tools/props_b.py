P("C15", "Store operations act on exactly the entity or link they name",
  "Adding an entity stores it with the attributes of the options, else its own, and an entity already there is an ErrAlreadyExists unless upsert was "
  "asked for; Get returns what was stored under the UID; linking an entity that is not there, or getting it, is an ErrEntityNotFound; deleting or unlinking what is "
  "not there succeeds. Any other error is reported, and no operation touches an entity or link it was not given or loses the options of the call.",
  ["histories", "inputs"], "every store content, entity, UID, and combination of options",
  "Tests store a few entities with fixed options and look at the error only; lost attributes and misreported errors show only when they are read back.",
  STORE + ["pkg/graph/memory/wg.go"], [("Memory.Add, Get, Link, Delete, Unlink", "pkg/store/memory/store.go")],
  DATAFLOW + ", matching store operations to graph operations",
  "Every path of every operation is matched with the graph operations it does, their arguments, and what becomes of their errors; what the graph does with them is C17, C18, C20 and C21.")

P("C16", "Bulk operations of the store equal their items",
  "A bulk add, link, unlink or delete of the store has the effect of the single operation with the same options applied to each item in the given order, stopping at "
  "the first item that fails and reporting its error. A bulk get returns the entities of the given UIDs, one for each and in the same order, or the error of the first that fails; an empty bulk succeeds.",
  ["inputs", "histories"], "every number of items, repeated and missing items, failing items at every position",
  "Tests pass one or two items that succeed; order, the stop at a failure and the length of the result need more of them.",
  STORE, [("Memory.BulkAdd, BulkGet, BulkDelete, BulkLink, BulkUnlink", "pkg/store/memory/store.go")],
  DATAFLOW + " with loop summaries over the items",
  "Each bulk operation is shown to be one complete loop whose iterations satisfy the rules of the single operation and which is left early only with the item's error.")
