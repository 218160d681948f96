P("C26", "The wire form of entities and links loses nothing",
  "Converting an entity, resource, object or link to its wire form and back yields one with the same UID text, type, names, flags, linked ends and attributes, and for an object the same resource or none; "
  "the wire form keeps every field in JSON. A failure to read the attributes is reported and nothing is returned.",
  ["inputs", "faults"], "every value of every field, any attributes, objects with and without resource, attributes which cannot be read",
  "Tests convert one value with distinct fields and compare a few of them in one direction; a swapped or lost field of the way back shows only when all are compared after both.",
  ["pkg/space/marshal/marshal.go", "pkg/space/marshal/types.go", "pkg/space/entity/entity.go", "pkg/space/entity/resource.go", "pkg/space/entity/object.go", "pkg/space/link/link.go"],
  [("EntityFromSpace/EntityToSpace and their siblings", "pkg/space/marshal/marshal.go"), ("the JSON tags of the wire types", "pkg/space/marshal/types.go")],
  DATAFLOW + " through the composition of both conversions, and the field rules of encoding/json",
  "Every ToSpace function is run symbolically on the result of every path of its FromSpace function and each accessor of the result is compared with that of the original; attributes are matched by the rules of C28.")

P("C27", "What the JSON marshaler encodes it decodes again",
  "Marshalling an entity, resource, object or link and unmarshalling the bytes into a variable of that kind yields the value with the same UID text, fields, ends and attributes; the most specific kind is chosen. "
  "Any other value, and any other variable, is an ErrUnsuportedType, and malformed data is an error which leaves the variable alone. A failure to read or to encode the value is reported.",
  ["inputs", "faults"], "every value of every kind, every other value, malformed data, attributes which cannot be read",
  "Tests marshal one value per kind and unmarshal fixtures; that each field survives both directions, and what errors do to the variable, they do not see.",
  ["pkg/space/marshal/json/json.go", "pkg/space/marshal/marshal.go", "pkg/space/marshal/types.go"],
  [("Marshaler.Marshal, Unmarshal", "pkg/space/marshal/json/json.go")],
  DATAFLOW + ", with encoding/json modelled on the struct types and tags",
  "What encoding/json does is modelled: a field of a type it can represent decodes to what was encoded under the same name. Strings which are not UTF-8 do not survive encoding/json and are outside of it.")

P("C29", "Every implementation implements the interfaces it is there for",
  "The types of the module can be used as what they are made for: the memory implementations as broker, subscriber, cache, graph, node, edge and store, the simple ones as plan, ingester and digester, "
  "entities, resources, objects and links as those of the space and of what stores and plans them, and the JSON marshaler as marshaler and unmarshaler.",
  ["inputs"], "every listed pair of type and interface",
  "Tests call the methods of the concrete types; that a signature no longer fits an interface nobody assigns to shows only in a user's build.",
  ["pkg/broker/broker.go", "pkg/cache/cache.go", "pkg/graph/graph.go", "pkg/store/store.go", "pkg/space/space.go", "pkg/plan/plan.go", "pkg/attrs/attrs.go"],
  [("method sets of the exported types", "pkg/*/memory, pkg/*/simple, pkg/space/*")],
  "method set comparison in the type-checked program",
  "It compares signatures only. The memory store does not implement the store interfaces (known findings).")
