"""The properties, from which gen.py writes properties.jsonl and MANIFEST.json."""

BROKER = ["pkg/broker/broker.go", "pkg/broker/options.go", "pkg/broker/memory/memory.go", "pkg/broker/memory/subscriber.go"]
CACHE = ["pkg/cache/cache.go", "pkg/cache/options.go", "pkg/cache/memory/links.go"]
GRAPH = ["pkg/graph/graph.go", "pkg/graph/options.go", "pkg/graph/memory/wg.go", "pkg/graph/memory/wug.go", "pkg/graph/memory/wdg.go",
         "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"]
STORE = ["pkg/store/store.go", "pkg/store/options.go", "pkg/store/memory/store.go"]

DATAFLOW = "path-sensitive dataflow over SSA (value-numbered paths, lock epochs, loop summaries)"
PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        technique=technique, note=note))


def load():
    import os, glob
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
        exec(compile(open(f).read(), f, "exec"), globals())
    PROPS.sort(key=lambda p: p["id"])


load()
