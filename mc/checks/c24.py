"""C24  The flow space contains every graph exactly once and marks exactly those with flow."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C24"
ASSUMPTIONS = ["flow means causal flow, the flow an MBQC circuit has; nodes are 0..n-1"]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"every choice of ordered inputs and outputs of equal size on n<=4 nodes (all 2^(n(n-1)/2) graphs of each space), {'every unordered choice' if t else 'four choices'} on n=5 (1024 graphs each); "
            "for n<=3 the circuit given has a path, no edges, or fixed measurements and a measured output; nodes, labels, circuits, every pair of nodes for the edges; refusal of more than 7 nodes")


def shards(tier):
    out = []
    for n in (1, 2, 3, 4):
        for r in range(1, n + 1):
            for i in itertools.permutations(range(n), r):
                for o in itertools.permutations(range(n), r):
                    if n == 4 and r > 2 and (i != tuple(sorted(i)) and tier != "thorough"):
                        continue
                    if n == 4 and r > 1 and tier != "thorough" and (i[0] > i[1]):
                        continue
                    out.append((n, i, o))
    five = [((0,), (4,)), ((0, 1), (4, 3)), ((2,), (2,)), ((1, 0, 4), (2, 3, 0))]
    if tier == "thorough":
        five = [(i, o) for r in (1, 2, 3) for i in itertools.combinations(range(5), r) for o in itertools.combinations(range(5), r)]
    out += [(5, i, o) for i, o in five]
    # a shard is a bundle of spaces
    big = [[s] for s in out if s[0] == 5]
    small = [s for s in out if s[0] < 5]
    return big + [small[k::48] for k in range(48)] + [["limit"]]


def explore(shard, rec):
    for s in shard:
        if s == "limit":
            limit(rec)
        else:
            for variant in ("path", "empty", "measured") if s[0] < 4 else ("path",):
                space(rec, *s, variant)


def space(rec, n, i, o, variant="path"):
    case = {"n": n, "inputs": list(i), "outputs": list(o), "circuit": variant}
    with rec.case(case, limit=300):
        e0 = tuple((v, v + 1) for v in range(n - 1)) if variant != "empty" else ()
        c = lib.circuit(n, e0, i, o)
        if variant == "measured":  # fixed angles, a measured output
            c = lib.circuit(n, e0, i, o, measurements={v: mp.Ment("X") if v % 2 else mp.Ment(0.3) for v in range(n) if v not in o or v == o[-1]})
        before = lib.view_of(c)
        fs = quiet(mp.utils.FlowSpace, c)
        rec.op()
        ps = ref.pairs(n)
        total = fs.total_graph_space
        if fs.number_nodes != n or list(fs.input_nodes) != list(i) or list(fs.output_nodes) != list(o):
            rec.bad(case, "the space describes other nodes")
        graphs = {}
        for v, data in total.nodes(data=True):
            g = data["mbqc_circuit"]
            key = frozenset(tuple(sorted(e)) for e in g.graph.edges())
            rec.state((n, i, o, tuple(sorted(key))))
            rec.op()
            if key in graphs.values() or set(g.graph.nodes()) != set(range(n)):
                rec.bad({**case, "edges": sorted(map(list, key))}, "a graph appears twice or has other nodes")
            graphs[v] = key
            if list(g.input_nodes) != list(i) or list(g.output_nodes) != list(o):
                rec.bad({**case, "edges": sorted(map(list, key))}, "the circuit of this graph has other inputs or outputs")
            want = ref.has_causal_flow(n, tuple(sorted(key)), i, o)
            if bool(data["flow"]) != want or (v in fs.flow_graph_space) != want or (v in fs.no_flow_graph_space) == want:
                rec.bad({**case, "edges": sorted(map(list, key))}, f"marked as {'with' if data['flow'] else 'without'} flow, it is {'with' if want else 'without'}")
            rec.outcome(want)
        if len(graphs) != 2 ** len(ps):
            rec.bad(case, f"{len(graphs)} graphs, should be {2 ** len(ps)}")
        for what, g in (("space", total), ("graphs with flow", fs.flow_graph_space), ("graphs without flow", fs.no_flow_graph_space)):
            keys = {v: graphs[v] for v in g.nodes()}
            inv = {k: v for v, k in keys.items()}
            want = {frozenset((v, inv[k ^ {p}])) for v, k in keys.items() for p in ps if (k ^ {p}) in inv}
            got = {frozenset(e) for e in g.edges()}
            rec.op(len(want))
            if got != want:
                rec.bad({**case, "graph": what}, f"{len(got)} edges instead of {len(want)}: edges do not join exactly the graphs that differ in one edge")
        d = lib.diff(lib.view_of(c), before)
        if d:
            rec.bad(case, f"the circuit was changed: {d}")
        rec.trace(case)


def limit(rec):
    for n in (8, 9):
        case = {"n": n}
        rec.state(("limit", n))
        with rec.case(case):
            c = mp.templates.linear_cluster(n)
            r, e = raises(mp.utils.FlowSpace, c)
            rec.op()
            rec.trace(case)
            if not r:
                rec.bad(case, "a space that large is built without being asked for")
