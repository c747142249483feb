"""C33  Expressivity statistics: fidelities, divergences, the expressivity digraph and LC clusters of a flow space."""
import itertools
import sys
import math

import networkx as nx
import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.checks.c23 import same_orbit
from mc.core import quiet, raises

ID = "C33"
ASSUMPTIONS = [
    "fidelities are judged on patterns that implement the identity for the scripted angles (every drawn input then has fidelity one) and by their number and range; how they are distributed is not judged",
    "a histogram is the normalised one of the sampled fidelities over [0, 1], the Haar weight of a bin its density at the midpoint times its width (the definition the code documents)",
]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"Haar density for 1..6 qubits on a grid of 101 fidelities; every multiset of <= {4 if t else 3} fidelities from a grid of 7 x bins (1, 2, 4, 10) x 3 methods x 1..3 outputs (sampling replaced by the listed values); up to 200 bins x up to 150 samples x 3 patterns of fidelities; "
            "identity patterns up to 7 nodes x samples 1..3 x bins x methods, angles drawn at 0 and at the middle; every ordered pair of eight divergences (ties, almost ties, infinite) on every edge of the flow spaces; expressivity digraph and LC clusters of the flow spaces of every choice of inputs and outputs "
            f"on n<=3 nodes, {'every sorted choice' if t else 'five choices'} on n=4{', two on n=5' if t else ', clusters of all graphs'}")


def shards(tier):
    out = [("haar",), ("refuse",)]
    out += [("hist", nq, bins, tier) for nq in (1, 2, 3) for bins in (1, 2, 4, 10)]
    out += [("identity", k) for k in range(len(IDENT))]
    out += [("wide", nq) for nq in (1, 2, 3)]
    sp = []
    for n in (2, 3):
        for r in range(1, n + 1):
            sp += [(n, i, o) for i in itertools.permutations(range(n), r) for o in itertools.permutations(range(n), r)]
    small = [("space", tuple(sp[k::16])) for k in range(16)]
    four = [((0,), (3,)), ((0, 1), (2, 3)), ((0, 1), (1, 3)), ((2, 0), (3, 1)), ((1, 2, 3), (1, 2, 0))]
    if tier == "thorough":
        four = [(i, o) for r in (1, 2, 3) for i in itertools.combinations(range(4), r) for o in itertools.combinations(range(4), r)]
    out += small + [("space", ((4, i, o),)) for i, o in four]
    if tier == "thorough":
        out += [("space", ((5, (0,), (4,)),)), ("space", ((5, (0, 1), (3, 4)),))]
    out += [("cluster", n, k, 12) for n in (3, 4) for k in range(12)]
    return out


# patterns that implement the identity when every drawn angle is 0 or +-pi: (n, edges, in, out, measurements, strata)
IDENT = [
    (1, (), (0,), (0,), {}, 0.5),
    (2, (), (0, 1), (0, 1), {}, 0.5),
    (3, (), (2, 0, 1), (2, 0, 1), {}, 0.25),
    (3, ((0, 1), (1, 2)), (0,), (2,), {0: "X", 1: "X"}, 0.3),
    (5, ((0, 1), (1, 2), (2, 3), (3, 4)), (0,), (4,), {}, 0.0),
    (5, ((0, 1), (1, 2), (2, 3), (3, 4)), (0,), (4,), {}, 0.5),
    (6, ((0, 1), (1, 2), (3, 4), (4, 5)), (0, 3), (2, 5), {0: "X", 1: "X", 3: "X", 4: "X"}, 0.3),
    (6, ((0, 1), (1, 2), (2, 3), (3, 4)), (5, 0), (5, 4), {}, 0.0),
    (6, ((0, 1), (1, 2), (2, 3), (3, 4)), (0, 5), (4, 5), {}, 0.5),
]


def explore(shard, rec):
    kind = shard[0]
    {"haar": haar, "refuse": refuse, "hist": hist, "wide": wide, "identity": identity, "space": spaces, "cluster": cluster}[kind](rec, *shard[1:])


def haar(rec):
    for nq in range(1, 7):
        dim = 2**nq
        for k in range(101):
            f = k / 100
            case = {"qubits": nq, "fidelity": f}
            rec.state(repr(case))
            with rec.case(case):
                got = quiet(mp.utils.haar_probability_density_of_fidelities, f, nq)
                rec.op()
                if abs(got - (dim - 1) * (1 - f) ** (dim - 2)) > 1e-9:
                    rec.bad(case, f"Haar density {got}")
                rec.outcome(round(float(got), 6))
        with rec.case({"qubits": nq, "array": True}):
            fs = np.linspace(0, 1, 41)
            keep = fs.copy()
            got = np.asarray(quiet(mp.utils.haar_probability_density_of_fidelities, fs, nq))
            if not lib.close(got, (dim - 1) * (1 - fs) ** (dim - 2), 1e-9) or not np.array_equal(keep, fs):
                rec.bad({"qubits": nq, "array": True}, "Haar density of an array")
    rec.trace({"haar": 6})


def divergence(method, p, q):
    if method == "KL":
        return sum((a * math.log(a / b) if a > 0 else 0.0) - a + b for a, b in zip(p, q))
    if method == "RE":
        return sum(a * math.log(a / b) if a > 0 else 0.0 for a, b in zip(p, q))
    p = np.array(p) / sum(p)
    q = np.array(q) / sum(q)
    m = (p + q) / 2
    js = 0.5 * sum(a * math.log(a / c) if a > 0 else 0.0 for a, c in zip(p, m)) + 0.5 * sum(b * math.log(b / c) if b > 0 else 0.0 for b, c in zip(q, m))
    return math.sqrt(max(js, 0.0))


def expected(fids, nq, bins, method):
    cnt = [0] * bins
    for f in fids:
        cnt[min(int(f * bins + 1e-12), bins - 1)] += 1
    p = [c / len(fids) for c in cnt]
    dim = 2**nq
    q = [(dim - 1) * (1 - (k + 0.5) / bins) ** (dim - 2) / bins for k in range(bins)]
    return divergence(method, p, q)


def wide(rec, nq):
    """Fine histograms and long samples: (bins, number of fidelities, pattern of the fidelities)."""
    for bins in (3, 7, 33, 64, 65, 100, 150, 200):
        for size in (1, 5, 20, 64, 100, 150):
            for kind in ("spread", "edges", "high"):
                if kind == "spread":
                    fids = tuple((k + 1) * 0.6180339887 % 1 for k in range(size))
                elif kind == "edges":  # well inside a bin, first and last bin hit
                    fids = tuple((0.0, 1.0, 0.5 / bins, 1 - 0.5 / bins, (bins // 2 + 0.25) / bins)[k % 5] for k in range(size))
                else:
                    fids = tuple(1 - ((k * 13) % 10 + 0.37) / 40 for k in range(size))
                judge_hist(rec, nq, bins, [fids])


def hist(rec, nq, bins, tier):
    grid = (0.0, 0.13, 0.26, 0.5, 0.51, 0.77, 1.0)
    judge_hist(rec, nq, bins, [f for r in range(1, 5 if tier == "thorough" else 4) for f in itertools.combinations_with_replacement(grid, r)])


def judge_hist(rec, nq, bins, lists):
    import mentpy.utils.expressivity as ex

    c = lib.circuit(nq, (), range(nq), range(nq))
    name = "sample_probability_density_of_fidelities"
    real = getattr(ex, name, None)
    for fids in lists:
        r = len(fids)
        for method in ("KL", "RE", "JS"):
            case = {"outputs": nq, "bins": bins, "fidelities": fids, "method": method}
            rec.state(repr(case))
            used = []
            with rec.case(case):
                if real is None:
                    rec.note("sampling_function_gone")
                    return
                setattr(ex, name, lambda circ, *a, **k: used.append((circ, a, k)) or list(fids))
                try:
                    got = quiet(ex.expressivity_with_histogram, c, r, bins, method)
                finally:
                    setattr(ex, name, real)
                rec.op()
                if not used:
                    rec.note("sampling_function_not_used")
                    continue
                asked = used[0][2].get("n_samples", used[0][1][0] if used[0][1] else None)
                if used[0][0] is not c or asked not in (r, None):
                    rec.bad(case, f"{asked} samples of {used[0][0]!r} instead of {r} of the circuit")
                if abs(got - expected(fids, nq, bins, method)) > 1e-7:
                    rec.bad(case, f"expressivity {got}, the divergence from the Haar histogram is {expected(fids, nq, bins, method)}")
                rec.outcome(round(float(got), 6))
                rec.trace(case)


def identity(rec, k):
    n, edges, i, o, m, stratum = IDENT[k]
    for ns in (1, 2, 3):
        case = {"n": n, "edges": edges, "in": i, "out": o, "fixed": sorted(m), "angle": stratum, "samples": ns}
        rec.state(repr(case))
        with rec.case(case):
            c = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(m.get(v, "XY")) for v in range(n) if v not in o})
            before = lib.view_of(c)
            with lib.Script((), (stratum,)).active():
                f = quiet(mp.utils.sample_probability_density_of_fidelities, c, ns)
            rec.op()
            f = np.asarray(f, dtype=float)
            if f.shape != (ns,) or np.any(np.abs(f - 1) > 1e-7):
                rec.bad(case, f"fidelities {f} of a pattern that is the identity for every drawn angle")
            if np.any(f > 1) or np.any(f < 0):
                rec.bad(case, "a fidelity outside [0, 1]")
            if lib.view_of(c) != before:
                rec.bad(case, "sampling changed the circuit")
            rec.trace(case)
        for bins in (1, 3, 10):
            for method in ("KL", "RE", "JS"):
                case2 = {**case, "bins": bins, "method": method}
                rec.state(repr(case2))
                with rec.case(case2):
                    with lib.Script((), (stratum,)).active():
                        got = quiet(mp.utils.expressivity_with_histogram, c, ns, bins, method)
                    rec.op()
                    # a fidelity may come out as 1 or just below
                    want = expected([1 - 1e-9] * ns, len(o), bins, method)
                    if abs(got - want) > 1e-7:
                        rec.bad(case2, f"expressivity {got}, expected {want}")
                    rec.outcome(round(float(got), 6))
    # circuits that are not the identity: the number of fidelities and their range
    case = {"n": n, "edges": edges, "in": i, "out": o[::-1], "angle": "real"}
    with rec.case(case):
        c = lib.circuit(n, edges, i, o)
        f = np.asarray(quiet(mp.utils.sample_probability_density_of_fidelities, c, 4), dtype=float)
        rec.op()
        if f.shape != (4,) or np.any(f < 0) or np.any(f > 1):
            rec.bad(case, f"fidelities {f}")


def refuse(rec):
    c = lib.circuit(2, (), (0, 1), (0, 1))
    for method in ("", "kl", "KL ", "covering", None, 3):
        case = {"method": method}
        rec.state(repr(case))
        with rec.case(case):
            try:
                bad, r = raises(mp.utils.expressivity_with_histogram, c, 2, 2, method)
            except Warning as e:
                bad, r = True, e
            rec.op()
            if not bad:
                rec.bad(case, "an unknown method is accepted")
            rec.trace(case)


def clusters_ok(rec, case, dg, circs):
    ind, graphs = quiet(mp.utils.lc_cluster_flowspace, dg)
    rec.op()
    names = [v for key in ind for v in ind[key]]
    if sorted(names) != sorted(circs):
        rec.bad(case, f"the clusters {ind} are not a partition of the circuits")
        return
    es = {v: tuple(sorted(tuple(sorted(e)) for e in circs[v].graph.edges)) for v in circs}
    n = len(next(iter(circs.values()))) if circs else 0
    where = {v: key for key in ind for v in ind[key]}
    for u, v in itertools.combinations(sorted(circs), 2):
        if (where[u] == where[v]) != same_orbit(n, es[u], es[v]):
            rec.bad({**case, "pair": [es[u], es[v]]}, "graphs are clustered together exactly if they are not LC equivalent")
    if sorted(ind) != sorted(graphs) or any([sorted(tuple(sorted(e)) for e in g.edges) for g in graphs[key]] != [list(es[v]) for v in ind[key]] for key in ind):
        rec.bad(case, "the clusters of graphs differ from the clusters of indices")
    rec.outcome(tuple(sorted(len(x) for x in ind.values())))


def drawn(rec, case, dg):
    """The figure has a point for every circuit and an arrow for every edge, and drawing does not change the digraph."""
    import matplotlib.pyplot as plt

    before = (sorted(dg.nodes), sorted(dg.edges), {v: dg.nodes[v]["expr"] for v in dg.nodes})
    fig = plt.figure()
    quiet(mp.utils.draw_digraph_flow_space, dg)
    rec.op()
    points = sum(len(c.get_offsets()) for ax in fig.axes for c in ax.collections if hasattr(c, "get_sizes"))
    arrows = sum(type(a).__name__ == "FancyArrowPatch" for ax in fig.axes for a in ax.patches)
    plt.close("all")
    if (points, arrows) != (len(dg), dg.number_of_edges()):
        rec.bad({**case, "drawn": True}, f"{points} points and {arrows} arrows drawn for {len(dg)} circuits and {dg.number_of_edges()} edges")
    if (sorted(dg.nodes), sorted(dg.edges), {v: dg.nodes[v]["expr"] for v in dg.nodes}) != before:
        rec.bad({**case, "drawn": True}, "drawing changed the digraph")


DIVERGENCES = (-0.2, 0.0, 1e-12, 0.25, 0.2500001, 0.26, 3.0, float("inf"))


def oriented(rec, case, fs):
    """Every ordered pair of divergences on every edge: circuits with an even number of edges have the first, the others the second."""
    module = sys.modules["mentpy.utils.expressivity"]
    fg, keep = fs.flow_graph_space, module.expressivity_with_histogram
    for a, b in itertools.product(DIVERGENCES, repeat=2):
        module.expressivity_with_histogram = lambda c, *args, **kw: (a, b)[len(c.graph.edges) % 2]
        try:
            dg = quiet(mp.utils.digraph_expressivity_of_flow_space, fs, n_samples=1, n_bins=2)
        finally:
            module.expressivity_with_histogram = keep
        rec.op()
        if {frozenset(e) for e in dg.edges} != {frozenset(e) for e in fg.edges} or dg.number_of_edges() != fg.number_of_edges():
            rec.bad({**case, "divergences": [a, b]}, "the digraph does not orient every edge of the flow space once")
        if any(dg.nodes[u]["expr"] < dg.nodes[v]["expr"] for u, v in dg.edges):
            rec.bad({**case, "divergences": [a, b]}, "an edge points to a circuit with a larger divergence")


def spaces(rec, specs):
    for n, i, o in specs:
        case = {"n": n, "in": i, "out": o}
        rec.state(repr(case))
        with rec.case(case, limit=600):
            fs = quiet(mp.utils.FlowSpace, lib.circuit(n, tuple((v, v + 1) for v in range(n - 1)), i, o))
            fg = fs.flow_graph_space
            dg = quiet(mp.utils.digraph_expressivity_of_flow_space, fs, n_samples=2, n_bins=3)
            rec.op(2)
            if sorted(dg.nodes) != sorted(fg.nodes):
                rec.bad(case, "the digraph does not have the circuits with flow as its nodes")
                continue
            if {frozenset(e) for e in dg.edges} != {frozenset(e) for e in fg.edges} or dg.number_of_edges() != fg.number_of_edges():
                rec.bad(case, "the digraph does not orient every edge of the flow space once")
            for u, v in dg.edges:
                if dg.nodes[u]["expr"] < dg.nodes[v]["expr"]:
                    rec.bad({**case, "edge": [u, v]}, "an edge points to a circuit with a larger divergence")
            oriented(rec, case, fs)
            circs = {v: dg.nodes[v]["mbqc_circuit"] for v in dg.nodes}
            if any(circs[v] is not fg.nodes[v]["mbqc_circuit"] for v in circs):
                rec.bad(case, "a node of the digraph has the circuit of another node")
            clusters_ok(rec, case, dg, circs)
            if n < 4:
                drawn(rec, case, dg)
            rec.trace(case)
            rec.note("flow_circuits", len(circs))


class Holder:
    """What the clustering needs of a circuit: its graph."""

    def __init__(self, n, edges):
        self.graph = lib.gstate(n, edges)
        self.n = n

    def __len__(self):
        return self.n


def cluster(rec, n, k, m):
    """LC clusters of graph collections: all graphs on n nodes in several orders, and every triple of classes."""
    allg = list(ref.all_edge_sets(n))
    lists = [tuple(allg), tuple(reversed(allg)), tuple(allg[1::2] + allg[::2])]
    lists += list(itertools.permutations(allg, 2)) if n == 3 else [tuple(allg[a::7]) for a in range(7)]
    for q, lst in enumerate(lists):
        if q % m != k:
            continue
        case = {"n": n, "list": q, "graphs": len(lst)}
        rec.state(repr(case))
        with rec.case(case, limit=300):
            dg = nx.DiGraph()
            for v, e in enumerate(lst):
                dg.add_node(v, mbqc_circuit=Holder(n, e))
            clusters_ok(rec, case, dg, {v: dg.nodes[v]["mbqc_circuit"] for v in dg.nodes})
            rec.trace(case)
