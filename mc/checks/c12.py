"""C12  The reported flow and order make the pattern deterministic on every outcome branch."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C12"
ASSUMPTIONS = [
    "correction rule of a causal flow: after outcome 1 at u, X on flow(u) and Z on the other neighbours of flow(u); corrections on measured nodes are absorbed as theta -> (-1)^x theta + pi z",
    "branch maps are contracted by the reference from the graph, node roles and measurement order the circuit reports",
]


def BOUNDS(tier):
    return ("circuits reached by every public route: constructor (every open graph class with flow n<=5" + (", n=6 classes" if tier == "thorough" else "")
            + "; every order the circuit accepts for n<=4, assigned or given to the constructor), add_edge from every smaller flow graph (n<=4), hstack / vstack of every pair of classes n<=3, templates; "
            "generic angles, every one of the 2^m outcome vectors (m <= 8 measured nodes; larger templates: all vectors of weight <= 2); "
            "circuits with up to " + ("24" if tier == "thorough" else "18") + " nodes, every edge that keeps a flow added, orders one move away: all vectors of weight 1 and the full one")


def shards(tier):
    out = [("ctor", n, k, m) for n, m in ((2, 1), (3, 1), (4, 8), (5, 16)) for k in range(m)]
    if tier == "thorough":
        out += [("ctor", 6, k, 64) for k in range(64)]
    out += [("edge", 3, 0, 1), ("edge", 4, 0, 4), ("edge", 4, 1, 4), ("edge", 4, 2, 4), ("edge", 4, 3, 4)]
    out += [("stack", 3, k, 16) for k in range(16)] + [("tmpl", 0, k, 12) for k in range(12)]
    out += [("larger", tier, k, 48) for k in range(48)]
    return out


def deterministic(rec, case, c, max_weight=None):
    """All branches of circuit c, judged from what c reports."""
    nodes = sorted(c.graph.nodes)
    n = len(nodes)
    pos = {v: k for k, v in enumerate(nodes)}
    edges = tuple(tuple(sorted((pos[u], pos[v]))) for u, v in c.graph.edges)
    i, o = [pos[v] for v in c.input_nodes], [pos[v] for v in c.output_nodes]
    a = ref.adj(n, edges)
    if c.flow is None or c.measurement_order is None:
        rec.bad(case, "no flow / measurement order reported")
        return
    order = [pos[v] for v in c.measurement_order]
    meas = [v for v in order if v not in o]
    f = {v: pos[c.flow(nodes[v])] for v in meas}
    rec.op(len(meas))
    theta = {v: 0.371938 + 0.612847 * k for k, v in enumerate(sorted(meas))}
    base = ref.branch_map(n, edges, i, o, {v: ("XY", theta[v]) for v in meas})
    when = {v: k for k, v in enumerate(order)}
    outs = itertools.product((0, 1), repeat=len(meas))
    if max_weight is not None:
        outs = [tuple(int(j in s) for j in range(len(meas))) for w in range(1, max_weight + 1) for s in itertools.combinations(range(len(meas)), w)]
        outs.append((1,) * len(meas))
    for bits in outs:
        s = dict(zip(meas, bits))
        sx = {v: 0 for v in range(n)}
        sz = {v: 0 for v in range(n)}
        for u in meas:
            if s[u]:
                for w, tab in [(f[u], sx)] + [(w, sz) for w in a[f[u]] if w != u]:
                    tab[w] ^= 1
                    if w in meas and when[w] < when[u]:
                        rec.bad({**case, "outcomes": bits}, f"outcome of {u} is needed at {w}, which is measured earlier")
                        return
        ments = {v: ("XY", (-1) ** sx[v] * theta[v] + np.pi * sz[v]) for v in meas}
        m = ref.branch_map(n, edges, i, o, ments, s)
        corr = ref.kron(*[np.linalg.matrix_power(ref.Z, sz[v]) @ np.linalg.matrix_power(ref.X, sx[v]) for v in o])
        m = corr @ m
        rec.state((repr(case), bits))
        rec.note("branches")
        if not ref.proportional(m, base) or abs(np.linalg.norm(m) - np.linalg.norm(base)) > 1e-7:
            rec.bad({**case, "outcomes": bits}, "this outcome branch implements another map than the all-zero branch")
            return
    rec.outcome((len(meas), len(i)))
    rec.trace(case)


def classes(n):
    return [(e, i, o) for e, i, o in ref.open_graph_classes(n) if ref.has_causal_flow(n, e, i, o)]


def templates():
    T = mp.templates
    for n in (2, 3, 5, 7):
        yield ("linear_cluster", n), lambda n=n: T.linear_cluster(n)
    for w in ([2], [3, 2], [2, 4, 3], [2, 2, 2]):
        yield ("many_wires", tuple(w)), lambda w=w: T.many_wires(w)
    for a, b, p in ((1, 4, False), (2, 2, False), (2, 4, False), (3, 3, False), (3, 2, True), (2, 3, True), (4, 2, False)):
        yield ("grid_cluster", a, b, p), lambda a=a, b=b, p=p: T.grid_cluster(a, b, periodic=p)
    for w, l, kw in ((1, 1, {}), (2, 1, {}), (2, 2, {"one_column": True}), (3, 1, {"one_column": True})):
        yield ("muta", w, l, sorted(kw)), lambda w=w, l=l, kw=kw: T.muta(w, l, **kw)


def larger(rec, tier, k, m):
    """Larger circuits as constructed, after one more edge, and under every order that differs by one move."""
    idx = -1
    for name, n, edges, i, o in big.bases(tier):
        if big.causal(n, edges, i, o) is None or len(i) > 6:
            continue
        for e in [None] + list(itertools.combinations(range(n), 2)):
            if e in edges or e is not None and big.causal(n, tuple(sorted(edges + (e,))), i, o) is None:
                continue
            idx += 1
            if idx % m != k:
                continue
            case = {"route": "add_edge" if e else "constructor", "base": name, "new": e}
            with rec.case(case):
                c = lib.circuit(n, edges, i, o)
                if e:
                    quiet(c.add_edge, *e)
                    rec.op()
                deterministic(rec, case, c, 1 if e else 2)
                order = list(c.measurement_order)
            for a, b in () if e else itertools.permutations(range(n), 2):
                new = order[:a] + order[a + 1:]
                new.insert(b, order[a])
                if new == order or abs(b - a) not in (1, n // 2, n - 1):
                    continue
                case = {"route": "order", "base": name, "order": new}
                with rec.case(case):
                    bad, _ = raises(setattr, c, "measurement_order", new)
                    if not bad:
                        rec.note("orders")
                        deterministic(rec, case, c, 1)


def explore(shard, rec):
    kind, n, k, m = shard
    if kind == "larger":
        return larger(rec, n, k, m)
    if kind == "ctor":
        for idx, (edges, i, o) in enumerate(classes(n)):
            if idx % m != k:
                continue
            variants = [(i, o)] + ([(i[::-1], o[1:] + o[:1])] if len(i) > 1 else [])
            for ii, oo in variants:
                case = {"route": "constructor", "n": n, "edges": edges, "in": ii, "out": oo}
                with rec.case(case):
                    c = lib.circuit(n, edges, ii, oo)
                    deterministic(rec, case, c)
                    if n <= 4:
                        # every order the circuit accepts
                        for ext in itertools.permutations(range(n)):
                            bad, _ = raises(setattr, c, "measurement_order", list(ext))
                            if not bad:
                                rec.note("orders")
                                deterministic(rec, {**case, "order": ext}, c)
                            bad, c2 = raises(lib.circuit, n, edges, ii, oo, measurement_order=list(ext))
                            if not bad and list(c2.measurement_order) == list(ext):
                                rec.note("ctor_orders")
                                deterministic(rec, {**case, "ctor_order": ext}, c2)
    elif kind == "edge":
        idx = -1
        for edges, i, o in classes(n):
            for e in itertools.combinations(range(n), 2):
                if e in edges or not ref.has_causal_flow(n, edges + (e,), i, o):
                    continue
                idx += 1
                if idx % m != k:
                    continue
                case = {"route": "add_edge", "n": n, "edges": edges, "new": e, "in": i, "out": o}
                with rec.case(case):
                    c = lib.circuit(n, edges, i, o)
                    quiet(c.add_edge, *e)
                    rec.op()
                    deterministic(rec, case, c)
    elif kind == "stack":
        cl = [(nn,) + x for nn in (2, 3) for x in classes(nn)]
        idx = -1
        for x, y in itertools.product(cl, repeat=2):
            for how in ("hstack", "vstack"):
                if how == "hstack" and len(x[3]) != len(y[2]):
                    continue
                idx += 1
                if idx % m != k:
                    continue
                case = {"route": how, "first": x, "second": y}
                with rec.case(case):
                    c1, c2 = lib.circuit(*x), lib.circuit(*y)
                    c = quiet(getattr(mp, how), [c1, c2])
                    rec.op()
                    if how == "hstack" and c.flow is None and fused_adjacent(x, y):
                        continue
                    deterministic(rec, case, c)
    else:
        for idx, (name, make) in enumerate(templates()):
            if idx % m != k:
                continue
            case = {"route": "template", "template": name}
            with rec.case(case):
                c = quiet(make)
                rec.op()
                meas = len(c.graph) - len(c.output_nodes)
                deterministic(rec, case, c, None if meas <= 8 else 2)


def fused_adjacent(x, y):
    """Two fused nodes adjacent in both circuits: outside the domain of C13 as well."""
    n1, e1, i1, o1 = x
    n2, e2, i2, o2 = y
    for a, b in itertools.combinations(range(len(o1)), 2):
        if tuple(sorted((o1[a], o1[b]))) in e1 and tuple(sorted((i2[a], i2[b]))) in e2:
            return True
    return False
