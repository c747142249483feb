"""C01  Causal flow is found exactly when it exists, and what is reported really is one."""
import functools
import itertools

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C01"
ASSUMPTIONS = [
    "the brute-force reference enumerates every successor function and tests acyclicity straight from the definition",
    "n=5 (quick) and n=6 (thorough) cover one node naming/insertion order per isomorphism class x a fixed list of namings; "
    "n<=4 covers every labelled graph",
]

NAMINGS = {
    "int": lambda n: list(range(n)),
    "rev": lambda n: list(range(n))[::-1],
    "gap": lambda n: [7 * ((3 * v + 1) % n) + 2 if n % 3 else 5 * ((v + 1) % n) + 1 for v in range(n)],
    "str": lambda n: [f"q{(v * (n - 1)) % n if n > 1 else 0}" for v in range(n)],
    "tup": lambda n: [(v % 2, v) for v in range(n)],
}


def BOUNDS(tier):
    return ("all labelled graphs with n<=4 nodes x all input/output sets of equal size (including overlapping, empty, all nodes); "
            + ("n=5: every isomorphism class x 5 namings x 2 node insertion orders, all labelled graphs too; n=6: every class"
               if tier == "thorough" else "n=5: every isomorphism class of open graphs x 5 namings x 2 node insertion orders")
            + "; flows handed in by the user: every successor function on all nodes x every strict partial order (n<=3: every labelled open graph, "
            "also through the constructor with gapped names; n=4: every isomorphism class, every successor function, valid ones also through the constructor); only a flow or only an order handed in"
            + "; larger open graphs: wires, grids, ladders and hubs with up to 30 (thorough: 36) nodes, and every graph that differs from one of them in one edge, against a polynomial "
            "reference that is compared with the brute-force one on every open graph n<=4"
            + "; paths of 60, 1200 and 2500 nodes; input/output listing orders ascending and descending; conditions checked on every node pair")


def shards(tier):
    out = [("lab", n, 0, 1) for n in (1, 2, 3)]
    out += [("lab", 4, k, 8) for k in range(8)]
    out += [("cls", 5, k, 16) for k in range(16)]
    out += [("deep", n, 0, 1) for n in (60, 1200, 2500)]
    out += [("own", n, 0, 1) for n in (1, 2)] + [("own", 3, k, 8) for k in range(8)] + [("own4", 4, k, 64) for k in range(64)]
    out += [("oracle", 0, 0, 1)] + [("larger", tier, k, 24) for k in range(24)]
    if tier == "thorough":
        out += [("lab", 5, k, 64) for k in range(64)]
        out += [("cls", 6, k, 64) for k in range(64)]
    return out


def judge(names, edges, i, o, flow, po, exists):
    """None or a description of what is wrong. names[v] is the label of reference node v."""
    n = len(names)
    if (flow is None) != (po is None):
        return "only one of flow function / partial order is reported"
    if flow is None:
        return "no flow reported although one exists" if exists else None
    if not exists:
        return "a flow is reported although none exists"
    inv = {names[v]: v for v in range(n)}
    a = ref.adj(n, edges)
    before = [[bool(po(names[u], names[v])) for v in range(n)] for u in range(n)]
    after = [sum(1 << v for v in range(n) if before[u][v]) for u in range(n)]
    for u in range(n):
        if before[u][u]:
            return f"order is reflexive at {names[u]!r}"
        for v in range(n):
            if before[u][v] and before[v][u]:
                return f"order is symmetric at {names[u]!r},{names[v]!r}"
            if before[u][v] and after[v] & ~after[u]:
                return "order is not transitive"
    for u in range(n):
        if u in o:
            continue
        f = flow(names[u])
        if f not in inv:
            return f"flow({names[u]!r}) = {f!r} is not a node"
        fu = inv[f]
        if fu not in a[u]:
            return f"flow({names[u]!r}) is not a neighbour"
        if fu in i:
            return f"flow({names[u]!r}) is an input"
        if not before[u][fu]:
            return f"{names[u]!r} is not before its successor"
        for w in a[fu] - {u}:
            if not before[u][w]:
                return f"{names[u]!r} is not before {names[w]!r}, a neighbour of its successor"
    return None


def flow_of(n, edges, i, o):
    """With as many inputs as outputs the causal flow is unique."""
    return ref.flow_succ(n, edges, next(ref.causal_flows(n, edges, i, o)))


def flow_of_names(names, n, edges, i, o):
    """Successor function and order (as pairs) of the causal flow, in the names given."""
    succ = flow_of(n, edges, i, o)
    f = next(ref.causal_flows(n, edges, i, o))
    clo = lib.closure(range(n), [(u, w) for u in succ for w in succ[u]])
    return {names[u]: names[w] for u, w in f.items()}, {(names[u], names[w]) for u, w in clo}


def judge_layers(n, edges, i, o, depth, lay, want):
    if depth != want:
        return f"depth {depth}, but the longest dependency chain has {want} steps"
    if sorted(lay) != list(range(n)):
        return "the layers are not a partition of the nodes"
    if max(lay.values()) != depth or any(lay[v] for v in o):
        return f"layers {lay} do not end with the outputs or do not match the depth {depth}"
    for u, ws in flow_of(n, edges, i, o).items():
        if any(lay[u] <= lay[w] for w in ws):
            return f"layers {lay} contradict the flow at {u}"
    return None


def build(names, edges, order):
    g = mp.GraphState()
    g.add_nodes_from(names[v] for v in order)
    for u, v in edges:
        g.add_edge(names[u], names[v])
    return g


def counted(rec, fn):
    """Every query of the reported flow or order is one executed operation."""
    if fn is None:
        return None

    def call(*a):
        rec.op()
        return fn(*a)

    return call


def deep(rec, length):
    """A path longer than any recursion limit: its only flow is the successor."""
    case = {"path": length}
    rec.state(("deep", length))
    with rec.case(case):
        c = quiet(mp.MBQCircuit, build(list(range(length)), [(v, v + 1) for v in range(length - 1)], range(length)), [0], [length - 1]) if length < 200 else None
        r = (c.flow, c.partial_order, c.depth) if c else quiet(mp.mbqc.flow.find_cflow, build(list(range(length)), [(v, v + 1) for v in range(length - 1)], range(length)), [0], [length - 1])[:3]
        rec.op(length)
        if r[0] is None:
            rec.bad(case, "no flow reported for a path")
        elif any(r[0](v) != v + 1 for v in range(length - 1)):
            rec.bad(case, "the flow of a path is not the successor")
        elif not all(r[1](v, v + 1) and not r[1](v + 1, v) for v in range(length - 1)):
            rec.bad(case, "the order of a path is not the one along it")
        elif r[2] != length - 1:
            rec.bad(case, f"depth {r[2]} instead of {length - 1}")
        rec.trace(case)


@functools.lru_cache(None)
def strict_orders(n):
    """Every strict partial order on 0..n-1 (1, 3, 19, 219 of them), as frozensets of pairs."""
    level = {frozenset()}
    everything = set(level)
    while level:
        nxt = set()
        for r in level:
            for u, v in itertools.permutations(range(n), 2):
                if (u, v) not in r:
                    c = lib.closure(range(n), r | {(u, v)})
                    if all(a != b for a, b in c):
                        nxt.add(frozenset(c))
        level = nxt - everything
        everything |= nxt
    return sorted(everything, key=lambda r: (len(r), sorted(r)))


def own(rec, n, edges, i, o, ctor):
    """A flow handed in by the user is one exactly when it satisfies the definition."""
    a = ref.adj(n, edges)
    meas = [v for v in range(n) if v not in o]
    names = NAMINGS["gap"](n)
    srt = sorted(names)
    lab = [srt.index(x) for x in names]
    g = build(list(range(n)), edges, range(n))
    gn = build(names, edges, range(n))
    for choice in itertools.product(*[range(n) for u in meas]):
        f = dict(zip(meas, choice))
        must = {(u, w) for u, fu in f.items() for w in {fu} | (a[fu] - {u})}
        fine = all(fu in a[u] and fu not in i for u, fu in f.items())
        for order in strict_orders(n):
            good = fine and must <= order
            case = {"n": n, "edges": edges, "in": i, "out": o, "own": sorted(f.items()), "order": sorted(order)}
            rec.state(("own", n, edges, i, o, choice, order))
            with rec.case(case):
                got = quiet(mp.mbqc.flow.check_if_flow, g, list(i), list(o), f.__getitem__, lambda u, v: (u, v) in order)
                rec.op()
                rec.note("own_flow" if good else "own_not_a_flow")
                if bool(got) != good:
                    rec.bad(case, f"check_if_flow says {bool(got)} about a pair that is {'a' if good else 'not a'} flow")
                if not (ctor or good):
                    continue
                back = {names[v]: v for v in range(n)}
                bad, c = raises(mp.MBQCircuit, gn, [names[v] for v in i], [names[v] for v in o],
                                flow=lambda x: names[f[back[x]]], partial_order=lambda x, y: (back[x], back[y]) in order)
                rec.op()
                if bad != (not good):
                    rec.bad(case, f"the constructor {'refuses a valid' if bad else 'accepts an invalid'} flow ({c!r})")
                elif not bad:
                    err = judge(lab, edges, i, o, counted(rec, c.flow), counted(rec, c.partial_order), True)
                    if not err and any(c.flow(lab[u]) != lab[fu] for u, fu in f.items()):
                        err = "the flow of the circuit is not the one given"
                    if err:
                        rec.bad(case, err)
                rec.trace(case)


def one(rec, n, edges, i, o, naming, rev, circ):
    names = NAMINGS[naming](n)
    exists = ref.has_causal_flow(n, edges, i, o)
    case = {"n": n, "edges": edges, "in": i, "out": o, "naming": naming, "rev": rev, "via": circ or "finder"}
    rec.state((n, edges, i, o, naming, rev, circ))
    with rec.case(case):
        g = build(names, edges, range(n)[::-1] if rev else range(n))
        ins = [names[v] for v in (i[::-1] if rev else i)]
        outs = [names[v] for v in (o[::-1] if rev else o)]
        if circ:
            half = {}
            if circ != "circuit":  # only one half of a flow is handed in: it is found as if neither had been
                known = flow_of_names(names, n, edges, i, o) if exists else ({x: x for x in names}, set())
                half = {"flow": known[0].__getitem__} if circ == "flow only" else {"partial_order": lambda x, y: (x, y) in known[1]}
            c = quiet(mp.MBQCircuit, g, ins, outs, **half)
            srt = sorted(names)
            lab = [srt.index(x) for x in names]
            flow, po = counted(rec, c.flow), counted(rec, c.partial_order)
            err = judge(lab, edges, i, o, flow, po, exists)
        else:
            r = quiet(mp.mbqc.flow.find_cflow, g, ins, outs)
            err = judge(names, edges, i, o, counted(rec, r[0]), counted(rec, r[1]), exists)
        rec.op(1)
        if exists and not err:
            want = ref.longest_chain(n, flow_of(n, edges, i, o))
            if circ:
                depth, layers = c.depth, c.ordered_layers()
                lay = {lab.index(v): d for d, layer in enumerate(layers[::-1]) for v in layer}
            else:
                depth, lay = r[2], {names.index(v): d for v, d in r[3].items()}
            err = judge_layers(n, edges, i, o, depth, lay, want)
        rec.outcome((exists, n, len(edges)))
        if exists:
            rec.note("with_flow")
        else:
            rec.note("without_flow")
        if err:
            rec.bad(case, err)
        rec.trace(case)


def larger(rec, name, n, edges, i, o, circ):
    """An open graph of 8..40 nodes against the polynomial reference."""
    known = big.causal(n, edges, i, o)
    names = NAMINGS["gap" if circ else "int"](n)
    case = {"family": name, "n": n, "edges": edges, "in": i, "out": o, "via": "circuit" if circ else "finder"}
    rec.state((n, edges, i, o, "larger", circ))
    with rec.case(case):
        g = build(names, edges, range(n)[::-1] if circ else range(n))
        ins, outs = [names[v] for v in i], [names[v] for v in o]
        if circ:
            c = quiet(mp.MBQCircuit, g, ins, outs)
            srt = sorted(names)
            lab = [srt.index(x) for x in names]
            flow, po, depth = c.flow, c.partial_order, c.depth
            lay = {lab.index(v): d for d, layer in enumerate((c.ordered_layers() or [])[::-1]) for v in layer}
        else:
            lab = names
            flow, po, depth, lay = quiet(mp.mbqc.flow.find_cflow, g, ins, outs)
        rec.op()
        err = judge(lab, edges, i, o, counted(rec, flow), counted(rec, po), known is not None)
        if known and not err:
            f, want = known
            if any(flow(lab[u]) != lab[w] for u, w in f.items()):
                err = "the flow reported is not the only one there is"
            elif depth != max(want.values()) or sorted(lay) != list(range(n)):
                err = f"depth {depth} instead of {max(want.values())}, or layers that are not a partition"
            else:
                succ = ref.flow_succ(n, edges, f)
                if any(lay[v] for v in o) or max(lay.values()) != depth or any(lay[u] <= lay[w] for u in succ for w in succ[u]):
                    err = "the layers contradict the flow"
        rec.note("with_flow" if known else "without_flow")
        rec.outcome((n, depth))
        if err:
            rec.bad(case, err)
        rec.trace(case)


def do_larger(rec, k, m, tier):
    idx = 0
    for name, n, edges, i, o in big.bases(tier):
        for pos, e in enumerate(big.nearby(n, edges)):
            idx += 1
            if idx % m == k:
                larger(rec, name, n, e, i, o, False)
                if pos == 0 or (n <= 12 and big.causal(n, e, i, o)):
                    larger(rec, name, n, e, i, o, True)


def oracle(rec):
    """The polynomial reference agrees with the definition on every small open graph."""
    for n in (1, 2, 3, 4):
        for edges in ref.all_edge_sets(n):
            for i, o in ref.io_sets(n):
                rec.state(("oracle", n, edges, i, o))
                r = big.causal(n, edges, i, o)
                if (r is not None) != ref.has_causal_flow(n, edges, i, o) or (r and r[0] != next(ref.causal_flows(n, edges, i, o))):
                    raise lib.HarnessError(f"the references disagree at {n, edges, i, o}")


def explore(shard, rec):
    kind, n, k, m = shard
    if kind == "larger":
        return do_larger(rec, k, m, n)
    if kind == "oracle":
        return oracle(rec)
    if kind == "deep":
        deep(rec, n)
    elif kind.startswith("own"):
        if kind == "own":
            graphs = ((e, i, o) for e in ref.all_edge_sets(n) for i, o in ref.io_sets(n))
        else:
            graphs = ref.open_graph_classes(n)
        for idx, (edges, i, o) in enumerate(graphs):
            if idx % m == k:
                own(rec, n, edges, i, o, kind == "own")
    elif kind == "lab":
        for idx, edges in enumerate(ref.all_edge_sets(n)):
            if idx % m != k:
                continue
            for i, o in ref.io_sets(n):
                one(rec, n, edges, i, o, "int", False, False)
                if n <= 3:
                    one(rec, n, edges, i, o, "str", True, False)
                    for via in ("circuit", "flow only", "order only"):
                        one(rec, n, edges, i, o, "gap", True, via)
    else:
        for idx, (edges, i, o) in enumerate(ref.open_graph_classes(n)):
            if idx % m != k:
                continue
            for naming in NAMINGS:
                for rev in (False, True):
                    if n >= 6 and (rev or naming not in ("int", "str")):
                        continue
                    one(rec, n, edges, i, o, naming, rev, False)
            if ref.has_causal_flow(n, edges, i, o):
                for via in ("circuit", "flow only", "order only"):
                    one(rec, n, edges, i, o, "gap", True, via)
