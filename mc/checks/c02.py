"""C02  Generalised flow: found exactly when it exists, with a valid layering."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import HarnessError, quiet

ID = "C02"
ASSUMPTIONS = [
    "reference: search over all measurement orders with every subset as candidate correction set (all measurements in the XY plane)",
    "correction sets are judged when they are reported as a set of nodes or as a 0/1 vector over the later non-input nodes in ascending order (at most 8 nodes); any other encoding is not interpreted",
]


def BOUNDS(tier):
    return ("finder: all labelled graphs n<=4 x every input set x every nonempty output set with |I|<=|O|; "
            + "n=5: every isomorphism class of graphs x every I,O with |I|<=|O|"
            + ("; all labelled graphs n=5" if tier == "thorough" else "")
            + "; bipartite open graphs of 3+4 and 4+4 " + ("and 4+5 and 5+4 " if tier == "thorough" else "") + "nodes: every edge set up to permuting the measured nodes"
            + "; larger open graphs (9..20 nodes): all circulant bipartite layers on 5..8 nodes a side, two and three layers of 3..5, wires, grids, ladders, hubs, and what differs from them in one edge, against "
            "GF(2) elimination that is compared with the definition on small graphs"
            + "; node names: 0..n-1 in either order, signed and distant integers, strings, pairs, and names of several types at once"
            + "; layers compared with the maximally delayed ones, found from the definition"
            + "; combined search (Flow): all bipartite open graphs on 3+3 nodes with arbitrary edges inside the input side and the "
            "output side up to the listed classes (the smallest size where gflow exists without causal flow at |I|=|O|)")


def shards(tier):
    out = [("fnd", n, 0, 1) for n in (1, 2, 3)]
    out += [("fnd", 4, k, 16) for k in range(16)]
    out += [("fndc", 5, k, 32) for k in range(32)]
    out += [("six", 6, k, 16) for k in range(16)]
    out += [("bip", (3, 4), k, 8) for k in range(8)] + [("bip", (4, 4), k, 32) for k in range(32)]
    out += [("larger", tier, k, 32) for k in range(32)]
    if tier == "thorough":
        out += [("bip", (4, 5), k, 128) for k in range(128)] + [("bip", (5, 4), k, 64) for k in range(64)]
        out += [("fnd", 5, k, 128) for k in range(128)]
        out += [("sixfull", 6, k, 64) for k in range(64)]
    return out


def subsets(n):
    for m in range(1 << n):
        yield tuple(v for v in range(n) if m >> v & 1)


def judge(names, n, edges, i, o, res, exists, optimal=True):
    func, po, depth, layers = res
    if (func is None) != (po is None) or (func is None) != (layers is None):
        return "existence is reported inconsistently"
    if func is None:
        return "no gflow reported although one exists" if exists else None
    if not exists:
        return "a gflow is reported although none exists"
    lay = {}
    for v in range(n):
        if names[v] not in layers:
            return f"node {names[v]!r} has no layer"
        lay[v] = layers[names[v]]
    if set(layers) != set(names):
        return "layers mention nodes that do not exist"
    for u in range(n):
        if (lay[u] == 0) != (u in o):
            return f"layer 0 must be exactly the outputs (node {names[u]!r} has layer {lay[u]})"
        for v in range(n):
            if bool(po(names[u], names[v])) != (lay[u] > lay[v]):
                return "order and layers disagree"
    if sorted(set(lay.values())) != list(range(max(lay.values()) + 1)):
        return f"layers are not contiguous: {sorted(set(lay.values()))}"
    if depth != max(lay.values()):
        return f"depth {depth} differs from the number of measured layers {max(lay.values())}"
    if n > 8 and not optimal:
        f, _ = big.causal(n, edges, i, o)
        if any(lay[u] <= lay[w] for u, ws in ref.flow_succ(n, edges, f).items() for w in ws):
            return f"layering {lay} contradicts the causal flow"
    elif n <= 8 and not ref.gflow_exists_for_layers(n, edges, i, o, lay):
        return f"layering {lay} admits no correction sets"
    if optimal:
        best = ref.delayed_layers(n, edges, i, o) if n <= 8 else big.gflow_layers(n, edges, i, o)
        if lay != best:
            return f"layering {lay} does not measure every node as late as possible ({best})"
    a = ref.adj(n, edges)
    for u in range(n):
        if u in o:
            continue
        g = func(names[u])
        if list(names) != list(range(n)):
            continue
        later = {w for w in range(n) if lay[w] < lay[u]}
        cand = sorted(later - set(i))
        if isinstance(g, (set, frozenset)):
            chosen = set(g)
        elif isinstance(g, (int, np.integer)):
            chosen = {int(g)}  # a causal flow: one node
        elif n <= 8 and np.size(g) == len(cand) and all(int(x) in (0, 1) for x in np.ravel(g)):
            chosen = {w for w, x in zip(cand, np.ravel(g)) if int(x)}
        else:
            continue  # an encoding that is not documented
        odd = ref.odd_neighbourhood(a, chosen)
        if not (chosen <= set(cand) and u in odd and odd - {u} <= later):
            return f"the reported correction set {sorted(chosen)} does not correct node {u}"
    return None


# edge attributes given along with a naming: they say nothing about the graph
WEIGHTED = {"str": "half", "far": "zero", "turned": "two", "mixed": "mixed"}


def build(names, edges, naming):
    return lib.gstate(len(names), edges, names=names, weights=WEIGHTED.get(naming, ""))


NAMINGS = {
    "int": lambda n: list(range(n)),
    "str": lambda n: [f"n{(2 * v + 1) % n if n % 2 else v}" for v in range(n)][::-1],
    "turned": lambda n: list(range(n))[::-1],
    "gaps": lambda n: [(-1) ** v * (3 * v + 2) for v in range(n)],  # signed, not contiguous, not ascending
    "far": lambda n: [1000 - 7 * v for v in range(n)],
    "pairs": lambda n: [(v % 2, v // 2) for v in range(n)],
    "mixed": lambda n: [[v, f"m{v}", (v, "x"), v + 0.5, frozenset({v})][v % 5] for v in range(n)],
}


def find(rec, n, edges, i, o, naming):
    names = NAMINGS[naming](n)
    case = {"n": n, "edges": edges, "in": i, "out": o, "naming": naming, "via": "find_gflow"}
    rec.state((n, edges, i, o, naming))
    with rec.case(case):
        exists = ref.has_gflow(n, edges, i, o) if n <= 8 else big.gflow_layers(n, edges, i, o) is not None
        res = quiet(mp.mbqc.flow.find_gflow, build(names, edges, naming), [names[v] for v in i], [names[v] for v in o])
        rec.op(1 + n * n * (res[1] is not None))
        rec.note("with_gflow" if exists else "without_gflow")
        rec.outcome((exists, res[2]))
        err = judge(names, n, edges, i, o, res, exists)
        if err:
            rec.bad(case, err)
        rec.trace(case)


def combined(rec, n, edges, i, o, naming="int"):
    """The Flow object: causal flow if there is one, else gflow, else nothing; layers and depth from the same source."""
    names = NAMINGS[naming](n)
    case = {"n": n, "edges": edges, "in": i, "out": o, "naming": naming, "via": "Flow"}
    rec.state(("F", n, edges, i, o, naming))
    with rec.case(case):
        exists = ref.has_gflow(n, edges, i, o) if n <= 8 else big.gflow_layers(n, edges, i, o) is not None
        fl = quiet(mp.mbqc.flow.Flow, build(names, edges, naming), [names[v] for v in i], [names[v] for v in o])
        rec.op()
        if not exists:
            rec.note("F_without")
            if fl.func is not None or fl.layers is not None or fl.measurement_order is not None:
                rec.bad(case, "a flow is reported although neither kind exists")
            return
        causal = ref.has_causal_flow(n, edges, i, o) if n <= 8 else big.causal(n, edges, i, o) is not None
        rec.note("F_causal" if causal else "F_gflow_only")
        err = judge(names, n, edges, i, o, (fl.func, fl.partial_order, fl.depth, fl.layers_dict), True, not causal)
        if not err:
            back = {x: v for v, x in enumerate(names)}
            layers = [[back[x] for x in layer] for layer in fl.layers]
            if sorted(v for layer in layers for v in layer) != list(range(n)):
                err = f"layers {fl.layers} are not a partition of the nodes"
            elif [sorted(x) for x in layers] != [
                sorted(v for v in range(n) if fl.layers_dict[names[v]] == d) for d in range(fl.depth, -1, -1)
            ]:
                err = f"layers {fl.layers} are not listed first-measured first"
            elif sorted(back[x] for x in fl.measurement_order) != list(range(n)):
                err = f"measurement order {fl.measurement_order} is not a permutation"
            elif any(fl.partial_order(y, x) for x, y in itertools.combinations(fl.measurement_order, 2)):
                err = f"measurement order {fl.measurement_order} is not compatible with the order"
            else:
                for v in range(n):
                    if v not in o and repr(fl(names[v])) != repr(fl.func(names[v])):
                        err = f"called on {names[v]!r} it gives {fl(names[v])!r} instead of {fl.func(names[v])!r}"
        rec.outcome((causal, fl.depth))
        if err:
            rec.bad(case, err)
        rec.trace(case)


def larger(rec, k, m, tier):
    """9..30 nodes: circulant layers, wires, grids and hubs, and what differs from them in one edge."""
    idx = 0
    for name, n, edges, i, o in itertools.chain(big.gflow_families(tier), ((x[0], x[1], e, x[3], x[4]) for x in big.bases(tier) if x[1] < 15 for e in big.nearby(x[1], x[2]))):
        idx += 1
        if idx % m != k or n <= 8:
            continue
        find(rec, n, edges, i, o, "int")
        combined(rec, n, edges, i, o)
        combined(rec, n, edges, tuple(i)[::-1], o, list(NAMINGS)[(idx + 3) % 7])
        find(rec, n, edges, tuple(i)[::-1], tuple(o)[1:] + tuple(o)[:1], list(NAMINGS)[idx % 7])
        if idx % 5 == 0:
            find(rec, n, edges, i[1:], o, "int")
            find(rec, n, edges, (), o, list(NAMINGS)[idx // 5 % 7])
    for q in (1, 2, 3):  # the polynomial reference agrees with the definition
        for mask in range(1 << (q * q)) if k == 0 else ():
            edges = tuple((u, q + b) for u in range(q) for b in range(q) if mask >> (u * q + b) & 1)
            if big.gflow_layers(2 * q, edges, range(q), range(q, 2 * q)) != ref.delayed_layers(2 * q, edges, range(q), range(q, 2 * q)):
                raise HarnessError(f"the references disagree at {edges}")


def explore(shard, rec):
    kind, n, k, m = shard
    if kind == "larger":
        return larger(rec, k, m, n)
    if kind in ("fnd", "fndc"):
        graphs = ref.all_edge_sets(n) if kind == "fnd" else ref.graph_classes(n)
        idx = 0
        for edges in graphs:
            for o in subsets(n):
                if not o:
                    continue
                idx += 1
                if idx % m != k:
                    continue
                for i in subsets(n):
                    if len(i) > len(o):
                        continue
                    find(rec, n, edges, i, o, "int")
                    if n <= 3:
                        for naming in list(NAMINGS)[1:]:
                            find(rec, n, edges, i, o, naming)
                    elif n == 4:
                        find(rec, n, edges, i[::-1], o[::-1], list(NAMINGS)[idx % 7])
    elif kind == "bip":
        # p measured nodes, q outputs, every bipartite edge set up to permuting the measured nodes, inputs = some prefix of them
        p, q = n
        rows = itertools.combinations_with_replacement(range(1 << q), p)
        for idx, rs in enumerate(rows):
            if idx % m != k:
                continue
            edges = tuple((u, p + b) for u in range(p) for b in range(q) if rs[u] >> b & 1)
            for i in (tuple(range(p)), (), (0,)):
                find(rec, p + q, edges, i, tuple(range(p, p + q)), "int")
                if len(i) < 2:
                    find(rec, p + q, edges, i, tuple(range(p, p + q))[::-1], list(NAMINGS)[idx % 7])
            if p == q:
                combined(rec, p + q, edges, tuple(range(p)), tuple(range(p, p + q)))
    else:
        # inputs 0,1,2 outputs 3,4,5: every bipartite edge set, times edges among inputs and among outputs
        bip = [(a, b) for a in range(3) for b in range(3, 6)]
        for mask in range(1 << 9):
            if mask % m != k:
                continue
            cross = tuple(bip[b] for b in range(9) if mask >> b & 1)
            ins = [(), ((0, 1),)] if kind == "six" else [(), ((0, 1),), ((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))]
            outs = [()] if kind == "six" else [(), ((3, 4),), ((3, 4), (3, 5), (4, 5))]
            for e1 in ins:
                for e2 in outs:
                    combined(rec, 6, tuple(sorted(cross + e1 + e2)), (0, 1, 2), (3, 4, 5))
        if k == 0:
            for nn in (2, 3, 4):
                for edges, i, o in ref.open_graph_classes(nn):
                    for naming in NAMINGS:
                        combined(rec, nn, edges, i[::-1] if naming == "far" else i, o, naming)
