"""C20  Stabilizers, entanglement entropy and equality of graph states are those of the quantum state."""
import itertools

import networkx as nx
import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import HarnessError, quiet

ID = "C20"
ASSUMPTIONS = [
    "simple graphs without self loops; edge attributes (a weight, say) do not change the state; entropies in bits; the entropy of a region is asked for with the rest of the state (given or not) as the other region, or with a part of it (then that of the graph state on the two regions)",
    "two graph states are equal when their graphs are isomorphic (what the class documents by using nx.is_isomorphic)",
]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"stabilizers: every labelled graph n<=5 in three node orders, two namings and with edge attributes (weights 1/2, 0, 2, mixed){' and every graph class n=6' if t else ''}, against the state vector; "
            f"entropy: every labelled graph n<={5 if t else 4} and every graph class n={'6,7' if t else '5,6'} x every region (given in two orders), against Schmidt ranks and flat spectra of the state vector; "
            "equality: every pair of labelled graphs n<=4, every pair of graph classes n=5,6{' and n=7 with equal degrees' if t else ''}, and every class n=5 against relabelled ones; circuits: stabilizers and index mapping of every connected open graph class n<=4; "
            "larger graphs (7..20 nodes: wires, grids, ladders, hubs, stars, cycles, matchings, complete and circulant graphs): stabilizers, entropy of every interval and its complement, every second, every pair and "
            "every region of the first ten nodes (GF(2) rank of the cut, compared with the state vector on all graphs n<=4), equality with every graph that differs in one edge")


def shards(tier):
    t = tier == "thorough"
    out = [("stab", n, k, 8) for n in (1, 2, 3, 4, 5) for k in range(8 if n > 3 else 1) for _ in [0]]
    out = [(a, n, k, m if n > 3 else 1) for a, n, k, m in out]
    out += [("ent", n, k, 8) for n in ((1, 2, 3, 4, 5) if t else (1, 2, 3, 4)) for k in range(8)]
    out += [("entclass", n, k, 8) for n in ((6, 7) if t else (5, 6)) for k in range(8)]
    out += [("eq", k, 8, tier) for k in range(8)] + [("circ", n) for n in (2, 3, 4)]
    if t:
        out += [("stabclass", 6, k, 8) for k in range(8)]
    return out + [("large", k, 16) for k in range(16)]


def vector(n, edges):
    """Amplitudes of the graph state, qubit v = axis v."""
    t = np.ones([2] * n) / np.sqrt(2) ** n
    for u, v in edges:
        t = ref.cz_phase(t, u, v)
    return t.reshape(-1)


ORDERS = {"sorted": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1], "shuffled": lambda n: [(2 * k + 1) % n if n % 2 else (k + n // 2) % n for k in range(n)]}


def explore(shard, rec):
    kind = shard[0]
    if kind in ("stab", "stabclass"):
        stab(rec, *shard)
    elif kind in ("ent", "entclass"):
        ent(rec, *shard)
    elif kind == "large":
        large(rec, *shard[1:])
    elif kind == "eq":
        eq(rec, *shard[1:])
    else:
        circ(rec, shard[1])


def stab(rec, kind, n, k, m):
    graphs = ref.all_edge_sets(n) if kind == "stab" else [e for e in ref.graph_classes(n)]
    for idx, edges in enumerate(graphs):
        if idx % m != k:
            continue
        psi = vector(n, edges)
        a = ref.adj(n, edges)
        for oname, order in ORDERS.items():
            weighted = [(None, w) for w in list(lib.WEIGHTS)[1:]] if n < 5 else [(None, list(lib.WEIGHTS)[1 + idx // m % 4])]
            for names, weights in [(None, ""), ([f"q{(7 * v) % 5}{v}" for v in range(n)], "")] + weighted:
                case = {"n": n, "edges": list(map(list, edges)), "order": oname, "names": names is not None, "weights": weights}
                rec.state((n, edges, oname, names is not None, weights))
                with rec.case(case):
                    g = lib.gstate(n, edges, order(n), names, weights)
                    before = (list(g.nodes()), sorted(map(sorted, g.edges())))
                    op = quiet(g.stabilizers)
                    rec.op(3)
                    nodes = order(n)
                    if dict(g.index_mapping()) != {(names[v] if names else v): i for i, v in enumerate(nodes)}:
                        rec.bad(case, f"index mapping {g.index_mapping()}")
                    want = ["".join("X" if w == v else "Z" if w in a[v] else "I" for w in nodes) for v in nodes]
                    got = op.txt.split("\n")
                    if got != want:
                        rec.bad(case, f"stabilizers {got}, should be {want}")
                    else:
                        # the oracle itself: every row fixes the state
                        for row in got:
                            p = ref.pauli_matrix("".join(row[nodes.index(v)] for v in range(n)))
                            if not np.allclose(p @ psi, psi):
                                rec.bad(case, f"{row} does not stabilise the state")
                    if len(g) != n or (list(g.nodes()), sorted(map(sorted, g.edges()))) != before:
                        rec.bad(case, "asking for the stabilizers changed the graph state")
                    rec.trace(case)
                    rec.outcome(tuple(got))


def entropy_of(psi, n, region):
    rest = [v for v in range(n) if v not in region]
    t = psi.reshape([2] * n).transpose(list(region) + rest).reshape(2 ** len(region), -1)
    p = np.linalg.svd(t, compute_uv=False) ** 2
    p = p[p > 1e-12]
    return float(-(p * np.log2(p)).sum())


def ent(rec, kind, n, k, m):
    graphs = ref.all_edge_sets(n) if kind == "ent" else list(ref.graph_classes(n))
    for idx, edges in enumerate(graphs):
        if idx % m != k:
            continue
        psi = vector(n, edges)
        names = [f"v{(3 * v) % 7}" for v in range(n)]
        for bits in itertools.product((0, 1), repeat=n):
            region = [v for v in range(n) if bits[v]]
            rest = [v for v in range(n) if not bits[v]]
            want = entropy_of(psi, n, region)
            case = {"n": n, "edges": list(map(list, edges)), "region": region}
            rec.state((n, edges, bits))
            with rec.case(case):
                g = lib.gstate(n, edges)
                h = lib.gstate(n, edges, list(range(n))[::-1], names, list(lib.WEIGHTS)[idx % 5])
                for what, got in (
                    ("", quiet(mp.mbqc.states.graphstate.entanglement_entropy, g, list(region))),
                    ("with the rest given", quiet(mp.mbqc.states.graphstate.entanglement_entropy, g, list(region), list(rest))),
                    ("reversed region", quiet(mp.mbqc.states.graphstate.entanglement_entropy, g, region[::-1])),
                    ("other names", quiet(mp.mbqc.states.graphstate.entanglement_entropy, h, [names[v] for v in region])),
                    ("of the rest", quiet(mp.mbqc.states.graphstate.entanglement_entropy, g, list(rest))),
                ):
                    rec.op()
                    if abs(float(got) - want) > 1e-9:
                        rec.bad({**case, "form": what}, f"entropy {got}, should be {want:.6f}")
                # a second region smaller than the rest: the state of the two regions alone (the rest measured away in Z)
                for keep in itertools.product((0, 1), repeat=len(rest)):
                    other = [v for v, b in zip(rest, keep) if b]
                    if len(other) == len(rest):
                        continue
                    both = region + other
                    sub = tuple((both.index(u), both.index(v)) for u, v in edges if u in both and v in both)
                    got = quiet(mp.mbqc.states.graphstate.entanglement_entropy, g, list(region), other[::-1])
                    rec.op()
                    w2 = entropy_of(vector(len(both), sub), len(both), list(range(len(region)))) if both else 0.0
                    if abs(float(got) - w2) > 1e-9:
                        rec.bad({**case, "other": other}, f"entropy {got} between the two regions, should be {w2:.6f}")
                if sorted(map(sorted, g.edges())) != sorted(map(sorted, edges)):
                    rec.bad(case, "asking for the entropy changed the graph state")
                rec.trace(case)
                rec.outcome(round(want, 6))


def cut_rank(n, edges, region):
    """Entropy in bits of a region of a graph state: GF(2) rank of the edges across the cut."""
    rest = [v for v in range(n) if v not in region]
    a = ref.adj(n, edges)
    return ref.gf2_rank(sum(1 << x for x, w in enumerate(rest) if w in a[v]) for v in region)


def families():
    for name, n, edges, _, _ in big.bases():
        if n >= 7:
            yield name, n, edges
    for n in (7, 9, 12):
        yield f"star {n}", n, tuple((0, v) for v in range(1, n))
        yield f"cycle {n}", n, tuple(sorted([(v, v + 1) for v in range(n - 1)] + [(0, n - 1)]))
        yield f"complete {n}", n, tuple(itertools.combinations(range(n), 2))
        yield f"matching {n}", n, tuple((v, v + n // 2) for v in range(n // 2))
        yield f"bipartite {n}", n, tuple((u, v) for u in range(n // 2) for v in range(n // 2, n))
        yield f"staircase {n}", n, tuple((u, v) for u in range(n // 2) for v in range(n // 2 + u, n))
    for q, mask in ((5, 7), (6, 11), (7, 11), (8, 19)):
        yield f"circulant {q}", *big.circulant(q, mask)[:2]


def large(rec, k, m):
    entropy = mp.mbqc.states.graphstate.entanglement_entropy
    for idx, (name, n, edges) in enumerate(families()):
        if idx % m != k:
            continue
        base = {"graph": name, "n": n}
        names = [f"v{(5 * v) % 23}_{v}" for v in range(n)]
        a = ref.adj(n, edges)
        order = ORDERS["shuffled"](n)
        if sorted(order) != list(range(n)):
            order = list(range(n))[::-1]
        with rec.case({**base, "check": "stabilizers"}):
            for nodes, nm, weights in ((list(range(n)), None, ""), (order, None, "mixed"), (order, names, ""), (order, names, "half"), (list(range(n)), None, "zero")):
                g = lib.gstate(n, edges, nodes, nm, weights)
                rec.op(2)
                want = ["".join("X" if w == v else "Z" if w in a[v] else "I" for w in nodes) for v in nodes]
                if quiet(g.stabilizers).txt.split("\n") != want or dict(g.index_mapping()) != {(nm[v] if nm else v): i for i, v in enumerate(nodes)}:
                    rec.bad({**base, "check": "stabilizers"}, "stabilizers or index mapping are wrong")
        g, h = lib.gstate(n, edges), lib.gstate(n, edges, order, names)
        regions = [tuple(range(x, y)) for x in range(n) for y in range(x + 1, n + 1)]
        regions += [tuple(range(0, n, 2)), tuple(range(1, n, 2)), tuple(range(0, n, 3))] + list(itertools.combinations(range(n), 2))
        regions += [tuple(v for v in range(n) if v not in r) for r in regions]
        regions += [tuple(v for v in range(min(n, 8)) if b >> v & 1) + ((n - 1,) if b & 1 and n > 8 else ()) for b in range(1 << min(n, 8))]
        for r in dict.fromkeys(regions):
            case = {**base, "region": r}
            rec.state((name, r))
            with rec.case(case):
                want = cut_rank(n, edges, r)
                rec.op(3)
                got = [quiet(entropy, g, list(r)), quiet(entropy, h, [names[v] for v in r[::-1]]), quiet(entropy, g, list(r), [v for v in range(n) if v not in r])]
                if any(abs(float(x) - want) > 1e-9 for x in got):
                    rec.bad(case, f"entropy {got}, should be {want}")
                if r and len(r) < n:
                    other = [v for v in range(n) if v not in r][: (n - len(r) + 1) // 2]
                    both = list(r) + other
                    sub = [(both.index(u), both.index(v)) for u, v in edges if u in both and v in both]
                    x, w2 = quiet(entropy, g, list(r), other), cut_rank(len(both), sub, tuple(range(len(r))))
                    if abs(float(x) - w2) > 1e-9:
                        rec.bad({**case, "other": other}, f"entropy {x} between the two regions, should be {w2}")
                rec.outcome(want)
        deg = sorted(len(a[v]) for v in range(n))
        with rec.case({**base, "check": "equality"}):
            rec.op(2)
            if n <= 12 and (not (g == h) or g != h or not g == quiet(g.copy)):
                rec.bad({**base, "check": "equality"}, "a graph state is not equal to a copy or a renamed one")
            for other in big.big_toggles(n, edges):
                rec.op()
                if g == lib.gstate(n, other) or not g != lib.gstate(n, other):
                    rec.bad({**base, "check": "equality", "other": other}, "graph states with different numbers of edges are equal")
                    break
        rec.trace(base)
    if k == 0:
        for n in (2, 3, 4):
            for edges in ref.all_edge_sets(n):
                psi = vector(n, edges)
                for b in range(1 << n):
                    r = [v for v in range(n) if b >> v & 1]
                    if abs(entropy_of(psi, n, r) - cut_rank(n, edges, r)) > 1e-9:
                        raise HarnessError("the references disagree")


def eq(rec, k, m, tier):
    graphs = [(n, e) for n in (1, 2, 3, 4) for e in ref.all_edge_sets(n)]
    objs = [lib.gstate(n, e) for n, e in graphs]
    canon = [(n, ref.canonical_graph(n, e)) for n, e in graphs]
    for i in range(k, len(graphs), m):
        for j in range(len(graphs)):
            case = {"left": [graphs[i][0], list(map(list, graphs[i][1]))], "right": [graphs[j][0], list(map(list, graphs[j][1]))]}
            rec.state((i, j))
            with rec.case(case):
                rec.op()
                want = canon[i] == canon[j]
                if bool(objs[i] == objs[j]) != want or bool(objs[i] != objs[j]) == want:
                    rec.bad(case, f"equality is {objs[i] == objs[j]}, isomorphic: {want}")
                rec.trace(case)
                rec.outcome(want)
    for n in (5, 6, 7) if tier == "thorough" else (5, 6):
        cl = list(ref.graph_classes(n))
        degs = [sorted(map(len, ref.adj(n, e).values())) if isinstance(ref.adj(n, e), dict) else sorted(map(len, ref.adj(n, e))) for e in cl]
        gs = [lib.gstate(n, e) for e in cl]
        for x in range(k, len(cl), m):
            for y in range(len(cl)):
                if n == 7 and degs[x] != degs[y]:
                    continue
                case = {"left": [n, list(map(list, cl[x]))], "right": [n, list(map(list, cl[y]))]}
                rec.state((n, x, y))
                with rec.case(case):
                    rec.op()
                    if bool(gs[x] == gs[y]) != (x == y) or bool(gs[x] != gs[y]) == (x == y):
                        rec.bad(case, f"equality is {gs[x] == gs[y]}, isomorphic: {x == y}")
                    rec.trace()
                    rec.outcome(x == y)
    for idx, edges in enumerate(ref.graph_classes(5)):
        if idx % m != k:
            continue
        with rec.case({"edges": list(map(list, edges))}):
            g = lib.gstate(5, edges)
            h = lib.gstate(5, edges, [4, 2, 0, 1, 3], ["a", "e", "c", "b", "d"])
            rec.op(3)
            if not (g == h) or not (g == quiet(g.copy)) or not isinstance(quiet(g.copy), mp.GraphState):
                rec.bad({"edges": list(map(list, edges))}, "a graph state is not equal to a copy or a renamed one")


def circ(rec, n):
    for edges, i, o in ref.open_graph_classes(n, connected=True):
        if len(i) != len(o):
            continue
        case = {"n": n, "edges": list(map(list, edges)), "inputs": list(i), "outputs": list(o)}
        rec.state(("circ", n, edges, i, o))
        with rec.case(case):
            for order in (None, list(range(n))[::-1]):
                c = lib.circuit(n, edges, i, o, order)
                nodes = list(c.graph.nodes())
                mp_ = quiet(c.index_mapping)
                op = quiet(c.stabilizers)
                rec.op(2)
                a = {v: set(c.graph.neighbors(v)) for v in nodes}
                want = ["".join("X" if w == v else "Z" if w in a[v] else "I" for w in nodes) for v in nodes]
                if op.txt.split("\n") != want or dict(mp_) != {v: x for x, v in enumerate(nodes)}:
                    rec.bad(case, f"stabilizers of the circuit {op.txt.split()} should be {want}, mapping {dict(mp_)}")
            rec.trace(case)
