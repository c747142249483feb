"""C23  Local Clifford equivalence is decided correctly and the Clifford returned really maps one state to the other."""
import functools
import itertools

import networkx as nx
import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet

ID = "C23"
ASSUMPTIONS = [
    "two graph states on the same qubits are equivalent under local Cliffords if and only if their graphs are related by local complementations (Van den Nest, Dehaene, De Moor 2004)",
    "a Clifford [[a, b], [c, d]] acts on (z, x) columns of a stabilizer, the convention of that paper, which the module implements; qubits are matched by node name, and by position when the names differ",
]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"every ordered pair of labelled graphs n<=4{' and n=5' if t else ', every graph class n=5 against every labelled graph n=5'}, graph classes n={'6 and 7' if t else '6'} against every member of their own orbit "
            f"and against one relabelled representative of every other class; n<=4 with the nodes of either graph inserted in other orders; both output forms; graphs of different sizes and without nodes; circuits as arguments; "
            "larger graphs (7..10 nodes: paths, cycles, stars, complete graphs, grids, ladders, trees, circulants, disjoint unions): against every graph reached by one or two local complementations and chains of up to eight, "
            "against each other and against everything that differs in one edge whenever the entropies of some region differ (the only larger pairs with a known negative answer)")


def shards(tier):
    out = [("all", n, k, 8) for n in (1, 2, 3, 4) for k in range(8)]
    out += [("class5", k, 17) for k in range(17)] if tier != "thorough" else [("all", 5, k, 64) for k in range(64)]
    out += [("orbit", 6, k, 32, 12 if tier != "thorough" else 10**9) for k in range(32)]
    if tier == "thorough":
        out += [("orbit", 7, k, 64, 60) for k in range(64)]
    out += [("insertion", n, k, m) for n, m in ((2, 1), (3, 2), (4, 16)) for k in range(m)]
    return out + [("odd",)] + [("large", k, 48) for k in range(48)]


def local_complement(n, edges, v):
    es = set(edges)
    nb = sorted(ref.adj(n, edges)[v])
    for a, b in itertools.combinations(nb, 2):
        es ^= {(a, b)}
    return frozenset(es)


@functools.lru_cache(maxsize=None)
def orbit(n, edges):
    seen = {edges}
    todo = [edges]
    while todo:
        e = todo.pop()
        for v in range(n):
            f = local_complement(n, tuple(sorted(e)), v)
            if f not in seen:
                seen.add(f)
                todo.append(f)
    return frozenset(seen)


def same_orbit(n, e1, e2):
    return frozenset(e2) in orbit(n, frozenset(e1))


def rank(rows):
    return ref.gf2_rank(int("".join(map(str, r)), 2) for r in rows)


def maps(n, e1, e2, locals_):
    """Do the single-qubit Cliffords map the stabilizer group of e1 onto that of e2 (modulo signs)?"""
    def gens(e):
        a = ref.adj(n, e)
        return np.array([[int(w in a[v]) for w in range(n)] for v in range(n)]), np.eye(n, dtype=int)

    z1, x1 = gens(e1)
    z2, x2 = gens(e2)
    for m in locals_:
        m = np.asarray(m)
        if m.shape != (2, 2) or not np.isin(m, (0, 1)).all() or (m[0, 0] * m[1, 1] + m[0, 1] * m[1, 0]) % 2 != 1:
            return False
    z = np.zeros_like(z1)
    x = np.zeros_like(x1)
    for q, m in enumerate(locals_):
        (a, b), (c, d) = np.asarray(m).tolist()
        z[:, q] = (a * z1[:, q] + b * x1[:, q]) % 2
        x[:, q] = (c * z1[:, q] + d * x1[:, q]) % 2
    both = np.vstack([np.hstack([z, x]), np.hstack([z2, x2])])
    return rank(np.hstack([z, x])) == n and rank(both) == n


def cut_profile(n, edges):
    """Entropies of all regions of at most half the nodes: a local Clifford invariant."""
    a = ref.adj(n, edges)
    rows = [sum(1 << w for w in a[v]) for v in range(n)]
    out = {}
    for size in range(1, n // 2 + 1):
        for r in itertools.combinations(range(n), size):
            rest = sum(1 << v for v in range(n) if v not in r)
            out[r] = ref.gf2_rank(rows[v] & rest for v in r)
    return out


def families():
    for n in (7, 8, 9, 10):
        path = [(v, v + 1) for v in range(n - 1)]
        yield n, path
        yield n, sorted(path + [(0, n - 1)])
        yield n, [(n // 2, v) if n // 2 < v else (v, n // 2) for v in range(n) if v != n // 2]
        yield n, [(v, (v - 1) // 2)[::-1] for v in range(1, n)]
        yield n, [(v, v + 1) for v in range(n - 1) if v != n // 2]
        yield n, sorted({tuple(sorted((v, (v + d) % n))) for v in range(n) for d in (1, 3)})
        yield n, path[:-1]  # the last node on its own
        if n % 2 == 0:
            yield n, list(big.ladder(n // 2)[1])
            yield n, list(big.grid(2, n // 2)[1])
            yield n, [(v, v + n // 2) for v in range(n // 2)]
    yield 8, [(u, v) for u in range(4) for v in range(4, 8)]
    yield 9, list(big.grid(3, 3)[1])
    yield 10, list(big.circulant(5, 7)[1])


def large(rec, k, m):
    fam = [(n, tuple(sorted(map(tuple, e)))) for n, e in families()]
    idx = 0
    for n, e1 in fam:
        reach = {}
        todo = [(e1, ())]
        for e, seq in todo:
            for v in range(n):
                f = tuple(sorted(local_complement(n, e, v)))
                if f not in reach and f != e1 and len(seq) < 2:
                    reach[f] = seq + (v,)
                    todo.append((f, seq + (v,)))
        for start in range(0, n, 3):  # longer chains
            e = e1
            for step in range(8):
                e = tuple(sorted(local_complement(n, e, (start + 3 * step) % n)))
                if step > 2:
                    reach.setdefault(e, "chain")
        for e2 in [e1] + list(reach):
            idx += 1
            if idx % m == k:
                check(rec, n, e1, e2, want=True)
                if idx // m % 4 == 0:
                    check(rec, n, e2, e1, want=True)
        prof = cut_profile(n, e1)
        for e2 in [e for q, e in fam if q == n and e != e1] + list(big.big_toggles(n, e1)):
            idx += 1
            if idx % m == k:
                if cut_profile(n, e2) != prof:
                    check(rec, n, e1, e2, want=False)
                    rec.note("inequivalent")
                else:
                    rec.note("undecided")


def check(rec, n, e1, e2, names=False, inserted=None, want=None):
    e1, e2 = tuple(sorted(map(tuple, e1))), tuple(sorted(map(tuple, e2)))
    case = {"n": n, "left": list(map(list, e1)), "right": list(map(list, e2))}
    if inserted:
        case["nodes inserted"] = list(map(list, inserted))
    rec.state((n, e1, e2, inserted))
    with rec.case(case):
        g, h = lib.gstate(n, e1), lib.gstate(n, e2, names=[f"w{v}" for v in range(n)] if names else None)
        if inserted:
            g, h = lib.gstate(n, e1, nodes=inserted[0]), lib.gstate(n, e2, nodes=inserted[1])
        want = same_orbit(n, e1, e2) if want is None else want
        ans = quiet(mp.utils.are_lc_equivalent, g, h)
        glob = quiet(mp.utils.are_lc_equivalent, g, h, clifford_form="global")
        rec.op(2)
        if bool(ans[0]) != want or bool(glob[0]) != want:
            rec.bad(case, f"reported {'' if ans[0] else 'not '}equivalent, the graphs are {'' if want else 'not '}related by local complementations")
        elif want:
            if inserted:  # the Clifford lists the qubits as the first graph does
                order = list(g.nodes)
                ans = (ans[0], [ans[1][order.index(q)] for q in range(n)])
                at = [order.index(q) for q in range(n)]
                glob = (glob[0], np.asarray(glob[1])[np.ix_(at + [n + q for q in at], at + [n + q for q in at])])
            if len(ans[1]) != n or not maps(n, e1, e2, ans[1]):
                rec.bad(case, f"the Clifford {[np.asarray(m).tolist() for m in ans[1]]} does not map one state to the other")
            m = np.asarray(glob[1])
            if m.shape != (2 * n, 2 * n) or not maps(n, e1, e2, [[[m[q, q], m[q, n + q]], [m[n + q, q], m[n + q, n + q]]] for q in range(n)]):
                rec.bad(case, "the global form of the Clifford does not map one state to the other")
            else:
                for r in range(2 * n):
                    for c in range(2 * n):
                        if r % n != c % n and m[r, c]:
                            rec.bad(case, "the global form is not local")
                            return
        elif ans[1] is not None or glob[1] is not None:
            rec.bad(case, "a Clifford is returned for inequivalent states")
        if sorted(map(sorted, g.edges())) != sorted(map(list, e1)):
            rec.bad(case, "the argument was changed")
        rec.trace(case)
        rec.outcome((n, want))


def explore(shard, rec):
    kind = shard[0]
    if kind == "large":
        large(rec, *shard[1:])
    elif kind == "all":
        _, n, k, m = shard
        graphs = ref.all_edge_sets(n)
        for idx, e1 in enumerate(graphs):
            if idx % m == k:
                for e2 in graphs:
                    check(rec, n, e1, e2, names=n == 3)
    elif kind == "insertion":
        _, n, k, m = shard
        perms = list(itertools.permutations(range(n)))
        some = perms if n < 4 else [perms[0], (1, 0, 2, 3), (3, 1, 0, 2), (3, 2, 1, 0)]
        for idx, e1 in enumerate(ref.all_edge_sets(n)):
            if idx % m == k:
                for e2 in ref.all_edge_sets(n):
                    for a, b in itertools.product(some[:2] if n == 4 else some, some):
                        if a != b:
                            check(rec, n, e1, e2, inserted=(a, b))
    elif kind == "class5":
        _, k, m = shard
        for idx, e1 in enumerate(ref.graph_classes(5)):
            if idx % m == k:
                for e2 in ref.all_edge_sets(5):
                    check(rec, 5, e1, e2)
    elif kind == "orbit":
        _, n, k, m, cap = shard
        classes = [tuple(e) for e in ref.graph_classes(n)]
        for idx, e1 in enumerate(classes):
            if idx % m != k:
                continue
            orb = sorted(tuple(sorted(e)) for e in orbit(n, frozenset(e1)))
            step = max(1, len(orb) // cap)
            for e2 in orb[::step]:
                check(rec, n, e1, e2)
            perm = [(v + 2) % n for v in range(n)]
            others = classes if n < 7 else classes[idx % 9::9]
            for e2 in others:
                check(rec, n, e1, [tuple(sorted((perm[u], perm[v]))) for u, v in e2])
    else:
        odd(rec)


def odd(rec):
    for a in range(0, 5):
        for b in range(0, 5):
            if a == b and a:
                continue
            case = {"sizes": [a, b]}
            rec.state((a, b))
            with rec.case(case):
                for form in ("tensor", "global"):
                    got = quiet(mp.utils.are_lc_equivalent, nx.path_graph(a), nx.path_graph(b), clifford_form=form)
                    rec.op()
                    if got[0] or got[1] is not None:
                        rec.bad(case, "states of different sizes are equivalent")
                rec.trace(case)
    for n, e1 in ((3, ((0, 1), (1, 2))), (4, ((0, 1), (1, 2), (2, 3))), (4, ((0, 1), (0, 2), (0, 3)))):
        for e2 in ref.all_edge_sets(n):
            case = {"circuit": True, "n": n, "left": list(map(list, e1)), "right": list(map(list, e2))}
            rec.state(("circ", n, e1, e2))
            with rec.case(case):
                c = lib.circuit(n, e1, (0,), (n - 1,))
                got = quiet(mp.utils.are_lc_equivalent, c, lib.gstate(n, e2))
                rec.op()
                if bool(got[0]) != same_orbit(n, e1, e2) or (got[0] and not maps(n, e1, e2, got[1])):
                    rec.bad(case, "equivalence of a circuit's graph state is wrong")
                rec.trace(case)
