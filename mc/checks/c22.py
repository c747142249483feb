"""C22  The Lie algebra of a circuit is generated by what its measurement angles really do."""
import itertools

import numpy as np

import mentpy as mp
from mc import big as families, lib, ref
from mc.core import quiet, raises

ID = "C22"
ASSUMPTIONS = [
    "circuits with causal flow and XY-plane measurements (the module is about these); Pauli operators modulo phases",
    "the generator of a measured node is the Pauli P with U(theta) U(0)^-1 = exp(-i theta P / 2) up to phase at the all-zero angles; since U is affine in exp(i theta) two angles determine it",
]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"generators: every open graph class with causal flow n<={6 if t else 5} (n={'6' if t else '5'} connected) with inputs and outputs of equal size, in sorted and shuffled labels and listing orders; "
            f"completion: every list of one to {4 if t else 3} distinct Pauli operators on 1..2 qubits, pairs on 3 qubits, against closure under commutators; circuits of 6..12 nodes and at most 4 outputs (wires, grids, ladders, hubs and everything with a flow that differs from them in one edge); the algebras of all circuits above with at most 3 outputs; dimension formulas n<=64; "
            "completion of larger lists (3..5 qubits, 5..12 generators: chains, rings, commuting lists with one or two operators that do not commute at every place, up to su(8)), in five orders, with repetitions; "
            "with every small iteration limit the answer is complete or refused, also for the algebras of grid circuits of up to 3x5 nodes (limits 1..39, 100..10^6 and the default)")


def shards(tier):
    t = tier == "thorough"
    out = [("gens", n, k, 48 if n >= 5 else 8) for n in ((2, 3, 4, 5, 6) if t else (2, 3, 4, 5)) for k in range(48 if n >= 5 else 8)]
    out += [("close", n, r, k, 12) for n, r in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(2, 4)] if t else []) for k in range(12)]
    out += [("many", k, 24) for k in range(24)] + [("limit",)] + [("climit", k) for k in range(len(LIMIT_GRIDS))] + [("bigger", k, 16) for k in range(16)]
    return out + [("templates",), ("dims",)]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


def word(row):
    n = len(row) // 2
    return "".join("IXZY"[int(row[i]) + 2 * int(row[n + i])] for i in range(n))


def words(op):
    return [word(r) for r in np.array(op.matrix, dtype=int)]


PAULIS = {n: {"".join(w): ref.pauli_matrix("".join(w)) for w in itertools.product("IXYZ", repeat=n)} for n in (1, 2, 3, 4)}


def generators(n, edges, i, o, outputc):
    """node -> Pauli on the outputs, from the pattern's own map."""
    base = {v: ("XY", 0.0) for v in outputc}
    u0 = ref.branch_map(n, edges, i, o, base)
    u0 = u0 / np.sqrt(abs(np.trace(u0.conj().T @ u0)) / len(u0))
    out = {}
    for v in outputc:
        u = ref.branch_map(n, edges, i, o, {**base, v: ("XY", np.pi)})
        w = u @ u0.conj().T
        best = [p for p, m in PAULIS[len(o)].items() if ref.proportional(w, m)]
        assert len(best) == 1, (n, edges, i, o, v)
        # the oracle: a generic angle is the rotation about that Pauli
        t = 0.83
        g = ref.branch_map(n, edges, i, o, {**base, v: ("XY", t)}) @ u0.conj().T
        p = PAULIS[len(o)][best[0]]
        eye = np.eye(len(p))
        assert any(ref.proportional(g, np.cos(t / 2) * eye - s * 1j * np.sin(t / 2) * p) for s in (1, -1)) or best[0] == "I" * len(o)
        out[v] = best[0]
    return out


def closure(ws):
    have = list(ws)
    seen = set(have)
    k = 0
    while k < len(have):
        for j in range(k):
            a, b = have[k], have[j]
            if sum(x != y and x != "I" and y != "I" for x, y in zip(a, b)) % 2:
                c = "".join("IXZY"["IXZY".index(x) ^ "IXZY".index(y)] for x, y in zip(a, b))
                if c not in seen:
                    seen.add(c)
                    have.append(c)
        k += 1
    return seen


def check_circuit(rec, case, c, n, edges, i, o, algebra=True):
    want = generators(n, edges, i, o, list(c.outputc))
    before = lib.view_of(c)
    full = quiet(mp.utils.calculate_complete_gens_lie_algebra, c)
    gens = quiet(mp.utils.calculate_gens_lie_algebra, c)
    rec.op(2)
    nodes = list(c.graph.nodes())
    rows = words(full)
    if len(rows) != len(want):
        rec.bad(case, f"{len(rows)} operators for {len(want)} measured nodes")
        return
    for v, row in zip(c.outputc, rows):
        onto = "".join(row[nodes.index(x)] for x in c.output_nodes)
        if onto != want[v]:
            rec.bad(case, f"node {v} generates {want[v]} on the outputs, reported {onto} (from {row})")
            return
    ordered = list(dict.fromkeys(want[v] for v in c.outputc))
    got = words(gens)
    if len(set(got)) != len(got) or set(got) != set(ordered):
        rec.bad(case, f"generators {got}, should be {ordered}")
    if algebra:
        alg = words(quiet(mp.utils.calculate_lie_algebra, c))
        rec.op()
        full_set = closure(ordered) | {"I" * len(o)}
        if len(set(alg)) != len(alg) or set(alg) != full_set:
            rec.bad(case, f"Lie algebra has {len(set(alg))} elements {sorted(alg)[:8]}, should have {len(full_set)}")
        rec.outcome((len(o), len(full_set)))
    d = lib.diff(lib.view_of(c), before)
    if d:
        rec.bad(case, f"the circuit was changed: {d}")
    rec.outcome(tuple(ordered))


def do_gens(rec, n, k, m):
    big = n >= 5
    for idx, (edges, i, o) in enumerate(ref.open_graph_classes(n, connected=big)):
        if idx % m != k or len(i) != len(o) or len(o) >= n or len(o) > 3:
            continue
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        lists = [(i, o)] if len(i) == 1 or n >= 6 else [(i, o), (i[::-1], o), (i, o[::-1])]
        for il, ol in lists:
            for order in (None, list(range(n))[::-1]):
                case = {"n": n, "edges": list(map(list, edges)), "inputs": list(il), "outputs": list(ol), "reversed": order is not None}
                rec.state((n, edges, il, ol, order is not None))
                with rec.case(case):
                    c = lib.circuit(n, edges, il, ol, order)
                    check_circuit(rec, case, c, n, edges, il, ol, algebra=order is None)
                    rec.trace(case)


def do_close(rec, n, r, k, m):
    ws = ["".join(w) for w in itertools.product("IXYZ", repeat=n)]
    for idx, combo in enumerate(itertools.permutations(ws, r) if (n, r) in ((1, 1), (1, 2), (1, 3), (2, 2)) else itertools.combinations(ws, r)):
        if idx % m != k:
            continue
        case = {"generators": list(combo)}
        rec.state(combo)
        with rec.case(case):
            op = mp.PauliOp(list(combo))
            alg = quiet(mp.utils.lie_algebra_completion, op)
            rec.op()
            got = words(alg)
            want = closure(combo) | {"I" * n}
            if len(set(got)) != len(got) or set(got) != want:
                rec.bad(case, f"completion has {sorted(got)[:10]}, should be {sorted(want)[:10]} ({len(want)})")
            if words(op) != list(combo) or op.txt != "\n".join(combo):
                rec.bad(case, "the caller's generators were changed")
            rep = mp.PauliOp(list(combo) + list(combo)[::-1])
            u = words(quiet(mp.utils.remove_repeated_ops, rep))
            rec.op()
            if u != list(combo) or words(rep) != list(combo) + list(combo)[::-1]:
                rec.bad(case, f"removing repetitions gives {u}")
            rec.trace(case)
            rec.outcome(len(want))


def at(n, **letters):
    w = ["I"] * n
    for k, c in letters.items():
        w[int(k[1:])] = c
    return "".join(w)


def many_lists():
    for n in (3, 4, 5):
        x = [at(n, **{f"q{v}": "X"}) for v in range(n)]
        z = [at(n, **{f"q{v}": "Z"}) for v in range(n)]
        zz = [at(n, **{f"q{v}": "Z", f"q{v + 1}": "Z"}) for v in range(n - 1)]
        yield "transverse chain", [g for p in zip(x, zz + [None]) for g in p if g]
        if n < 5:
            yield "ring", x + zz + [at(n, q0="Z", **{f"q{n - 1}": "Z"})]
        for v in range(n):
            yield f"commuting and X{v}", z + zz + [x[v]]
            yield f"X{v} and commuting", [x[v]] + z + zz
            yield f"X{v} in the middle", z + [x[v]] + zz
        yield "all commuting", z + zz + ["Z" * n] + (["ZIZ" + "I" * (n - 3)])
        yield "commuting and two", z + zz + [x[0], "X" * n]
        if n == 3:
            yield "chain and fields", [g for p in zip(x, zz + [None]) for g in p if g] + [z[0]]
            yield "all of su(8)", x + zz + z
        yield "last anticommutes with all", z[:] + ["X" * n]


def do_many(rec, k, m):
    idx = 0
    for name, gens in many_lists():
        n, r = len(gens[0]), len(gens)
        want = closure(gens) | {"I" * n}
        orders = [gens, gens[::-1], gens[1:] + gens[:1], gens[-1:] + gens[:-1], gens[::2] + gens[1::2]]
        if len(want) > 40:
            orders = orders[:2]
        for o, g in enumerate(orders + [gens + gens[:2]] * (len(want) < 40)):
            idx += 1
            if idx % m != k:
                continue
            case = {"generators": g, "family": name}
            rec.state(tuple(g))
            with rec.case(case, limit=300):
                op = mp.PauliOp(list(g))
                got = words(quiet(mp.utils.lie_algebra_completion, op, max_iter=10**6))
                rec.op()
                if set(got) != want or (o < 5 and len(set(got)) != len(got)):
                    rec.bad(case, f"completion has {len(set(got))} operators, should have {len(want)}")
                if words(op) != list(g):
                    rec.bad(case, "the caller's generators were changed")
                rec.outcome((name, len(want)))
                rec.trace(case)


def do_limit(rec):
    for gens in (["X", "Z"], ["X", "Y", "Z"], ["XI", "ZZ", "IX"], ["XI", "ZZ", "IX", "ZI"], ["XII", "ZZI", "IXI", "IZZ", "IIX"], ["ZZ", "ZI", "IZ"]):
        want = closure(gens) | {"I" * len(gens[0])}
        for limit in list(range(1, 60)) + [100, 200, 500, 999, 1001, 5000]:
            case = {"generators": gens, "max_iter": limit}
            rec.state((tuple(gens), limit))
            with rec.case(case):
                bad, got = raises(mp.utils.lie_algebra_completion, mp.PauliOp(list(gens)), limit)
                rec.op()
                rec.note("limit_refused" if bad else "limit_enough")
                if bad and not isinstance(got, ValueError):
                    rec.bad(case, f"refused with {type(got).__name__}")
                elif not bad and set(words(got)) != want:
                    rec.bad(case, "an incomplete algebra is returned as complete")
                elif bad and limit >= 5000:
                    rec.bad(case, "refused although the limit is far away")
                rec.trace(case)


LIMIT_GRIDS = [(1, 4), (2, 3), (2, 4), (2, 5), (3, 3), (3, 4), (3, 5)]


def do_climit(rec, k):
    """The limit given for the algebra of a circuit is the one that counts."""
    rows, cols = LIMIT_GRIDS[k]
    c = quiet(mp.templates.grid_cluster, rows, cols)
    n, edges = len(c.graph), [tuple(e) for e in c.graph.edges()]
    want = closure(list(dict.fromkeys(generators(n, edges, tuple(c.input_nodes), tuple(c.output_nodes), list(c.outputc)).values()))) | {"I" * rows}
    for limit in [None, 10**6, 10**5, 10**4] + list(range(1, 40)) + [100, 300, 999, 1000, 1001]:
        case = {"grid": [rows, cols], "max_iter": limit}
        rec.state((rows, cols, limit))
        with rec.case(case):
            bad, got = raises(mp.utils.calculate_lie_algebra, c, **({} if limit is None else {"max_iter": limit}))
            rec.op()
            rec.note("limit_refused" if bad else "limit_enough")
            if bad and not isinstance(got, ValueError):
                rec.bad(case, f"refused with {type(got).__name__}")
            elif not bad and set(words(got)) != want:
                rec.bad(case, "an incomplete algebra is returned as complete")
            elif bad and (limit is None or limit > 5000):
                rec.bad(case, f"an algebra of {len(want)} operators is refused although the limit is far away")
            rec.trace(case)


def do_templates(rec):
    for name, make in (
        ("linear_cluster(5)", lambda: mp.templates.linear_cluster(5)), ("grid_cluster(2,5)", lambda: mp.templates.grid_cluster(2, 5)), ("grid_cluster(3,3)", lambda: mp.templates.grid_cluster(3, 3)),
        ("many_wires", lambda: mp.templates.many_wires([3, 4])), ("muta(2,1)", lambda: mp.templates.muta(2, 1)), ("muta(1,2)", lambda: mp.templates.muta(1, 2)),
        ("muta(2,1,one column)", lambda: mp.templates.muta(2, 1, one_column=True)), ("hstack", lambda: mp.hstack([mp.templates.grid_cluster(2, 3), mp.templates.grid_cluster(2, 3)])),
        ("vstack", lambda: mp.vstack([mp.templates.linear_cluster(3), mp.templates.linear_cluster(4)])),
    ):
        case = {"circuit": name}
        rec.state(name)
        with rec.case(case):
            c = quiet(make)
            g = c.graph
            check_circuit(rec, case, c, len(g), [tuple(e) for e in g.edges()], tuple(c.input_nodes), tuple(c.output_nodes))
            rec.trace(case)


def do_bigger(rec, k, m):
    idx = 0
    for name, n, edges, i, o in families.bases():
        if not 6 <= n <= 12 or len(o) > 4:
            continue
        for e in itertools.islice(families.nearby(n, edges), 0, None):
            if not families.causal(n, e, i, o):
                continue
            idx += 1
            if idx % m != k:
                continue
            case = {"graph": name, "n": n, "edges": e}
            rec.state((n, e, i, o))
            with rec.case(case):
                order = [None, list(range(n))[::-1], list(range(n))[::2] + list(range(n))[1::2]][idx // m % 3]
                c = lib.circuit(n, e, i, o, order)
                check_circuit(rec, case, c, n, e, i, o, algebra=len(o) <= 2)
                rec.trace(case)


def do_dims(rec):
    for n in range(1, 65):
        case = {"n": n}
        rec.state(n)
        with rec.case(case):
            rec.op(3)
            # antihermitian traceless; antisymmetric; symplectic: counted from their matrix entries
            su = sum(1 for a in range(n) for b in range(n) if a != b) + n - 1
            so = sum(1 for a in range(n) for b in range(a))
            if mp.utils.dim_su(n) != su or mp.utils.dim_so(n) != so:
                rec.bad(case, "dimension of su or so")
            if n % 2 == 0:
                h = n // 2
                sp = h * h + 2 * sum(1 for a in range(h) for b in range(a + 1))
                if mp.utils.dim_sp(n) != sp:
                    rec.bad(case, "dimension of sp")
            elif not raises(mp.utils.dim_sp, n)[0]:
                rec.bad(case, "sp of odd size accepted")
            rec.trace(case)
