"""C03  Measurement orders: the default is valid, and exactly the valid ones are accepted."""
import itertools

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C03"
ASSUMPTIONS = ["the dependency relation is recomputed from the reported successor function and the graph",
               "an order is judged against the reported partial order, which must contain that dependency relation"]


def BOUNDS(tier):
    return ("every open graph with causal flow, n<=4 nodes (one per isomorphism class, plus every labelled one for n<=3), "
            "x every permutation of the nodes x {property assignment, constructor argument}; all sequences over the nodes of "
            "length n with one repetition, all truncations, one foreign node; "
            + ("n=5: every class with flow x all 120 permutations; n=6 classes with flow x default order"
               if tier == "thorough" else "n=5: every class with flow x all 120 permutations (assignment only)")
            + "; circuits with controls: every admissible single control between measured nodes of the n<=4 classes with flow, and chains and forks of controls on three wires (n=6), x every permutation"
            + "; larger circuits (7..12 nodes: wires, grids, ladders, hubs) without controls, with every single control between measured nodes, with chains, forks and joins of controls: "
            "the default order and every order that differs from it by moving one node")


def shards(tier):
    out = [("lab", n, 0, 1) for n in (1, 2, 3)] + [("cls", 4, k, 4) for k in range(4)] + [("cls", 5, k, 24) for k in range(24)]
    out += [("ctrl", 4, k, 8) for k in range(8)] + [("larger", tier, k, 24) for k in range(24)]
    if tier == "thorough":
        out += [("cls6", 6, k, 64) for k in range(64)]
    return out


def check(rec, n, edges, i, o, tier6):
    case0 = {"n": n, "edges": edges, "in": i, "out": o}
    with rec.case({**case0, "order": "default"}):
        c = lib.circuit(n, edges, i, o)
        rec.op()
        if c.flow is None:
            rec.bad(case0, "no flow reported although one exists")
            return
        po = c.partial_order
        dep = lib.flow_relation(n, edges, c.flow, o)
        for u, w in dep:
            if not po(u, w):
                rec.bad(case0, f"partial order does not put {u} before {w}")
        err = lib.order_errors(c)
        if err:
            rec.bad({**case0, "order": "default"}, err)
        layers = c.ordered_layers()
        flat = [v for x in layers for v in x]
        where = {v: k for k, x in enumerate(layers) for v in x}
        if sorted(flat) != list(range(n)):
            rec.bad(case0, f"ordered layers {layers} are not a partition of the nodes")
        elif any(where[u] >= where[w] and not (u in o) for u, w in ref_pairs(n, edges, c)):
            rec.bad(case0, f"ordered layers {layers} contradict the flow of the layers")
        rec.trace(case0)
        default = list(c.measurement_order)
        pairs = [(u, v) for u in range(n) for v in range(n) if po(u, v)]
    if tier6:
        rec.state((n, edges, i, o))
        return
    for p in itertools.permutations(range(n)):
        pos = {v: k for k, v in enumerate(p)}
        good = all(pos[u] < pos[v] for u, v in pairs)
        for via in ("assign", "ctor") if n <= 4 else ("assign",):
            case = {**case0, "order": p, "via": via}
            rec.state((n, edges, i, o, p, via))
            with rec.case(case):
                order = list(p)
                if via == "assign":
                    c = lib.circuit(n, edges, i, o)
                    bad, e = raises(setattr, c, "measurement_order", order)
                else:
                    bad, c2 = raises(lib.circuit, n, edges, i, o, measurement_order=order)
                    e = c2
                rec.op(2)
                rec.note("accepted" if good else "rejected")
                rec.outcome((via, bad))
                if good and bad:
                    rec.bad(case, f"a valid order is rejected: {e!r}")
                elif not good and not bad:
                    rec.bad(case, "an order that measures a node before one it depends on is accepted")
                elif bad and not isinstance(e, ValueError):
                    rec.bad(case, f"rejected with {type(e).__name__} instead of ValueError")
                elif not bad and list((c if via == "assign" else c2).measurement_order) != list(p):
                    rec.bad(case, "the accepted order is not the one in use")
                elif bad and via == "assign" and list(c.measurement_order) != default:
                    rec.bad(case, "a rejected order changed the measurement order")
                if order != list(p):
                    rec.bad(case, "the caller's list was modified")
                order.reverse()
                now = list((c2 if via == "ctor" else c).measurement_order) if not (bad and via == "ctor") else None
                if now is not None and now != (default if bad else list(p)):
                    rec.bad(case, "the order in use follows the caller's list")
    # not permutations at all
    wrong = [default[:-1], default + [default[-1]], default + [n + 3], [n + 5] + default[1:]]
    wrong += [default[:k] + [default[j]] + default[k + 1:] for k in range(n) for j in range(n) if j != k]
    for w in wrong:
        for via in ("assign", "ctor"):
            case = {**case0, "order": w, "via": via}
            rec.state((n, edges, i, o, tuple(w), via, "np"))
            with rec.case(case):
                c = lib.circuit(n, edges, i, o)
                if via == "assign":
                    bad, e = raises(setattr, c, "measurement_order", list(w))
                else:
                    if any(v >= n for v in w):
                        continue
                    bad, e = raises(lib.circuit, n, edges, i, o, measurement_order=list(w))
                rec.op(2)
                rec.note("not_a_permutation")
                if not bad:
                    rec.bad(case, "a sequence that is not a permutation of the nodes is accepted as measurement order")
                elif list(c.measurement_order) != default:
                    rec.bad(case, "a rejected order changed the measurement order")


def ref_pairs(n, edges, c):
    """Dependencies of the flow the layers belong to (Flow.func)."""
    return lib.flow_relation(n, edges, c.flow, c.output_nodes)


WIRES = (6, ((0, 1), (2, 3), (4, 5)), (0, 2, 4), (1, 3, 5))


def larger(rec, k, m, tier):
    idx = 0
    for name, n, edges, i, o in big.bases(tier):
        if not 7 <= n <= (12 if tier == "quick" else 16):
            continue
        meas = [v for v in range(n) if v not in o]
        sets = [{}] + [{v: (u,)} for u, v in itertools.permutations(meas, 2)]
        for q in (meas, meas[::-1], meas[::2] + meas[1::2]):
            sets += [{b: (a,) for a, b in zip(q, q[1:])}, {b: (a,) for a, b in zip(q[:3], q[1:3])}, {q[-1]: tuple(q[:-1])}, {v: (q[0],) for v in q[1:]}, {q[2]: (q[0], q[1])}]
        for cs in sets:
            idx += 1
            if idx % m == k:
                controlled(rec, n, edges, i, o, cs, one_moves=True)


def controlled(rec, n, edges, i, o, controls, one_moves=False):
    """Every permutation is judged against flow order + controls (closure computed here)."""
    case0 = {"n": n, "edges": edges, "in": i, "out": o, "controls": sorted(controls.items())}
    with rec.case(case0):
        c = lib.circuit(n, edges, i, o)
        rel = [(u, v) for u in range(n) for v in range(n) if c.partial_order(u, v)] + [(u, v) for v, s in controls.items() for u in s]
        rel = lib.closure(range(n), rel)
        if any(u == v for u, v in rel):
            return
        for v, s in controls.items():
            cond = c[s[0]].outcome
            for u in s[1:]:
                cond = cond + c[u].outcome
            quiet(c.__setitem__, v, mp.ControlMent(cond, 0.3))
        err = lib.order_errors(c)
        if err or any(not c.partial_order(u, v) for u, v in rel):
            rec.bad(case0, err or "the partial order misses a dependency")
            return
        start = list(c.measurement_order)
    for p in big.one_moves(start) if one_moves else itertools.permutations(range(n)):
        p = tuple(p)
        case = {**case0, "order": p}
        rec.state((n, edges, i, o, repr(controls), p))
        with rec.case(case):
            pos = {v: k for k, v in enumerate(p)}
            good = all(pos[u] < pos[v] for u, v in rel)
            before = list(c.measurement_order)
            bad, e = raises(setattr, c, "measurement_order", list(p))
            rec.op()
            rec.note("controlled_accepted" if good else "controlled_rejected")
            if good and bad:
                rec.bad(case, f"a valid order is rejected: {e!r}")
            elif not good and not bad:
                rec.bad(case, "an order in which a node comes before one it depends on is accepted")
                return
            elif bad and (not isinstance(e, ValueError) or list(c.measurement_order) != before):
                rec.bad(case, f"rejected with {type(e).__name__}, order {c.measurement_order}")
            elif not bad and list(c.measurement_order) != list(p):
                rec.bad(case, "the accepted order is not the one in use")
    rec.trace(case0)


def explore(shard, rec):
    kind, n, k, m = shard
    if kind == "larger":
        return larger(rec, k, m, n)
    if kind == "ctrl":
        jobs = [(*WIRES, cs) for cs in ({4: (0,)}, {0: (4,)}, {4: (0, 2)}, {2: (0,), 4: (2,)}, {2: (4,), 0: (2,)}, {2: (0,), 4: (0,)})]
        for nn in (3, 4):
            for edges, i, o in ref.open_graph_classes(nn):
                if ref.has_causal_flow(nn, edges, i, o):
                    meas = [v for v in range(nn) if v not in o]
                    jobs += [(nn, edges, i, o, {v: (u,)}) for u, v in itertools.permutations(meas, 2)]
        for j, job in enumerate(jobs):
            if j % m == k:
                controlled(rec, *job)
        return
    if kind == "lab":
        gen = ((e, i, o) for e in ref.all_edge_sets(n) for i, o in ref.io_sets(n))
    else:
        gen = ref.open_graph_classes(n)
    idx = -1
    for edges, i, o in gen:
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        idx += 1
        if idx % m != k:
            continue
        check(rec, n, edges, i, o, kind == "cls6")
        if n == 4:  # the same circuit listed the other way round, and under reversed labels
            check(rec, n, tuple((n - 1 - v, n - 1 - u) for u, v in edges), tuple(n - 1 - v for v in i), tuple(n - 1 - v for v in o), False)
