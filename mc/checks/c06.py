"""C06  Controlled measurements: whatever the controls, the order puts every control first, or the control is refused."""
import itertools

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C06"
ASSUMPTIONS = ["conditions are built from measurement outcomes of the same circuit; which nodes a condition mentions is read off its construction, not asked from the code",
               "the reported order of the circuit without controls is the base order"]

WAYS = ("setitem", "bulk", "ctor")


def BOUNDS(tier):
    return ("every open graph class with causal flow n<=4 (n=3 classes also with |I|=0 excluded), x every single control: controlled node x every set of 1 or 2 "
            "condition nodes (incl. itself), every ordered pair of single-node controls on two nodes"
            + (", every triple on n=4 connected classes, n=5 classes x pairs" if tier == "thorough" else "")
            + " x {assignment node by node, bulk assignment, constructor} x condition shapes {outcome, xor, and, not, mixed with constants}; "
            "controls on 3 and 4 nodes on the n=4 classes and on larger circuits (7..10 nodes: wires, grids, ladders, hubs; single controls, chains, joins of up to 6 condition nodes, contradictions); "
            "then removal of the control; boolean conditions; custom measurement order set before")


def shards(tier):
    out = [(n, k, 4 if n < 4 else 24, tier) for n in (2, 3, 4) for k in range(4 if n < 4 else 24)]
    out += [("larger", k, 24, tier) for k in range(24)]
    if tier == "thorough":
        out += [(5, k, 64, tier) for k in range(64)]
    return out


def cond(c, nodes, shape):
    o = [c[u].outcome for u in nodes]
    if len(o) == 1:
        return {0: o[0], 1: ~o[0], 2: o[0] + 1, 3: o[0] & True}[shape % 4]
    if len(o) > 2:
        a, b, x = o[0], o[0], o[0]
        for q in o[1:]:
            a, b, x = a & q, b | q, x + q
        return {0: x, 1: a, 2: b, 3: ~x}[shape % 4]
    return {0: o[0] + o[1], 1: o[0] & ~o[1], 2: (o[0] ^ o[1]) | o[0], 3: ~(o[0] * o[1])}[shape % 4]


def ctrl(c, nodes, shape):
    return mp.ControlMent(cond(c, nodes, shape), 0.4, "XY", 0, "X") if shape % 2 else mp.ControlMent(cond(c, nodes, shape))


def measured_source(n, edges, i, o):
    """Circuit in which every node (outputs too) has a measurement, so every outcome can be a condition."""
    return lib.circuit(n, edges, i, o, measurements={v: mp.Ment("XY") for v in range(n)})


def judge(c, n, base_rel, controls):
    want = lib.closure(range(n), list(base_rel) + [(u, v) for v, s in controls.items() for u in s])
    po = c.partial_order
    got = {(u, v) for u in range(n) for v in range(n) if po(u, v)}
    if got != want:
        return f"partial order {sorted(got)}, expected {sorted(want)}"
    err = lib.order_errors(c)
    if err:
        return err
    if sorted(c.controlled_nodes) != sorted(controls):
        return f"controlled nodes {c.controlled_nodes}, expected {sorted(controls)}"
    return None


def one(rec, n, edges, i, o, controls, way, shape, custom=None):
    """controls: ordered dict node -> condition nodes."""
    case = {"n": n, "edges": edges, "in": i, "out": o, "controls": sorted(controls.items()), "seq": list(controls), "way": way, "shape": shape, "order": custom}
    rec.state(repr(case))
    with rec.case(case):
        c = measured_source(n, edges, i, o)
        base_rel = {(u, v) for u in range(n) for v in range(n) if c.partial_order(u, v)}
        if custom is not None:
            quiet(setattr, c, "measurement_order", list(custom))
        before = lib.view_of(c)
        mo = list(c.measurement_order)

        def feasible(ctrls):
            return not any(u == v for u, v in lib.closure(range(n), list(base_rel) + [(u, v) for v, s in ctrls.items() for u in s]))

        if way == "setitem":
            done = {}
            for k, (v, s) in enumerate(controls.items()):
                ok = feasible({**done, v: s})
                prev, prev_mo = lib.view_of(c), list(c.measurement_order)
                bad, e = raises(c.__setitem__, v, ctrl(c, s, shape + k))
                rec.op()
                if ok and bad:
                    rec.bad(case, f"an admissible control of {v} on {s} is refused: {e!r}")
                    return
                if not ok and not bad:
                    rec.bad(case, f"control of {v} on {s} is accepted although {v} must come before one of them")
                    return
                if bad and (not isinstance(e, ValueError) or lib.view_of(c) != prev or list(c.measurement_order) != prev_mo):
                    rec.bad(case, "a refused control changed the circuit" if isinstance(e, ValueError) else f"refused with {type(e).__name__}")
                    return
                if not bad:
                    done[v] = s
        else:
            ok = feasible(controls)
            new = {v: ctrl(c, s, shape + k) for k, (v, s) in enumerate(controls.items())}
            full = {v: new.get(v, mp.Ment("XY")) for v in range(n)}
            if way == "bulk":
                bad, e = raises(setattr, c, "measurements", full)
            else:
                bad, e = raises(lib.circuit, n, edges, i, o, measurements=full, **({"measurement_order": list(custom)} if custom else {}))
                # the custom order itself has to fit
                if custom is not None and ok:
                    rel = lib.closure(range(n), list(base_rel) + [(u, v) for v, s in controls.items() for u in s])
                    ok = not any((b, a) in rel for a, b in itertools.combinations(custom, 2))
            rec.op()
            if ok and bad:
                rec.bad(case, f"admissible controls are refused: {e!r}")
                return
            if not ok and not bad:
                rec.bad(case, "contradictory controls are accepted")
                return
            if bad and not isinstance(e, ValueError):
                rec.bad(case, f"refused with {type(e).__name__}")
                return
            if bad:
                done = {}
                if way == "bulk" and (lib.view_of(c) != before or list(c.measurement_order) != mo):
                    rec.bad(case, "refused controls changed the circuit")
                if way == "ctor":
                    rec.note("refused")
                    return
            else:
                done = controls
                if way == "ctor":
                    c = e
        rec.note("accepted" if done == controls else "refused")
        rec.outcome((way, len(done), len(controls)))
        err = judge(c, n, base_rel, done)
        if not err and custom is not None:
            rel = lib.closure(range(n), list(base_rel) + [(u, v) for v, s in done.items() for u in s])
            if not any((b, a) in rel for a, b in itertools.combinations(custom, 2)) and tuple(c.measurement_order) != tuple(custom):
                err = f"the assigned order {custom} is still valid but was replaced by {c.measurement_order}"
        if err:
            rec.bad(case, err)
            return
        # taking the controls away (in the same order) gives the old order relation back
        left = dict(done)
        for v in list(done):
            quiet(c.__setitem__, v, mp.Ment("X"))
            del left[v]
            rec.op()
            err = judge(c, n, base_rel, left)
            if err:
                rec.bad({**case, "after_removing": v}, err)
                return
        rec.trace(case)


def larger(rec, k, m, tier):
    num = 0
    for name, n, edges, i, o in [x for x in big.bases(tier) if 7 <= x[1] <= 10] + [("4", 4, *x) for x in ref.open_graph_classes(4) if ref.has_causal_flow(4, *x)]:
        nodes = list(range(n))
        meas = [v for v in nodes if v not in o]
        sets = []
        for size in (3, 4) if n == 4 else (3, len(meas) - 1, len(meas)):
            for cs in itertools.combinations(nodes if n == 4 else meas, size):
                sets += [{v: cs} for v in nodes]
        if n > 4:
            for v in nodes:
                sets += [{v: (u,)} for u in nodes]
            for q in (meas, meas[::-1], meas[1::2] + meas[::2]):
                sets += [{b: (a,) for a, b in zip(q, q[1:])}, {b: (a,) for a, b in zip(q[::-1], q[::-1][1:])}, {b: (a,) for a, b in zip(q, q[1:] + q[:1])},
                         {v: (q[0],) for v in q[1:]}, {v: tuple(q[:2]) for v in q[2:]}, {v: tuple(q[:3]) for v in q[3:]} or {q[0]: (q[1],)}]
        for cs in sets:
            num += 1
            if num % m == k:
                one(rec, n, edges, i, o, cs, WAYS[num // m % 3], num)


def explore(shard, rec):
    if shard[0] == "larger":
        return larger(rec, *shard[1:])
    n, k, m, tier = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n == 5)):
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        idx += 1
        if idx % m != k:
            continue
        nodes = range(n)
        sets1 = [(u,) for u in nodes]
        sets2 = list(itertools.combinations(nodes, 2))
        num = 0
        exts = None
        for v in nodes:
            for s in sets1 + sets2:
                for way in WAYS:
                    num += 1
                    one(rec, n, edges, i, o, {v: s}, way, num)
                if exts is None:
                    c = measured_source(n, edges, i, o)
                    exts = list(lib.linear_extensions(nodes, lambda a, b: c.partial_order(a, b)))
                if n <= 3 or s in sets1:
                    for e in exts[:: max(1, len(exts) // 3)]:
                        num += 1
                        one(rec, n, edges, i, o, {v: s}, WAYS[num % 3], num, tuple(e))
        for v, w in itertools.permutations(nodes, 2):
            for s, t in itertools.product(sets1, repeat=2):
                num += 1
                if n == 5:
                    one(rec, n, edges, i, o, {v: s, w: t}, WAYS[num % 3], num)
                else:
                    for way in WAYS:
                        one(rec, n, edges, i, o, {v: s, w: t}, way, num)
        if n == 3 or (tier == "thorough" and n == 4):
            for tri in itertools.permutations(nodes, 3):
                for ss in itertools.product(sets1, repeat=3):
                    num += 1
                    one(rec, n, edges, i, o, dict(zip(tri, ss)), WAYS[num % 3], num)
        # constant conditions restrict nothing
        for v in nodes:
            for b in (True, False, None):
                case = {"n": n, "edges": edges, "in": i, "out": o, "const": b, "node": v}
                with rec.case(case):
                    c = measured_source(n, edges, i, o)
                    base_rel = {(x, y) for x in nodes for y in nodes if c.partial_order(x, y)}
                    quiet(c.__setitem__, v, mp.ControlMent(b) if b is not None else mp.ControlMent())
                    rec.op()
                    err = judge(c, n, base_rel, {v: ()})
                    if err:
                        rec.bad(case, err)
                    rec.trace()
