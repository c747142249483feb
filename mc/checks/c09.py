"""C09  The measurement order, the schedule and the window never change the result (or the run is refused)."""
import itertools

import numpy as np

import mentpy as mp
from mc import big as families, lib, ref
from mc.core import quiet, raises

ID = "C09"
ASSUMPTIONS = ["a schedule lists all nodes with the inputs first (in any order); postselected measurements commute, so every such schedule has the same result",
               "a too small or too large window may be refused with ValueError, at construction or during the run, but never answered wrongly"]


def BOUNDS(tier):
    return ("every open graph class with causal flow n<=4" + (" and connected n=5" if tier == "thorough" else " (n=5 connected: default order, all windows)")
            + " x every valid measurement order x every window size 1..n+1 and the default, x every schedule (all permutations of inputs x of the others) "
            "x window sizes, x 2 numpy backends; larger circuits (wires of 8 and 5+4, grids 2x4 and 3x3, the 2-wire triangle of muta, n=8..10): every valid order and every schedule one move away from the default and from the reversed schedule x every window (numpy-sv), one entangled complex input, one generic angle vector; measured outputs included; custom orders on PennyLane; "
            "development mode on every class n<=5 with flow and on 18 circuits whose labels grow along the wires, wires in both orders, default and full window")


def shards(tier):
    out = [(n, k, m, tier) for n, m in ((2, 1), (3, 4), (4, 32)) for k in range(m)]
    out += [(5, k, 48, tier) for k in range(48)]
    out += [("dev", k, 16) for k in range(16)]
    return [("big", b, k, tier) for b in range(len(BIG)) for k in range(12)] + out


BIG = [
    (8, tuple((v, v + 1) for v in range(7)), (0,), (7,)),
    (9, ((0, 1), (1, 2), (2, 3), (3, 4), (5, 6), (6, 7), (7, 8), (1, 6), (3, 7)), (5, 0), (4, 8)),
    (8, ((0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)), (0, 4), (7, 3)),
    (9, tuple((r * 3 + c, r * 3 + c + 1) for r in range(3) for c in range(2)) + tuple((r * 3 + c, r * 3 + c + 3) for r in range(2) for c in range(3)), (0, 3, 6), (2, 5, 8)),
    (10, tuple((v, v + 1) for v in (0, 1, 2, 3, 5, 6, 7, 8)) + ((1, 5), (1, 7)), (0, 5), (4, 9)),
]


def one_move(seq):
    """Every sequence obtained by taking one element out and putting it elsewhere (the sequence itself included)."""
    out = [tuple(seq)]
    for a in range(len(seq)):
        rest = seq[:a] + seq[a + 1:]
        for b in range(len(rest) + 1):
            x = tuple(rest[:b] + [seq[a]] + rest[b:])
            if x not in out:
                out.append(x)
    return out


def big(rec, b, k, tier):
    n, edges, i, o = BIG[b]
    meas = [v for v in range(n) if v not in o]
    amap = {v: 0.371938 + 0.612847 * v for v in meas}
    psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2 ** len(i))])
    psi = psi / np.linalg.norm(psi)
    want, _ = ref.normalised_dm(ref.branch_map(n, edges, i, o, {v: ("XY", amap[v]) for v in meas}), psi)
    c = lib.circuit(n, edges, i, o)
    base = list(c.measurement_order)
    rest = [v for v in base if v not in i]
    po = c.partial_order
    jobs = [("order", p) for p in one_move(base) if not any(po(y, x) for x, y in itertools.combinations(p, 2))]
    jobs += [("schedule", i + p) for p in one_move(rest) + one_move(rest[::-1])]
    for idx, (what, p) in enumerate(jobs):
        if idx % 12 != k:
            continue
        for w in range(2, n + 1):
            case = {"n": n, "edges": edges, "in": i, "out": o, what: p, "window": w, "backend": "numpy-sv"}
            c = lib.circuit(n, edges, i, o)
            kw = {"window_size": w}
            if what == "order":
                quiet(setattr, c, "measurement_order", list(p))
            else:
                kw["schedule"] = list(p)
            run_case(rec, case, c, amap, psi, "numpy-sv", want, w == n, **kw)


def flow_wires(n, edges, i, o):
    f, _ = families.causal(n, edges, i, o)
    wires = []
    for v in i:
        w = [v]
        while w[-1] not in o:
            w.append(f[w[-1]])
        wires.append(w)
    return wires


def dev(rec, k, m):
    """Development mode: any node whose successor on its wire is loaded may go first."""
    idx = 0
    small = [("class", n, e, i, o) for n in (2, 3, 4, 5) for e, i, o in ref.open_graph_classes(n) if ref.has_causal_flow(n, e, i, o)]
    named = [("wires", *families.wires(w)) for w in ([2], [3], [5], [8], [2, 2], [2, 3], [3, 2], [4, 2], [2, 5], [2, 2, 2], [3, 2, 4], [5, 5])]
    named += [("grid", *families.grid(a, b)) for a, b in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (4, 2))]
    for name, n, edges, i, o in small + named:
        idx += 1
        if idx % m != k:
            continue
        wires = flow_wires(n, edges, i, o)
        must = name != "class"  # labels that grow along every wire
        meas = [v for v in range(n) if v not in o]
        psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2 ** len(i))])
        psi = psi / np.linalg.norm(psi)
        amap = {v: 0.371938 + 0.612847 * v for v in meas}
        want, _ = ref.normalised_dm(ref.branch_map(n, edges, i, o, {v: ("XY", amap[v]) for v in meas}), psi)
        for backend in ("numpy-sv", "numpy-dm"):
            for ws in (wires, wires[::-1]):
                for kw in ({}, {"window_size": n}):
                    case = {"graph": name, "n": n, "edges": edges, "in": i, "out": o, "dev_mode_wires": ws, "backend": backend, **kw}
                    rec.state(repr(case))
                    with rec.case(case):
                        c = lib.circuit(n, edges, i, o)
                        try:
                            s = lib.sim(c, backend, psi, dev_mode=True, wires=[list(w) for w in ws], **kw)
                            ang = [amap[v] for v in c.trainable_nodes]
                            r = quiet(s.run, ang)
                            got = dict(s.outcomes)
                            quiet(s.reset)
                            r2 = quiet(s.run, ang)
                        except Exception as e:  # refused; in this mode the kind of refusal is not specified
                            rec.op()
                            rec.note("dev_refused")
                            rec.outcome("refused")
                            if must and not kw:
                                rec.bad(case, f"refused: {type(e).__name__}: {e}")
                            continue
                        rec.op(3)
                        rec.note("dev_answered")
                        if not lib.close(r, want) or not lib.close(r2, want):
                            rec.bad(case, "the result differs from the pattern's map")
                        if set(got) != set(meas):
                            rec.bad(case, f"outcomes of {sorted(got)} are reported, {meas} are measured")
                        rec.trace(case)


def run_case(rec, case, c, amap, psi, backend, want, must, **kw):
    """must: the run may not be refused."""
    rec.state(repr(case))
    with rec.case(case):
        bad, s = raises(lib.sim, c, backend, psi, **kw)
        if "schedule" in kw:
            kw["schedule"].reverse()  # the list stays the caller's
        if not bad:
            bad, r = raises(s.run, [amap[v] for v in c.trainable_nodes])
        else:
            r = s
        rec.op(2)
        if bad:
            rec.note("refused")
            rec.outcome("refused")
            if must:
                rec.bad(case, f"refused: {type(r).__name__}: {r}")
            elif not isinstance(r, ValueError):
                rec.bad(case, f"refused with {type(r).__name__} instead of ValueError: {r}")
            return
        rec.note("answered")
        rec.outcome("ok")
        if not lib.close(r, want):
            rec.bad(case, "the result differs from the pattern's map")
        rec.trace(case)


def explore(shard, rec):
    if shard[0] == "dev":
        return dev(rec, *shard[1:])
    if shard[0] == "big":
        return big(rec, *shard[1:])
    n, k, m, tier = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n == 5)):
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        idx += 1
        if idx % m != k:
            continue
        psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2 ** len(i))])
        psi = psi / np.linalg.norm(psi)
        variants = [None]
        if n <= 4:
            variants += [o[-1]]  # this output is measured (a classical output)
        for cl in variants:
            meas = [v for v in range(n) if v not in o or v == cl]
            amap = {v: 0.371938 + 0.612847 * v for v in meas}
            kinds = {v: "XY" for v in meas}
            if cl is not None:
                kinds[cl] = ("XY", amap[cl])
            ms = {v: (("XY"), amap[v]) for v in meas}
            qo = tuple(v for v in o if v != cl)
            want, _ = ref.normalised_dm(ref.branch_map(n, edges, i, qo, ms), psi)

            def fresh():
                return lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(x) for v, x in kinds.items()})

            with rec.case({"n": n, "edges": edges, "in": i, "out": o, "measured_output": cl}):
                c = fresh()
                po = c.partial_order
                orders = [tuple(c.measurement_order)]
                if n <= 4 or tier == "thorough":
                    orders = [tuple(x) for x in lib.linear_extensions(range(n), po)]
                for order in orders:
                    c = fresh()
                    quiet(setattr, c, "measurement_order", list(order))
                    for backend in ("numpy-sv", "numpy-dm"):
                        if n == 5 and backend == "numpy-dm" and order != orders[0]:
                            continue
                        case = {"n": n, "edges": edges, "in": i, "out": o, "measured_output": cl, "order": order, "backend": backend}
                        run_case(rec, {**case, "window": "default"}, c, amap, psi, backend, want, True)
                        wins = range(1, n + 2) if n <= 4 or order == orders[0] else (n - 1, n)
                        for w in wins:
                            # window 1 means "choose"; a window of all nodes must work
                            run_case(rec, {**case, "window": w}, c, amap, psi, backend, want, w in (1, n), window_size=w)
                    if cl is None and (n <= 3 or order in (orders[0], orders[-1])):
                        run_case(rec, {"n": n, "edges": edges, "in": i, "out": o, "order": order, "backend": "pennylane"}, c, amap, psi, "pennylane", want, True)
                if n <= 4:
                    rest = [v for v in range(n) if v not in i]
                    scheds = [p + q for p in itertools.permutations(i) for q in itertools.permutations(rest)]
                    for sched in scheds:
                        c = fresh()
                        for backend in ("numpy-sv", "numpy-dm"):
                            for w in (range(1, n + 1) if backend == "numpy-sv" or n < 4 else (n - 1, n)):
                                case = {"n": n, "edges": edges, "in": i, "out": o, "measured_output": cl, "schedule": sched, "backend": backend, "window": w}
                                run_case(rec, case, c, amap, psi, backend, want, w == n, schedule=list(sched), window_size=w)
