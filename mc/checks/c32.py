"""C32  A simulator answers exactly what it is asked, or refuses; a refusal leaves it usable."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C32"
ASSUMPTIONS = [
    "refusing means raising any exception, at construction or during the call; PennyLane receives windows and schedules it does not use",
    "input states are normalised state vectors of the input nodes; everything else counts as malformed",
]
BIG = 1e9


def BOUNDS(tier):
    return ("every open graph class with causal flow n<=3 and connected n=4" + (", n=5" if tier == "thorough" else "") + " x 3 backends x every accepted and malformed form of input state, angles, "
            "backend name, output form, window and schedule; every plane and every way of leaving the backend's domain on every node; every ordered pair of malformed calls followed by a reset and a valid run; "
            "circuits without flow")


def shards(tier):
    out = [("forms", n, k, m, tier) for n, m in ((2, 1), (3, 4), (4, 24)) for k in range(m)]
    out += [("dom", n, k, m, tier) for n, m in ((2, 1), (3, 4), (4, 24)) for k in range(m)]
    if tier == "thorough":
        out += [("forms", 5, k, 64, tier) for k in range(64)]
    return out


def good_states(psi, basis):
    """Forms of a state that have to be accepted -> (label, argument, state)."""
    ro = psi.copy()
    ro.setflags(write=False)
    strided = np.zeros(2 * len(psi), dtype=complex)
    strided[::2] = psi
    real = np.abs(psi)
    real = real / np.linalg.norm(real)
    e = np.zeros(len(psi), dtype=int)
    e[basis] = 1
    return [("complex", psi.copy(), psi), ("read-only", ro, psi), ("strided", strided[::2], psi), ("real", real.copy(), real),
            ("int", e.copy(), e.astype(complex)), ("float basis", e.astype(float), e.astype(complex)), ("bool-like int8", e.astype(np.int8), e.astype(complex))] + [
        (np.dtype(t).name, e.astype(t), e.astype(complex)) for t in (np.uint8, np.uint64, np.float16, np.float32, np.longdouble)] + [
        (np.dtype(t).name, (1j * e).astype(t), 1j * e) for t in (np.complex64, np.clongdouble)]


def bad_states(psi):
    d = len(psi)
    out = [("list", list(psi)), ("string", "0" * d), ("too long", np.concatenate([psi, psi]) / np.sqrt(2)), ("column", psi.reshape(d, 1)),
           ("density matrix", np.outer(psi, psi.conj())), ("zero", np.zeros(d)), ("nan", np.full(d, np.nan)), ("scalar", np.array(1.0)), ("empty", np.zeros(0))]
    if d > 2:
        out.append(("too short", psi[: d // 2] / np.linalg.norm(psi[: d // 2])))
    out.append(("three levels", np.ones(3) / np.sqrt(3)))
    return out


def forms_of_angles(a):
    return [("list", list(a)), ("tuple", tuple(a)), ("array", np.array(a, dtype=float)), ("numpy scalars", [np.float64(x) for x in a])]


def bad_angles(a):
    out = [("one more", list(a) + [0.3]), ("none", None)]
    if a:
        out += [("one less", list(a)[:-1]), ("holes", [None] * len(a)), ("words", ["x"] * len(a)), ("empty", []), ("scalar", 0.3)]
    return out


def explore(shard, rec):
    kind, n, k, m, tier = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n >= 4)):
        flow = ref.has_causal_flow(n, edges, i, o)
        if not flow and kind == "forms":
            continue
        idx += 1
        if idx % m != k:
            continue
        if kind == "forms":
            forms(rec, n, edges, i, o, idx)
        else:
            domain(rec, n, edges, i, o, flow, idx)


def forms(rec, n, edges, i, o, idx):
    d = 2 ** len(i)
    psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(d)])
    psi = psi / np.linalg.norm(psi)
    meas = [v for v in range(n) if v not in o]
    amap = {v: 0.37 + 0.61 * v for v in meas}
    mp_ = ref.branch_map(n, edges, i, o, {v: ("XY", amap[v]) for v in meas})
    base = {"n": n, "edges": edges, "in": i, "out": o}

    def want(st):
        return ref.normalised_dm(mp_, st)[0]

    with rec.case(base):
        c = lib.circuit(n, edges, i, o)
        ang = [amap[v] for v in c.trainable_nodes]

        def check(case, fn, expect, may=False):
            """expect: a matrix (has to be the answer) or None (has to be refused); may: refusing is all right, too."""
            case = {**base, **case}
            rec.state(repr(case))
            with rec.case(case):
                bad, r = raises(fn)
                rec.op()
                rec.outcome((bad, type(r).__name__))
                rec.note("refused" if bad else "answered")
                if expect is None:
                    if not bad:
                        rec.bad(case, "malformed, but answered")
                elif bad:
                    if not may:
                        rec.bad(case, f"refused: {type(r).__name__}: {r}")
                elif not lib.close(r, expect):
                    rec.bad(case, "the answer is not the state of the pattern")
                rec.trace(case)

        plus = ref.kron_states([ref.PLUS] * len(i))
        for b in lib.BACKENDS:
            for name in (b, b.upper(), b.title()):
                check({"backend": name}, lambda: mp.PatternSimulator(c, psi.copy(), backend=name).run(ang), want(psi))
                check({"backend": name, "input": "default"}, lambda: mp.PatternSimulator(c, backend=name).run(ang), want(plus))
            check({"backend": b, "call": "object"}, lambda: mp.PatternSimulator(c, psi.copy(), backend=b)(ang), want(psi))
            for label, arg, st in good_states(psi, (idx + n) % d):
                keep = arg.copy()
                check({"backend": b, "input": label}, lambda: mp.PatternSimulator(c, arg, backend=b).run(ang), want(st))

                def later():
                    s = mp.PatternSimulator(c, psi.copy(), backend=b)
                    s.reset(input_state=arg)
                    return s.run(ang)

                check({"backend": b, "reset": label}, later, want(st))
                if b != "pennylane":
                    for way in ("run", "__call__"):
                        def given():
                            s = mp.PatternSimulator(c, psi.copy(), backend=b)
                            return getattr(s, way)(ang, input_state=arg)

                        check({"backend": b, "input of the call": label, "through": way}, given, want(st))
                if not np.array_equal(keep, arg):
                    rec.bad({**base, "backend": b, "input": label}, "the caller's input state was modified")
            for label, arg in forms_of_angles(ang):
                check({"backend": b, "angles": label}, lambda: mp.PatternSimulator(c, psi.copy(), backend=b).run(arg), want(psi))
            for label, arg in bad_states(psi):
                check({"backend": b, "bad input": label}, lambda: mp.PatternSimulator(c, arg, backend=b).run(ang), None)

                def later():
                    s = mp.PatternSimulator(c, psi.copy(), backend=b)
                    s.reset(input_state=arg)
                    return s.run(ang)

                check({"backend": b, "bad reset": label}, later, want(psi) if label == "list" else None, True)
            for label, arg in bad_angles(ang):
                check({"backend": b, "bad angles": label}, lambda: mp.PatternSimulator(c, psi.copy(), backend=b).run(arg), None)
            # malformed calls one after the other, then a reset and a valid run
            bads = [("input", x) for x in bad_states(psi)] + [("angles", x) for x in bad_angles(ang)]
            if b != "pennylane":
                bads += [("measure", ("words", "x")), ("run input", bad_states(psi)[3])]
            pairs = itertools.product(range(len(bads)), repeat=2) if n <= 3 else [(q, (q * 5 + idx) % len(bads)) for q in range(len(bads))]
            for pq in pairs:
                def story():
                    s = mp.PatternSimulator(c, psi.copy(), backend=b)
                    for q in pq:
                        what, (label, arg) = bads[q]
                        if what == "input":
                            raises(s.reset, arg)
                        elif what == "angles":
                            raises(s.run, arg)
                        elif what == "measure":
                            raises(s.measure, arg)
                        else:
                            raises(s.run, ang, input_state=arg)
                    if b == "pennylane":
                        s.reset(psi.copy())
                    else:
                        s.reset()
                    return s.run(ang)

                if b == "pennylane" and (n > 2 and pq[0] != pq[1]):
                    continue
                check({"backend": b, "after": [f"{bads[q][0]} {bads[q][1][0]}" for q in pq]}, story, want(psi))
        # output form of the state vector simulator
        for form in ("dm", "DM", "densitymatrix", "DensityMatrix"):
            check({"form": form}, lambda: mp.PatternSimulator(c, psi.copy(), backend="numpy-sv").run(ang, output_form=form), want(psi))
        for form in ("sv", "SV", "statevector", "StateVector"):
            case = {**base, "form": form}
            with rec.case(case):
                r = np.asarray(quiet(mp.PatternSimulator(c, psi.copy(), backend="numpy-sv").run, ang, output_form=form))
                r2 = np.asarray(quiet(mp.PatternSimulator(c, psi.copy(), backend="numpy-sv"), ang, output_form=form))
                rec.op(2)
                rec.state(repr(case))
                if r2.shape != r.shape or not np.allclose(r, r2, atol=1e-9):
                    rec.bad(case, "calling the simulator and its run method differ")
                if r.shape != (2 ** len(o),) or not lib.close(np.outer(r, r.conj()), want(psi)):
                    rec.bad(case, "the state vector is not the state of the pattern")
        for form in ("", "ket", "dm ", 3, None):
            check({"form": form}, lambda: mp.PatternSimulator(c, psi.copy(), backend="numpy-sv").run(ang, output_form=form), None)
        for name in ("", "numpy", "numpy-", "cirq", "pennylane-default", "dm", None, 3):
            check({"bad backend": name}, lambda: mp.PatternSimulator(c, psi.copy(), backend=name).run(ang), None)
        for b in ("numpy-sv", "numpy-dm"):
            for w in (0, -1, n + 1, 2.5, "2", None):
                check({"backend": b, "bad window": w}, lambda: mp.PatternSimulator(c, psi.copy(), backend=b, window_size=w).run(ang), None)
            rest = [v for v in range(n) if v not in i]
            full = list(i) + rest
            bad = [("empty", [])]
            bad += [(f"without {v}", [x for x in full if x != v]) for v in full]
            bad += [(f"twice {v}", full + [v]) for v in full]
            bad += [("unknown node", full + [n]), ("unknown for known", full[:-1] + [n])]
            if rest:
                bad.append(("input last", [full[-1]] + full[:-1]))
            for label, sched in bad:
                for w in {len(sched), n, 1}:
                    # whatever the window: never a wrong answer
                    case = {**base, "backend": b, "bad schedule": label, "window": w}
                    rec.state(repr(case))
                    with rec.case(case):
                        bd, r = raises(lambda: mp.PatternSimulator(c, psi.copy(), backend=b, schedule=list(sched), window_size=w).run(ang))
                        rec.op()
                        rec.note("refused" if bd else "answered")
                        if not bd and not lib.close(r, want(psi)):
                            rec.bad(case, "a schedule that does not list every node once gives a wrong state instead of an error")
            check({"backend": b, "force0": False}, lambda: mp.PatternSimulator(c, psi.copy(), backend=b, force0=False).run(ang), None)


def domain(rec, n, edges, i, o, flow, idx):
    """Circuits outside a backend's domain are refused, inside they are answered."""
    d = 2 ** len(i)
    psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(d)])
    psi = psi / np.linalg.norm(psi)
    meas = [v for v in range(n) if v not in o]
    base = {"n": n, "edges": edges, "in": i, "out": o}
    planes = {"pennylane": ("X", "Y", "XY"), "numpy-sv": ("X", "Y", "XY"), "numpy-dm": ("X", "Y", "Z", "XY", "XZ", "YZ")}
    sched = list(i) + [v for v in range(n) if v not in i]
    for v in meas:
        for p in ("X", "Y", "Z", "XY", "XZ", "YZ", "XYZ"):
            for fixed in (False, True):
                if fixed and len(p) == 1 or (p == "XYZ" and not fixed):
                    continue
                ang = (0.6, 1.1) if p == "XYZ" else (0.8 if len(p) == 2 else 0.0)
                kinds = {w: "XY" for w in meas}
                kinds[v] = (p, ang) if fixed else p
                amap = {w: 0.37 + 0.61 * w for w in meas}
                amap[v] = ang
                ments = {w: (kinds[w] if isinstance(kinds[w], str) else kinds[w][0], amap[w]) for w in meas}
                for b in lib.BACKENDS:
                    case = {**base, "backend": b, "node": v, "plane": p, "fixed": fixed}
                    rec.state(repr(case))
                    with rec.case(case):
                        kw = {} if flow or b == "pennylane" else {"schedule": list(sched), "window_size": n}

                        def body(script):
                            c = lib.circuit(n, edges, i, o, measurements={w: lib.raw_ment(x) for w, x in kinds.items()})
                            s = mp.PatternSimulator(c, psi.copy(), backend=b, **kw)
                            return s.run([amap[w] for w in c.trainable_nodes]), dict(s.outcomes) if b != "pennylane" else {}

                        def branches():
                            if b == "numpy-dm":
                                yield from lib.all_scripts(lambda s: raises(body, s))
                            else:
                                yield None, raises(body, None)

                        for _, (bad, r) in branches():
                            rec.op()
                            rec.note("refused" if bad else "answered")
                            rec.outcome((b, p, bad))
                            inside = p in planes[b] or (p == "XYZ" and b == "numpy-dm")
                            if b == "pennylane" and not flow:
                                inside = False
                            if bad:
                                if inside:
                                    rec.bad(case, f"refused: {type(r).__name__}: {r}")
                                continue
                            if not inside:
                                rec.bad(case, "outside the domain of the backend, but answered")
                                continue
                            st, outs = r
                            outs = {w: int(x) for w, x in outs.items()}
                            m = ref.branch_map(n, edges, i, o, ments, outs)
                            if np.linalg.norm(m @ psi) < 1e-6:
                                rec.bad(case, "the reported outcomes are impossible")
                            elif not lib.close(st, ref.normalised_dm(m, psi)[0]):
                                rec.bad(case, "the answer is not the state of the pattern")
                            rec.trace(case)
    if not flow:
        for b in lib.BACKENDS:
            case = {**base, "backend": b, "flow": None}
            rec.state(repr(case))
            with rec.case(case):
                c = lib.circuit(n, edges, i, o)
                bad, r = raises(lambda: mp.PatternSimulator(c, psi.copy(), backend=b).run([0.3] * len(c.trainable_nodes)))
                rec.op()
                rec.note("refused" if bad else "answered")
                if not bad:
                    rec.bad(case, "a circuit without flow is simulated without a schedule")
    else:
        for v in meas:
            case = {**base, "backend": "any", "unmeasured": v}
            for b in lib.BACKENDS:
                case = {**base, "backend": b, "unmeasured": v}
                rec.state(repr(case))
                with rec.case(case):
                    def go():
                        c = lib.circuit(n, edges, i, o, measurements={w: None if w == v else mp.Ment("XY") for w in meas})
                        return mp.PatternSimulator(c, psi.copy(), backend=b).run([0.3] * len(c.trainable_nodes))

                    bad, r = raises(go)
                    rec.op()
                    rec.note("refused" if bad else "answered")
                    if not bad:
                        rec.bad(case, "a circuit with an inner node that is never measured is simulated")
