"""C31  Measuring a pattern node by node: after every step the state is the exact one of what has been simulated so far."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C31"
ASSUMPTIONS = [
    "the simulated part of the resource state is read from the simulator (measured nodes and current_simulated_nodes()); which nodes are loaded when is its own choice",
    "a step may be refused with an error when the window is too small, but then it has to change nothing; with the default window and with a window of all nodes no step may be refused",
]
TRAIN = {v: 0.357191 + 0.513131 * v for v in range(12)}


def BOUNDS(tier):
    return ("every open graph class n<=4" + (" and every connected one with n=5" if tier == "thorough" else " and every connected one with flow and n=5 (default schedule)")
            + ", with flow or (explicit schedule) without; every schedule with the inputs first; every window size and the default; numpy-dm and numpy-sv; "
            "trainable, fixed and mixed planes (X, Y, XY; Z, XZ, YZ on numpy-dm), measured outputs, a controlled last node; larger circuits (7..10 nodes, up to 3 inputs: wires, grids, ladders, and what differs from them in one edge) with default and larger windows; every branch of random outcomes; a rejected call before every step")


def shards(tier):
    out = [(2, 0, 1, tier)] + [(3, k, 8, tier) for k in range(8)] + [(4, k, 48, tier) for k in range(48)]
    return out + [(5, k, 64, tier) for k in range(64)] + [("larger", k, 32, tier) for k in range(32)]


def partial_state(n, edges, i, psi, ments, outs, current):
    """Normalised state vector (up to phase) of the nodes in `current` after the measurements in `outs`, or None."""
    loaded = sorted(set(outs) | set(current))
    pos = {v: k for k, v in enumerate(loaded)}
    sub = [tuple(sorted((pos[u], pos[v]))) for u, v in edges if u in pos and v in pos]
    m = ref.branch_map(len(loaded), sub, tuple(pos[v] for v in i), tuple(pos[v] for v in current),
                       {pos[v]: ments[v] for v in outs}, {pos[v]: b for v, b in outs.items()})
    v = m @ psi
    nrm = np.linalg.norm(v)
    return v / nrm if nrm > 1e-6 else None


def same(state, want):
    state = np.asarray(state)
    if state.ndim == 2:
        return lib.close(state, np.outer(want, want.conj()))
    return state.shape == want.shape and bool(np.all(np.isfinite(state))) and abs(np.linalg.norm(state) - 1) < 1e-6 and ref.proportional(state, want, 1e-6)


def step_through(rec, n, edges, i, o, kinds, backend, psi, label, schedule, window, control=None):
    """kinds: node -> kind for measured nodes; control: (node, condition node, true kind, false kind)."""
    case = {"n": n, "edges": edges, "in": i, "out": o, "kinds": sorted(kinds.items()), "backend": backend, "input": label,
            "schedule": schedule, "window": window, "control": control}
    rec.state(repr(case))
    with rec.case(case):
        kw = {}
        if schedule is not None:
            kw["schedule"] = list(schedule)
        if window is not None:
            kw["window_size"] = window
        must = window in (1, n) and (schedule is None or window == n) or window is None and schedule is None

        def body(script):
            """Returns None or an error message; everything is judged inside, step by step."""
            c = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(k) for v, k in kinds.items()})
            if control is not None:
                v, u, t, f = control
                c[v] = mp.ControlMent(c[u].outcome, t[1], t[0], f[1], f[0])
            given = {k: list(v) if k == "schedule" else v for k, v in kw.items()}
            bad, s = raises(lib.sim, c, backend, psi.copy(), **given)
            given.get("schedule", []).reverse()  # the list stays the caller's
            rec.op()
            if bad:
                rec.note("refused")
                return f"the simulator is refused: {s!r}" if must or not isinstance(s, ValueError) else None
            order = [v for v in (schedule or c.measurement_order) if v in kinds]
            outs, ments = {}, {}
            cur = list(s.current_simulated_nodes())
            want = partial_state(n, edges, i, psi, ments, outs, cur)
            if not same(s.qstate, want):
                return f"the initial state of the nodes {cur} is wrong"
            for v in order:
                k = kinds[v]
                angle = TRAIN[v] if lib.trainable_kind(k) else (k[1] if not isinstance(k, str) else 0)
                plane = k if isinstance(k, str) else k[0]
                if control is not None and v == control[0]:
                    sel = control[2] if outs[control[1]] else control[3]
                    plane, angle = sel[0], (TRAIN[v] if sel[1] is None and len(sel[0]) == 2 else sel[1] or 0)
                    arg = TRAIN[v] if v in c.trainable_nodes else None
                    wrong = None
                else:
                    arg = angle
                    wrong = (None,) if lib.trainable_kind(k) else (angle + 0.3, angle - 1.1) + ((0,) if angle else ())
                for wr in wrong or ():
                    before = np.array(s.qstate), list(s.current_simulated_nodes()), dict(s.outcomes)
                    bad, e = raises(s.measure, wr)
                    rec.op()
                    if not bad:
                        return f"node {v} is measured with the angle {wr}"
                    if not np.array_equal(before[0], s.qstate) or before[1:] != (list(s.current_simulated_nodes()), dict(s.outcomes)):
                        return f"a rejected angle for node {v} changed the simulator"
                before = np.array(s.qstate), list(s.current_simulated_nodes()), dict(s.outcomes)
                bad, r = raises(s.measure, arg)
                rec.op()
                if bad:
                    rec.note("step_refused")
                    if must or not isinstance(r, ValueError):
                        return f"the measurement of node {v} is refused: {r!r}"
                    if not np.array_equal(before[0], s.qstate) or before[1:] != (list(s.current_simulated_nodes()), dict(s.outcomes)):
                        return f"the refused measurement of node {v} changed the simulator"
                    return None
                st, b = r
                if b not in (0, 1):
                    return f"outcome {b!r} of node {v}"
                outs[v] = int(b)
                ments[v] = (plane, angle)
                if {x: int(y) for x, y in s.outcomes.items()} != outs:
                    return f"after measuring {sorted(outs)} with outcomes {outs} the simulator reports {dict(s.outcomes)}"
                cur = list(s.current_simulated_nodes())
                if set(cur) & set(outs):
                    return f"measured nodes are still reported as simulated: {cur}"
                want = partial_state(n, edges, i, psi, ments, outs, cur)
                if want is None:
                    return f"the reported outcomes {outs} are impossible"
                if not same(st, want) or not same(s.qstate, want):
                    return f"after measuring {sorted(outs)} the state of the nodes {cur} is wrong"
                rec.state((case["edges"], i, o, tuple(sorted(outs.items())), tuple(cur), backend))
            rec.outcome((tuple(sorted(outs.items())), tuple(cur)))
            if sorted(cur) != sorted(v for v in range(n) if v not in kinds):
                return f"after the last measurement the nodes {cur} are left"
            bad, r = raises(s.measure, 0.1)
            if not bad or not isinstance(r, ValueError):
                return "a measurement after the last one is not refused with ValueError"
            rec.trace(case)
            return None

        for script, msg in lib.all_scripts(body):
            rec.note("branches")
            if msg is not None:
                rec.bad(case, msg)
                return


def larger(rec, k, m, tier):
    idx = 0
    for name, n, edges, i, o in big.bases(tier):
        if not 7 <= n <= 10 or len(i) > 3:
            continue
        for e in big.nearby(n, edges):
            if big.causal(n, e, i, o) is None:
                continue
            idx += 1
            if idx % m != k:
                continue
            q = idx // m
            psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2 ** len(i))])
            psi = psi / np.linalg.norm(psi)
            meas = [v for v in range(n) if v not in o]
            mix = {v: ("X", ("XY", 0.6), "Y", "XY", ("XY", 0.0), "XY")[(v * 5 + q) % 6] for v in meas}
            cl = {**mix, o[q % len(o)]: ("XY", 0.9)}
            wins = [None, len(i) + 2, n - 1, n]
            step_through(rec, n, e, i, o, {v: "XY" for v in meas}, "numpy-sv", psi, "generic", None, wins[q % 4])
            step_through(rec, n, e, i, o, mix, "numpy-sv", psi, "generic", None, wins[(q + 1) % 4])
            step_through(rec, n, e, i, o, mix, "numpy-dm", psi, "generic", None, wins[q % 2])
            step_through(rec, n, e, i, o, cl, ("numpy-sv", "numpy-dm")[q % 2], psi, "generic", None, None)


def explore(shard, rec):
    if shard[0] == "larger":
        return larger(rec, *shard[1:])
    n, k, m, tier = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n == 5)):
        flow = ref.has_causal_flow(n, edges, i, o)
        if n == 5 and not flow and tier != "thorough":
            continue
        idx += 1
        if idx % m != k:
            continue
        psi = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2 ** len(i))])
        psi = psi / np.linalg.norm(psi)
        meas = [v for v in range(n) if v not in o]
        rest = [v for v in range(n) if v not in i]
        scheds = [p + q for p in itertools.permutations(i) for q in itertools.permutations(rest)]
        if n == 5:
            scheds = scheds[idx % len(scheds)::max(1, len(scheds) // (6 if tier == "thorough" else 1))]
        xy = {v: "XY" for v in meas}
        mixes = [{v: ("X", ("XY", 0.6), "Y", "XY", ("XY", 0.0), ("XY", np.pi))[(v * (1 + q) + q + idx) % 6] for v in meas} for q in range(2)]
        dmix = [{v: ("Z", "XY", ("YZ", 0.4), "XZ", "X")[(v + q + idx) % 5] for v in meas} for q in range(5)]
        both = ("numpy-dm", "numpy-sv")
        wins = [None] + list(range(1, n + 1))
        if flow:
            for w in wins:
                for b in both:
                    for kinds in [xy] + mixes:
                        step_through(rec, n, edges, i, o, kinds, b, psi, "generic", None, w)
                    if n <= 4:
                        cl = o[idx % len(o)]
                        step_through(rec, n, edges, i, o, {**xy, cl: ("XY", 0.9)}, b, psi, "generic", None, w)
                for kinds in dmix[: 5 if n <= 4 else 2]:
                    step_through(rec, n, edges, i, o, kinds, "numpy-dm", psi, "generic", None, w)
            c = lib.circuit(n, edges, i, o)
            order = [v for v in c.measurement_order if v in meas]
            if len(order) > 1:
                for q, (t, f) in enumerate([(("XY", 0.7), ("X", None)), (("XY", None), ("YZ", 0.3)), (("Z", None), ("XY", None))]):
                    for u in order[:-1]:
                        for w in wins:
                            step_through(rec, n, edges, i, o, {**xy, u: ("Z", "XY")[(q + idx) % 2] if q else "Z"}, "numpy-dm", psi, "generic", None, w, (order[-1], u, t, f))
        for s, sched in enumerate(scheds):
            for w in range(1, n + 1):
                b = both[(s + w) % 2]
                if w < len(i):
                    continue
                if n <= 4 or w >= n - 1:
                    step_through(rec, n, edges, i, o, xy, b, psi, "generic", sched, w)
            b = both[s % 2]
            step_through(rec, n, edges, i, o, mixes[s % 2], b, psi, "generic", sched, n)
            step_through(rec, n, edges, i, o, dmix[s % 5], "numpy-dm", psi, "generic", sched, n)
