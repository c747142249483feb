"""C10  Simulators have no memory: after any history, a reset simulator behaves like a new one."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C10"
ASSUMPTIONS = [
    "a numpy simulator that has started measuring refuses a new run until it is reset (an error, never a wrong answer)",
    "the model of a simulator is: position in the measurement sequence, current input state, outcomes so far; no merging: each history is replayed from a new simulator",
]
CIRCUITS = {
    "wire3": (3, ((0, 1), (1, 2)), (0,), (2,), {}),
    "cz": (4, ((0, 1), (2, 3), (0, 2)), (0, 2), (1, 3), {}),
    "fixed": (4, ((0, 1), (1, 2), (2, 3)), (0,), (3,), {1: "X", 2: ("XY", 0.4)}),
    "swapio": (3, ((0, 1),), (2, 0), (1, 2), {}),
    "grid": (8, ((0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (1, 5), (2, 6), (3, 7)), (4, 0), (3, 7), {1: "X", 6: ("XY", 0.4)}),
    "perm": (3, ((0, 2),), (2, 0, 1), (0, 1, 2), {}),
}


def setup(name):
    n, edges, i, o, m = CIRCUITS[name]
    kinds = {v: m.get(v, "XY") for v in range(n) if v not in o}
    return n, edges, i, o, kinds


def alphabet(name, backend):
    n, edges, i, o, kinds = setup(name)
    ops = [("run", 0), ("run", 1), ("reset", None), ("reset", 1), ("runin", 0, 1), ("runin", 1, 2), ("wrong",)]
    if backend != "pennylane":
        ops += [("measure", 0), ("reset", 2)]
    return ops


def BOUNDS(tier):
    d = 4 if tier == "thorough" else 3
    return (f"6 circuits (one of 8 nodes, histories one step shorter) x 3 backends x every sequence of length <= {d + 1} (numpy) / <= {d} (PennyLane) over {{run with one of two angle vectors, run with an input state, "
            "reset, reset with one of two input states, single measurement, run with the wrong number of angles}; "
            "two simulators of one circuit object: every interleaving of their measurement sequences (8 nodes: those with at most three changes of turn); every history of length <= 4 in which the caller overwrites the array it gave or the one it got between runs and resets; angles as list, tuple, array")


def shards(tier):
    out = []
    for name in CIRCUITS:
        for b in lib.BACKENDS:
            k = len(alphabet(name, b))
            out += [("hist", name, b, j, tier) for j in range(k)]
    out += [("two", name, "", 0, tier) for name in CIRCUITS]
    out += [("buffer", name, b, 0, tier) for name in CIRCUITS for b in lib.BACKENDS]
    return out


def states_for(k):
    a = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2**k)])
    b = np.array([(2 - 1j * j) * (1 + 0.3 * j) for j in range(2**k)])
    plus = ref.kron_states([ref.PLUS] * k)
    return [plus, a / np.linalg.norm(a), b / np.linalg.norm(b)]


class Sim:
    """Reference simulator: position, input, and the exact conditional state."""

    def __init__(self, name, backend):
        self.n, self.edges, self.i, self.o, self.kinds = setup(name)
        self.backend = backend
        self.inp = 0
        self.pos = 0
        self.stuck = False


def angle_map(kinds, which):
    return {v: (0.371938 + 0.612847 * v, -1.2 + 0.9 * v)[which] if isinstance(k, str) else k[1] for v, k in kinds.items()}


def expected(model, which, psis):
    amap = angle_map(model.kinds, which)
    ments = {v: (k, amap[v]) if isinstance(k, str) else k for v, k in model.kinds.items()}
    return ref.normalised_dm(ref.branch_map(model.n, model.edges, model.i, model.o, ments), psis[model.inp])[0]


def explore(shard, rec):
    kind, name, backend, first, tier = shard
    if kind == "two":
        return two(name, rec, tier)
    if kind == "buffer":
        return buffer(name, backend, rec, tier)
    d = 4 if tier == "thorough" else 3
    depth = d - (name == "grid") if backend == "pennylane" else d + (name != "grid")
    ops = alphabet(name, backend)
    n, edges, i, o, kinds = setup(name)
    circ = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(k) for v, k in kinds.items()})
    tr = list(circ.trainable_nodes)
    order = [v for v in circ.measurement_order if v not in o]
    psis = states_for(len(i))
    cache = {}

    def want(model, which):
        key = (model.inp, which)
        if key not in cache:
            cache[key] = expected(model, which, psis)
        return cache[key]

    def history(hist):
        case = {"circuit": name, "backend": backend, "ops": hist}
        with rec.case(case):
            model = Sim(name, backend)
            s = lib.sim(circ, backend)
            keep = [p.copy() for p in psis]
            for op in hist:
                rec.op()
                if op[0] in ("run", "runin"):
                    amap = angle_map(kinds, op[1])
                    ang = [amap[v] for v in tr]
                    ang = [ang, tuple(ang), np.array(ang)][(len(hist) + op[1]) % 3]
                    if op[0] == "runin":
                        if backend == "pennylane":
                            continue  # takes its input through reset()
                        bad, r = raises(s.run, ang, input_state=keep[op[2]])
                        model.inp, model.pos = op[2], 0
                    else:
                        bad, r = raises(s.run, ang)
                    ok = backend == "pennylane" or model.pos == 0 or not order
                    if ok and bad:
                        rec.bad(case, f"the run is refused: {r!r}")
                        return
                    if not ok and not bad:
                        # only acceptable if it is the right answer
                        if not lib.close(r, want(model, op[1])):
                            rec.bad(case, "a run on a used simulator returns a wrong state instead of an error")
                            return
                    if not bad and ok:
                        if not lib.close(r, want(model, op[1])):
                            rec.bad(case, "the state differs from that of a new simulator")
                            return
                        if backend != "pennylane":
                            outs = s.outcomes
                            if sorted(outs) != sorted(order) or any(outs[v] != 0 for v in order):
                                rec.bad(case, f"the reported outcomes are {outs}, every measured node has outcome 0")
                                return
                    model.pos = len(order)
                elif op[0] == "reset":
                    arg = None if op[1] is None else keep[op[1]]
                    bad, r = raises(s.reset, arg)
                    if bad:
                        rec.bad(case, f"reset fails: {r!r}")
                        return
                    if op[1] is not None:
                        model.inp = op[1]
                    model.pos = 0
                    if backend != "pennylane":
                        key = ("fresh", model.inp)
                        if key not in cache:
                            cache[key] = np.array(lib.sim(circ, backend, psis[model.inp].copy()).qstate)
                        if dict(s.outcomes) != {} or not lib.close(s.qstate, cache[key]):
                            rec.bad(case, f"right after a reset the simulator is not in the state of a new one (outcomes {dict(s.outcomes)})")
                            return
                elif op[0] == "wrong":
                    for extra in ([0.1] * (len(tr) + 1), [0.1] * (len(tr) - 1))[: 2 if tr else 1]:
                        bad, r = raises(s.run, extra)
                        if not bad or not isinstance(r, ValueError):
                            rec.bad(case, f"a run with {len(extra)} angles for {len(tr)} parameters is not refused with ValueError")
                            return
                else:
                    amap = angle_map(kinds, op[1])
                    if model.pos < len(order):
                        v = order[model.pos]
                        fixed = kinds[v] if not isinstance(kinds[v], str) else None
                        bad, r = raises(s.measure, amap[v] if lib.trainable_kind(kinds[v]) else (fixed[1] if fixed else 0))
                        if bad:
                            rec.bad(case, f"measurement {model.pos} is refused: {r!r}")
                            return
                        model.pos += 1
                        if model.pos == len(order) and order and all(x[0] in ("measure", "reset", "wrong") for x in hist):
                            pass
                    else:
                        bad, r = raises(s.measure, 0.1)
                        if not bad or not isinstance(r, ValueError):
                            rec.bad(case, "a measurement after the last one is not refused with ValueError")
                            return
            # whatever happened: reset, then behave like new
            quiet(s.reset)
            r = quiet(s.run, [angle_map(kinds, 1)[v] for v in tr])
            rec.op(2)
            if not lib.close(r, want(model, 1)):
                rec.bad(case, "after a reset the simulator does not behave like a new one")
            if any(not np.array_equal(a, b) for a, b in zip(keep, psis)):
                rec.bad(case, "an input state array of the caller was modified")
            rec.state((name, backend, model.inp, model.pos, hist))
            rec.outcome((model.inp, model.pos))
            rec.trace(case if len(hist) == depth else None)

    def go(hist):
        history(hist)
        if len(hist) < depth:
            for op in ops:
                go(hist + (op,))

    if first == 0:
        history(())
    go((ops[first],))


def buffer(name, backend, rec, tier):
    """The caller goes on using the array it gave, and the arrays it got: every history of that."""
    n, edges, i, o, kinds = setup(name)
    circ = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(k) for v, k in kinds.items()})
    tr = list(circ.trainable_nodes)
    psis = states_for(len(i))
    model = Sim(name, backend)
    wants = []
    for inp in range(3):
        model.inp = inp
        wants.append([expected(model, w, psis) for w in (0, 1)])
    angs = [[angle_map(kinds, w)[v] for v in tr] for w in (0, 1)]
    ops = [("overwrite", 0), ("overwrite", 2), ("overwrite result",), ("reset",), ("reset", 1), ("run", 0), ("run", 1)]
    depth = (4 if name != "grid" else 3) + (tier == "thorough") - (backend == "pennylane")
    for hist in (h for k in range(1, depth + 1) for h in itertools.product(ops, repeat=k)):
        if any(a == b for a, b in zip(hist, hist[1:])) or all(x[0] != "overwrite" and x[0] != "overwrite result" for x in hist):
            continue
        case = {"circuit": name, "backend": backend, "buffer": hist}
        rec.state((name, backend, "buffer", hist))
        with rec.case(case):
            mine = psis[1].copy()
            s = lib.sim(circ, backend, mine)
            inp, fresh, last = 1, True, None
            for op in hist + (("reset",), ("run", 1)):
                rec.op()
                if op[0] == "overwrite":
                    mine[:] = psis[op[1]]
                elif op[0] == "overwrite result":
                    if last is not None and last.flags.writeable:
                        last *= 0
                        last += 0.5
                elif op[0] == "reset":
                    if len(op) > 1:
                        mine[:] = psis[op[1]]
                        inp = op[1]
                    quiet(s.reset, *([mine] if len(op) > 1 else []))
                    fresh = True
                elif fresh or backend == "pennylane":
                    last = np.asarray(quiet(s.run, list(angs[op[1]])))
                    fresh = False
                    if not lib.close(last, wants[inp][op[1]]):
                        rec.bad(case, "what the caller does with its own arrays changes what the simulator answers")
                        break
            rec.outcome((inp, fresh))
            rec.trace(case)


def two(name, rec, tier):
    """Two simulators of the same circuit object, different inputs and angles, all interleavings."""
    n, edges, i, o, kinds = setup(name)
    circ = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(k) for v, k in kinds.items()})
    order = [v for v in circ.measurement_order if v not in o]
    psis = states_for(len(i))
    L = len(order)

    def ang(v, which):
        k = kinds[v]
        return angle_map(kinds, which)[v] if lib.trainable_kind(k) else (k[1] if not isinstance(k, str) else 0)

    for b1, b2 in itertools.product(("numpy-sv", "numpy-dm"), repeat=2):
        finals = []
        for b, which in ((b1, 0), (b2, 1)):
            s = lib.sim(circ, b, psis[which + 1])
            finals.append([np.asarray(quiet(s.measure, ang(v, which))[0]) for v in order])
        turns = itertools.combinations(range(2 * L), L)
        if L > 4:  # at most four changes of turn
            turns = [t for t in turns if sum((x in t) != (x + 1 in t) for x in range(2 * L - 1)) <= 3]
        for who in turns:
            case = {"circuit": name, "backends": [b1, b2], "steps_of_first": who}
            rec.state(repr(case))
            with rec.case(case):
                sims = [lib.sim(circ, b1, psis[1]), lib.sim(circ, b2, psis[2])]
                pos = [0, 0]
                for t in range(2 * L):
                    w = 0 if t in who else 1
                    st, out = quiet(sims[w].measure, ang(order[pos[w]], w))
                    rec.op()
                    if not lib.close(st, finals[w][pos[w]]):
                        rec.bad(case, f"step {pos[w]} of simulator {w} depends on the other simulator")
                        break
                    pos[w] += 1
                rec.outcome((b1, b2))
                rec.trace(case)
