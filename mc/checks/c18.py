"""C18  Controlled measurements measure what their condition selects, object by object and in every simulated branch."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C18"
ASSUMPTIONS = [
    "conditions are evaluated on the outcomes reported by the simulator; random outcomes (Z measurements) are scripted and every branch of non-zero probability is executed",
    "controlled measurements are simulated by the density-matrix backend; the other backends must refuse them",
]
BRANCH = [("XY", 0.71731), ("XY", None), ("X", None), ("Y", None), ("Z", None), ("XZ", -0.43189), ("YZ", None), ("XY", 0)]


def BOUNDS(tier):
    return ("objects: every pair of 8 branch measurements x {no condition yet, True, False, outcome, negated, xor, and of two outcomes} x all outcome assignments x angles; "
            "circuits: every open graph class with causal flow n<=4 (connected for n=4) x every controlled node x every condition over one or two earlier nodes "
            "{outcome, not, xor, and} x {fixed, Pauli, trainable} branches x input states x every outcome branch"
            + ("; two controlled nodes at once; n=5 connected classes with one or two inputs" if tier == "thorough" else "; two controlled nodes at once on n=4"))


def shards(tier):
    out = [("obj", k, 8) for k in range(8)]
    out += [("sim", 3, k, 4) for k in range(4)] + [("sim", 4, k, 32) for k in range(32)] + [("two", 4, k, 16) for k in range(16)]
    if tier == "thorough":
        out += [("sim", 5, k, 96) for k in range(96)]
    return out


# ------------------------------------------------------------------ objects


def fixed(b):
    return 0 if len(b[0]) == 1 else b[1]


def conditions(c):
    a, b = c[0].outcome, c[1].outcome
    yield "true", True, lambda e: 1
    yield "false", False, lambda e: 0
    yield "m0", a, lambda e: e[0]
    yield "not m0", ~a, lambda e: 1 - e[0]
    yield "xor", a ^ b, lambda e: e[0] ^ e[1]
    yield "and", a & b, lambda e: e[0] & e[1]


def objects(rec, k, m):
    c = lib.circuit(4, ((0, 1), (1, 2), (2, 3)), (0,), (3,))
    idx = -1
    for t, f in itertools.product(BRANCH, repeat=2):
        for name, cond, val in conditions(c):
            for late in (False, True):
                idx += 1
                if idx % m != k:
                    continue
                case = {"true": t, "false": f, "condition": name, "assigned_later": late}
                rec.state(repr(case))
                with rec.case(case):
                    cm = quiet(mp.ControlMent, None if late else cond, t[1], t[0], f[1], f[0])
                    if late:
                        cm.condition = cond
                    for cm_ in (cm, cm.copy()):
                        trainable = fixed(t) is None or fixed(f) is None
                        if bool(cm_.is_trainable()) != trainable:
                            rec.bad(case, f"trainable is {cm_.is_trainable()}")
                        for bits in itertools.product((0, 1), repeat=2):
                            env = dict(zip((0, 1), bits))
                            sel = t if val(env) else f
                            if cm_.angle(env) != fixed(sel) or cm_.plane(env) != sel[0]:
                                rec.bad({**case, "outcomes": bits}, f"measures {cm_.plane(env)}, {cm_.angle(env)} instead of {sel}")
                            for ang in ((0.31873, -1.91237) if trainable else (None,)):
                                want = ref.observable(sel[0], ang if fixed(sel) is None else fixed(sel))
                                rec.op(2)
                                if not lib.close(quiet(cm_.matrix, ang, env), want, 1e-12):
                                    rec.bad({**case, "outcomes": bits, "angle": ang}, "the matrix is not that of the selected branch")
                                p = quiet(cm_.get_povm, ang, env)
                                if not (lib.close(p[0], (ref.I2 + want) / 2, 1e-12) and lib.close(p[1], (ref.I2 - want) / 2, 1e-12)):
                                    rec.bad({**case, "outcomes": bits, "angle": ang}, "the POVM is not that of the selected branch")
                            if not trainable:
                                bad, e = raises(cm_.matrix, 0.31873, env)
                                if not bad or not isinstance(e, ValueError):
                                    rec.bad(case, "an angle is accepted although both branches are fixed")
                        if isinstance(cond, bool):
                            sel = t if cond else f
                            if cm_.angle() != fixed(sel) or cm_.plane() != sel[0]:
                                rec.bad(case, "without outcomes, a constant condition selects the wrong branch")
                    rec.outcome((trainable, name))
                    rec.trace(case)
    if k == 0:
        for wrong in (1, 0, "x", 0.5, [True], lambda x: True):
            for late in (False, True):
                case = {"condition": str(type(wrong)), "assigned_later": late}
                rec.state(repr(case) + repr(wrong)[:3])
                with rec.case(case):
                    def go():
                        cm = mp.ControlMent(None if late else wrong, 0.1)
                        cm.condition = wrong
                    bad, e = raises(go)
                    rec.op()
                    if not bad or not isinstance(e, TypeError):
                        rec.bad(case, "a condition that is neither a truth value nor an outcome is accepted")


# ------------------------------------------------------------------ simulation

PAIRS = [(("XY", 0.71731), ("X", None)), (("XY", None), ("Y", None)), (("X", None), ("XY", -1.10773)), (("YZ", 0.52713), ("XY", None)), (("Z", None), ("XY", 0.91377))]


def cond_shapes(nodes):
    for u in nodes:
        yield ("m", u)
        yield ("not", u)
    for u, w in itertools.combinations(nodes, 2):
        yield ("xor", u, w)
        yield ("and", u, w)


def make_cond(sh, c):
    o = [c[v].outcome for v in sh[1:]]
    return {"m": lambda: o[0], "not": lambda: ~o[0], "xor": lambda: o[0] ^ o[1], "and": lambda: o[0] & o[1]}[sh[0]]()


def cond_value(sh, outs):
    b = [outs[v] for v in sh[1:]]
    return {"m": lambda: b[0], "not": lambda: 1 - b[0], "xor": lambda: b[0] ^ b[1], "and": lambda: b[0] & b[1]}[sh[0]]()


def mk(b):
    return (b[1], b[0])


def simulate(rec, n, edges, i, o, controls, base, label, psi):
    """controls: node -> (shape, true, false); base: node -> kind of the other measured nodes."""
    case = {"n": n, "edges": edges, "in": i, "out": o, "controls": sorted(controls.items()), "base": sorted(base.items()), "input": label}
    rec.state(repr(case))
    with rec.case(case):
        train = {v: 0.35 + 0.5 * v for v in range(n)}

        def body(script):
            c = lib.circuit(n, edges, i, o)
            quiet(setattr, c, "measurements", {v: lib.raw_ment(k) for v, k in base.items()})
            for v, (sh, t, f) in controls.items():
                c[v] = mp.ControlMent(make_cond(sh, c), *mk(t), *mk(f))
            s = lib.sim(c, "numpy-dm", psi.copy(), window_size=n)
            r = np.asarray(quiet(s.run, [train[v] for v in c.trainable_nodes]))
            return r, {v: int(b) for v, b in s.outcomes.items()}, list(c.trainable_nodes)

        want_train = sorted([v for v, k in base.items() if lib.trainable_kind(k)]
                            + [v for v, (_, t, f) in controls.items() if fixed(t) is None or fixed(f) is None])
        for script, (r, outs, tr) in lib.all_scripts(body):
            rec.op(1 + len(outs))
            if sorted(tr) != want_train:
                rec.bad(case, f"trainable nodes {sorted(tr)} instead of {want_train}")
                return
            if sorted(outs) != [v for v in range(n) if v not in o]:
                rec.bad(case, f"outcomes {outs} are not one per measured node")
                return
            ments = {}
            for v in outs:
                kind = base.get(v)
                if v in controls:
                    sh, t, f = controls[v]
                    sel = t if cond_value(sh, outs) else f
                    ments[v] = (sel[0], train[v] if fixed(sel) is None else fixed(sel))
                elif isinstance(kind, str):
                    ments[v] = (kind, train[v] if len(kind) == 2 else 0)
                else:
                    ments[v] = kind
            m = ref.branch_map(n, edges, i, o, ments, outs)
            if np.linalg.norm(m @ psi) < 1e-6:
                rec.bad({**case, "outcomes": sorted(outs.items())}, "the reported outcomes are impossible")
                continue
            if not lib.close(r, ref.normalised_dm(m, psi)[0]):
                rec.bad({**case, "outcomes": sorted(outs.items())}, "the state is not the one of the branch the conditions select")
            rec.outcome((tuple(cond_value(sh, outs) for sh, _, _ in controls.values()), len(outs)))
            rec.note("branches")
            for v, (sh, _, _) in controls.items():
                rec.note("condition_true" if cond_value(sh, outs) else "condition_false")
            rec.trace(case)


def refused(rec, n, edges, i, o, v, u):
    for backend in ("numpy-sv", "pennylane"):
        case = {"n": n, "edges": edges, "in": i, "out": o, "controlled": v, "backend": backend}
        rec.state(repr(case))
        with rec.case(case):
            c = lib.circuit(n, edges, i, o)
            c[v] = mp.ControlMent(c[u].outcome, 0.3)
            rec.op()
            bad, e = raises(lambda: mp.PatternSimulator(c, backend=backend).run([0.1] * len(c.trainable_nodes)))
            rec.note("refused" if bad else "answered")
            if not bad:
                rec.bad(case, "a backend that cannot evaluate conditions simulates a controlled measurement")


def explore(shard, rec):
    if shard[0] == "obj":
        objects(rec, *shard[1:])
        return
    kind, n, k, m = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n >= 4)):
        if not ref.has_causal_flow(n, edges, i, o) or (n == 5 and len(i) > 2):
            continue
        meas = [v for v in range(n) if v not in o]
        c0 = lib.circuit(n, edges, i, o)
        order = [v for v in c0.measurement_order if v in meas]
        for pos, v in enumerate(order):
            before = order[:pos]
            idx += 1
            if idx % m != k:
                continue
            if kind == "sim":
                if before and n <= 4:
                    refused(rec, n, edges, i, o, v, before[0])
                for q, sh in enumerate(cond_shapes(before)):
                    for p, (t, f) in enumerate(PAIRS):
                        if n == 5 and (p + q) % 2:
                            continue
                        label = ("0", "i", "-")[(p + q) % 3] * len(i)
                        psi = ref.kron_states([ref.CARD[x] for x in label])
                        base = {w: ("Z" if w in sh[1:] else ("XY", "X", ("XY", 0.45))[(w + p) % 3]) for w in meas if w != v}
                        simulate(rec, n, edges, i, o, {v: (sh, t, f)}, base, label, psi)
            else:
                for w in order[pos + 1:]:
                    for u in before:
                        for p, (t, f) in enumerate(PAIRS):
                            label = ("0", "i", "-")[p % 3] * len(i)
                            psi = ref.kron_states([ref.CARD[x] for x in label])
                            base = {x: ("Z" if x == u else "XY") for x in meas if x not in (v, w)}
                            simulate(rec, n, edges, i, o, {v: (("m", u), ("Z", None), t), w: (("xor", u, v), t, f)}, base, label, psi)
