"""C07  Copies (deepcopy, dill) of circuits and simulators are equal and independent."""
import copy
import itertools
import pickle

import dill
import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.checks import c05
from mc.core import quiet, raises

ID = "C07"
ASSUMPTIONS = ["copies are made with copy.deepcopy or a dill round trip (circuits hold functions, so plain pickle is not offered)",
               "numpy simulators only for copies in mid-run; copying the PennyLane simulator is covered before and after runs"]

COPIERS = {"deepcopy": copy.deepcopy, "dill": lambda x: dill.loads(dill.dumps(x))}


def BOUNDS(tier):
    return ("circuits: 4 base circuits x every edit sequence of length <=1 before copying x every edit sequence of length <=1 (thorough: 2) applied to the copy and, "
            "separately, to the original, x {deepcopy, dill}; controlled circuits; plain graph states; "
            "simulators: every split point k of the measurement sequence x every interleaving of the remaining steps of copy and original "
            "x 2 numpy backends x {deepcopy, dill}, also at every point of runs on six circuits with 8 to 12 nodes, and PennyLane before/after a run; all flow classes n<=3" + (" and n=4" if tier == "thorough" else ""))


LARGER = [big.wires([8]), big.wires([3, 4, 2]), big.grid(2, 4), big.grid(3, 3), big.hub(4, 2, 0, (1, 2, 3)), big.wires([12])]


def larger(rec, g):
    """Copies of larger circuits and, at every point of a run, of their simulators."""
    n, edges, i, o = LARGER[g]
    for how, copier in COPIERS.items():
        case = {"n": n, "edges": edges, "in": i, "out": o, "how": how}
        rec.state(repr(case))
        with rec.case(case):
            planes = ("XY", "X", "Y")
            c = lib.circuit(n, edges, i, o, measurements={v: None if v in o else lib.raw_ment(planes[v % 3] if v % 2 else ("XY", 0.2 * v)) for v in range(n)})
            meas = [v for v in c.measurement_order if v not in o]
            late = meas[-1]
            for what, cond, pick in (("one", lambda: c[meas[0]].outcome, lambda e: e[meas[0]]), ("sum", lambda: sum((c[v].outcome for v in meas[1:-1]), c[meas[0]].outcome), lambda e: sum(e[v] for v in meas[:-1]) % 2)):
                quiet(c.__setitem__, late, mp.ControlMent(quiet(cond), 0.7, "XY", 0, "X"))
                v0 = full_view(c)
                d = copier(c)
                rec.op(2)
                if full_view(d) != v0:
                    rec.bad({**case, "control": what}, "the copy differs from the original")
                for env in ([0] * n, [1] * n, [v % 2 for v in range(n)], [int(v < 3) for v in range(n)]):
                    e = dict(enumerate(env))
                    if bool(d[late].condition(e)) != bool(pick(e)) or bool(c[late].condition(e)) != bool(pick(e)):
                        rec.bad({**case, "control": what, "env": env}, "the condition of the copy has another value")
            for v in meas:
                quiet(d.__setitem__, v, mp.Ment("Y"))
            if full_view(c) != v0:
                rec.bad(case, "editing the copy changed the original")
            rec.trace(case)
        c = lib.circuit(n, edges, i, o)
        meas = [v for v in c.measurement_order if v not in o]
        seq = [0.3 + 0.7 * v for v in meas]
        for backend in ("numpy-sv", "numpy-dm"):
            psi = ref.kron_states([ref.CARD[x] for x in "i+01"[:len(i)]])
            want = finish(lib.sim(c, backend, psi), seq)[0]
            for split in range(len(seq) + 1):
                rest = len(seq) - split
                for way in ("copy first", "original first", "in turn", "in turn, copy twice"):
                    cs = {**case, "backend": backend, "split": split, "order": way}
                    rec.state(repr(cs))
                    with rec.case(cs):
                        a = lib.sim(c, backend, psi)
                        for x in seq[:split]:
                            quiet(a.measure, x)
                        b = copier(a)
                        steps = {"copy first": "b" * rest + "a" * rest, "original first": "a" * rest + "b" * rest, "in turn": "ab" * rest, "in turn, copy twice": ("bba" * rest)}[way]
                        at = {"a": split, "b": split}
                        for w in steps + "a" * rest + "b" * rest:
                            if at[w] < len(seq):
                                quiet((a if w == "a" else b).measure, seq[at[w]])
                                at[w] += 1
                        rec.op(2 * rest + split + 1)
                        if not lib.close(a.qstate, want) or not lib.close(b.qstate, want):
                            rec.bad(cs, "original and copy do not both finish in the state of an undisturbed run")
                        quiet(b.reset)
                        if not lib.close(a.qstate, want):
                            rec.bad(cs, "resetting the copy changed the original")
                        rec.trace(cs)


def shards(tier):
    out = []
    for b in c05.BASES:
        ops = c05.ops_for(*c05.BASES[b], False)
        out += [("circ", b, k, 8, tier) for k in range(8)]
    out += [("sim", n, k, 8, tier) for n in ((2, 3, 4) if tier == "thorough" else (2, 3)) for k in range(8)]
    out += [("ctrl", 0, 0, 1, tier), ("graph", 0, 0, 1, tier)]
    out += [("larger", g) for g in range(len(LARGER))]
    return out


def full_view(c):
    v = lib.view_of(c)
    v["mo"] = None if c.measurement_order is None else list(c.measurement_order)
    v["tr"] = list(c.trainable_nodes)
    return v


def circ(shard, rec):
    _, b, k, m, tier = shard
    base = c05.BASES[b]
    ops = c05.ops_for(*base, False)
    depth = 2 if tier == "thorough" else 1
    pres = [()] + [(op,) for op in ops]
    posts = [h for d in range(1, depth + 1) for h in itertools.product(ops, repeat=d)]
    for idx, pre in enumerate(pres):
        if idx % m != k:
            continue
        for how, copier in COPIERS.items():
            if how == "dill" and tier != "thorough" and idx % 3:
                continue
            for post in posts:
                for target in ("copy", "original"):
                    case = {"base": b, "before": pre, "after": post, "how": how, "edited": target}
                    rec.state(repr(case))
                    with rec.case(case):
                        c = lib.circuit(*base)
                        model = c05.Model(*base)
                        for op in pre:
                            c05.apply(c, model, op)
                        v0 = full_view(c)
                        d = copier(c)
                        rec.op(1 + len(pre) + len(post))
                        if type(d) is not type(c):
                            rec.bad(case, f"the copy is a {type(d).__name__}")
                            continue
                        if full_view(d) != v0:
                            rec.bad(case, "the copy differs from the original")
                            continue
                        live, still = (d, c) if target == "copy" else (c, d)
                        for op in post:
                            err = c05.apply(live, model, op)
                            if err:
                                rec.bad(case, err)
                        if full_view(still) != v0:
                            rec.bad(case, f"editing the {target} changed the other one")
                        err = c05.judge(live, model, base)
                        if err:
                            rec.bad(case, f"after editing the {target}: {err}")
                        rec.outcome((how, target, len(pre)))
                        rec.trace(case)


def finish(s, angles):
    """Remaining measurements one by one; returns the final state vector / matrix and outcomes."""
    res = []
    for a in angles:
        st, out = quiet(s.measure, a)
        res.append(out)
    return np.asarray(s.qstate), res


def sims(shard, rec):
    _, n, k, m, tier = shard
    idx = -1
    for edges, i, o in ref.open_graph_classes(n):
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        idx += 1
        if idx % m != k:
            continue
        c = lib.circuit(n, edges, i, o)
        meas = [v for v in c.measurement_order if v not in o]
        ang = {v: 0.3 + 0.7 * v for v in meas}
        seq = [ang[v] for v in meas]
        for backend in ("numpy-sv", "numpy-dm"):
            s = lib.sim(c, backend)
            want = finish(s, seq)[0]
            for how, copier in COPIERS.items():
                for split in range(len(seq) + 1):
                    rest = len(seq) - split
                    # interleavings of `rest` steps of A with `rest` steps of B
                    for who in itertools.combinations(range(2 * rest), rest):
                        case = {"n": n, "edges": edges, "in": i, "out": o, "backend": backend, "how": how, "split": split, "steps_of_original": who}
                        rec.state(repr(case))
                        with rec.case(case):
                            a = lib.sim(c, backend)
                            for x in seq[:split]:
                                quiet(a.measure, x)
                            b = copier(a)
                            pa = pb = split
                            for t in range(2 * rest):
                                if t in who:
                                    quiet(a.measure, seq[pa])
                                    pa += 1
                                else:
                                    quiet(b.measure, seq[pb])
                                    pb += 1
                            rec.op(2 * rest + split + 1)
                            if not lib.close(a.qstate, want) or not lib.close(b.qstate, want):
                                rec.bad(case, "original and copy do not both finish in the state of an undisturbed run")
                            # resetting one leaves the other alone
                            quiet(b.reset)
                            if not lib.close(a.qstate, want):
                                rec.bad(case, "resetting the copy changed the original")
                            if not lib.close(quiet(b.run, [ang[v] for v in b.mbqcircuit.trainable_nodes]),
                                             quiet(lib.sim(c, backend).run, [ang[v] for v in c.trainable_nodes])):
                                rec.bad(case, "the copy cannot be reset and run again")
                            rec.trace(case)
            for how, copier in COPIERS.items():
                case = {"n": n, "edges": edges, "in": i, "out": o, "backend": backend, "how": how, "edit": "circuit of the copy"}
                rec.state(repr(case))
                with rec.case(case):
                    a = lib.sim(c, backend)
                    b = copier(a)
                    if b.mbqcircuit is c:
                        rec.bad(case, "the copy shares its circuit with the original")
                    rec.op(2)
                    rec.trace()
        case = {"n": n, "edges": edges, "in": i, "out": o, "backend": "pennylane"}
        rec.state(repr(case))
        with rec.case(case):
            a = lib.sim(c, "pennylane")
            ang2 = [ang[v] for v in c.trainable_nodes]
            want = np.asarray(quiet(a.run, ang2))
            b = copy.deepcopy(a)
            other = ref.kron_states([ref.CARD["i"]] * len(i))
            quiet(b.reset, other)
            rec.op(4)
            if not lib.close(quiet(a.run, ang2), want):
                rec.bad(case, "resetting the copy changed the original")
            if not lib.close(quiet(b.run, ang2), quiet(lib.sim(c, "pennylane", other).run, ang2)):
                rec.bad(case, "the copy does not run like a fresh simulator")
            rec.trace(case)


def ctrls(rec):
    for how, copier in COPIERS.items():
        for expr in range(4):
            case = {"controlled": expr, "how": how}
            rec.state(repr(case))
            with rec.case(case):
                c = lib.circuit(5, ((0, 1), (1, 2), (2, 3), (3, 4)), (0,), (4,))
                cond = {0: c[0].outcome, 1: c[0].outcome + c[1].outcome, 2: ~c[1].outcome, 3: c[0].outcome & ~c[1].outcome}[expr]
                quiet(c.__setitem__, 3, mp.ControlMent(cond, 0.7, "XY", 0, "X"))
                v0 = full_view(c)
                d = copier(c)
                if full_view(d) != v0:
                    rec.bad(case, "the copy differs from the original")
                f = d[3].condition
                for x, y in itertools.product((0, 1), repeat=2):
                    env = {0: x, 1: y}
                    want = bool([x, (x + y) % 2, not y, x and not y][expr])
                    if bool(f(env)) != want:
                        rec.bad({**case, "env": env}, "the condition of the copy has another value")
                    rec.op()
                if not lib.close(*[lib.run(x, "numpy-dm", [.1, .2, .3])[0] for x in (c, d)]):
                    rec.bad(case, "copy and original run differently")
                quiet(d.__setitem__, 3, mp.Ment("Y"))
                if full_view(c) != v0:
                    rec.bad(case, "editing the copy changed the original")
                rec.trace(case)


def graphs(rec):
    for n in (1, 2, 3):
        for edges in ref.all_edge_sets(n):
            for how, copier in {**COPIERS, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "copy": lambda x: x.copy()}.items():
                case = {"graph": edges, "n": n, "how": how}
                rec.state(repr(case))
                with rec.case(case):
                    g = lib.gstate(n, edges)
                    h = copier(g)
                    rec.op(2)
                    if not isinstance(h, mp.GraphState) or set(h.nodes) != set(g.nodes) or set(map(frozenset, h.edges)) != set(map(frozenset, g.edges)):
                        rec.bad(case, "the copy differs")
                    h.add_edge(0, n)
                    if n in g.nodes:
                        rec.bad(case, "editing the copy changed the original")
                    rec.trace()


def explore(shard, rec):
    if shard[0] == "circ":
        circ(shard, rec)
    elif shard[0] == "sim":
        sims(shard, rec)
    elif shard[0] == "ctrl":
        ctrls(rec)
    elif shard[0] == "larger":
        larger(rec, shard[1])
    else:
        graphs(rec)
