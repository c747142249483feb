"""C16  A measurement object always stands for the observable it was asked for."""
import copy
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C16"
ASSUMPTIONS = [
    "observables are trigonometric polynomials of degree 1 in each angle, so the angle grid determines them everywhere",
    "planes and angles are exactly the documented ones; an angle outside int/float/tuple may be refused",
]
PLANES = ("XY", "XZ", "YZ")
GRID = tuple(k * np.pi / 6 for k in range(-7, 8)) + (0, 1, -2, 0.3, 17.25, 1e-9)
PAIRS = tuple(itertools.product((0.0, 2.0, -1.3, np.pi / 2, np.pi), repeat=2))


def BOUNDS(tier):
    d = 5 if tier == "thorough" else 4
    return (f"every plane x {len(GRID)} angles x every constructor form (positional both ways round, keyword, upper and lower case), XYZ x {len(PAIRS)} angle pairs; matrix, POVM, trainability, refusal of every other angle of the grid; "
            f"set_angle from every angle to every angle of the grid; every sequence of length <= {d} over {{set_angle, copy, deepcopy, move to a node (the newest or the first object), matrix, POVM}} on one object and its copies, from fixed (also zero), free and two-angle starts; outcomes handed out earlier are judged after every step")


def shards(tier):
    d = 5 if tier == "thorough" else 4
    return ([("forms", p) for p in PLANES + ("X", "Y", "Z", "XYZ")] + [("invalid",)]
            + [("hist", s, a, d) for s in range(len(STARTS)) for a in range(len(OPS))])


def forms(plane, angle):
    """Every documented way of writing this measurement."""
    M = mp.Ment
    for p in (plane, plane.lower()):
        if angle is None:
            yield "str", lambda p=p: M(p)
            yield "kw", lambda p=p: M(plane=p)
            yield "none", lambda p=p: M(None, p)
            yield "alias", lambda p=p: mp.Measurement(p)
            if plane == "XY":
                yield "default", lambda: M()
        else:
            yield "angle,plane", lambda p=p: M(angle, p)
            yield "plane,angle", lambda p=p: M(p, angle)
            yield "kw", lambda p=p: M(angle=angle, plane=p)
            if plane == "XY":
                yield "angle only", lambda: M(angle)


def judge(m, plane, fixed, given):
    """m stands for `plane` at the angle fixed (or given when it is trainable)."""
    th = fixed if fixed is not None else given
    want = ref.observable(plane, th)
    args = [(given,)] if fixed is None else [(), (None,), (fixed,)]
    if plane in "XYZ" and len(plane) == 1:
        args = [(), (None,), (0,)]
    for a in args:
        mat = np.asarray(quiet(m.matrix, *a))
        if not lib.close(mat, want, 1e-12):
            return f"matrix({a}) is not the observable"
        p0, p1 = (np.asarray(x) for x in quiet(m.get_povm, *a))
        if not (lib.close(p0, (ref.I2 + want) / 2, 1e-12) and lib.close(p1, (ref.I2 - want) / 2, 1e-12)):
            return f"get_povm({a}) is not the pair of projectors of the observable"
    return None


def explore(shard, rec):
    if shard[0] == "forms":
        plane = shard[1]
        angles = [None, 0] if len(plane) == 1 else [None] + list(PAIRS if plane == "XYZ" else GRID)
        for ang in angles:
            for name, make in forms(plane, ang):
                case = {"plane": plane, "angle": ang, "form": name}
                rec.state((plane, ang, name))
                with rec.case(case):
                    m = quiet(make)
                    fixed = 0 if len(plane) == 1 else ang
                    rec.op()
                    if m.plane != plane or m.angle != fixed or bool(m.is_trainable()) != (fixed is None):
                        rec.bad(case, f"plane {m.plane}, angle {m.angle}, trainable {m.is_trainable()}")
                        continue
                    for given in (PAIRS if plane == "XYZ" else GRID) if fixed is None else (None,):
                        err = judge(m, plane, fixed, given)
                        rec.op(2)
                        if err:
                            rec.bad({**case, "given": given}, err)
                    if fixed is None:
                        for fn in (m.matrix, m.get_povm):
                            bad, e = raises(fn)
                            rec.op()
                            if not bad or not isinstance(e, ValueError):
                                rec.bad(case, "a trainable measurement has a matrix without an angle")
                    elif len(plane) > 1:
                        for other in (PAIRS if plane == "XYZ" else GRID):
                            if other != fixed:
                                bad, e = raises(m.matrix, other)
                                rec.op()
                                if not bad or not isinstance(e, ValueError):
                                    rec.bad({**case, "given": other}, "another angle than the fixed one is accepted")
                    rec.outcome((plane, fixed is None))
                    rec.trace(case)
        for ang in angles if len(plane) > 1 else ():
            for new in PAIRS if plane == "XYZ" else GRID + (7.5, -20.0, None):
                set_to(rec, plane, ang, new)
    elif shard[0] == "invalid":
        calls = [(("A",), ValueError), (("XX",), ValueError), ((0.3, "YX"), ValueError), (("",), ValueError), ((0.1, "X"), ValueError), ((1, "Z"), ValueError),
                 (("Y", -0.2), ValueError), (([1],), TypeError), (({},), TypeError), ((1j,), TypeError)]
        for args, exc in calls:
            case = {"args": repr(args)}
            rec.state(case["args"])
            with rec.case(case):
                bad, e = raises(mp.Ment, *args)
                rec.op()
                rec.trace(case)
                rec.outcome(exc.__name__)
                if not bad:
                    rec.bad(case, "an invalid measurement is accepted")
                elif not isinstance(e, exc):
                    rec.bad(case, f"refused with {type(e).__name__} instead of {exc.__name__}")
    else:
        _, s, a, depth = shard
        for d in range(0, depth):
            for rest in itertools.product(range(len(OPS)), repeat=d):
                history(rec, s, (a,) + rest)


def set_to(rec, plane, ang, new):
    """set_angle to every angle of the grid, from every start; then on a copy."""
    case = {"plane": plane, "angle": ang, "set_to": new}
    rec.state(("set", plane, ang, new))
    with rec.case(case):
        m = quiet(mp.Ment, plane) if ang is None else quiet(mp.Ment, ang, plane)
        k = m.copy()
        quiet(m.set_angle, new)
        quiet(k.set_angle, new)
        rec.op(2)
        for x in (m, k):
            if x.angle != new or x.plane != plane or bool(x.is_trainable()) != (new is None):
                rec.bad(case, f"the measurement is {x.plane}, {x.angle}, trainable {x.is_trainable()}")
                return
            err = judge(x, plane, new, 1.1)
            if err:
                rec.bad(case, err)
                return
            if new is not None and ang is not None and ang != new:
                bad, e = raises(x.matrix, ang)
                if not bad:
                    rec.bad(case, "the angle it had before is still accepted")
                    return
        rec.trace(case)


STARTS = [("XY", None), ("XY", 0.4), ("YZ", None), ("Z", None), ("XZ", -1.2), ("XY", 0), ("XZ", 0.0), ("XYZ", (0.5, 0.0))]
OPS = [("set", -0.9), ("set", 0), ("copy",), ("deepcopy",), ("node", 3), ("node", "q"), ("first", 7), ("read",)]


def history(rec, s, seq):
    """Model: a list of (plane, angle, node); the last one is operated on, all are judged after every step."""
    plane, ang = STARTS[s]
    case = {"start": [plane, ang], "ops": [OPS[k] for k in seq]}
    rec.state((s, seq))
    with rec.case(case):
        fixed = 0 if len(plane) == 1 else ang
        objs = [quiet(mp.Ment, plane) if ang is None else quiet(mp.Ment, ang, plane)]
        model = [[plane, fixed, None]]
        taken = []  # outcomes handed out earlier, with their node
        for k in seq:
            op = OPS[k]
            m, x = objs[-1], model[-1]
            rec.op()
            if op[0] == "set":
                if len(plane) == 1:
                    continue
                new = (op[1], 0.25) if plane == "XYZ" else op[1]
                r = m.set_angle(new)
                x[1] = new
                if r is not m:
                    rec.bad(case, "set_angle does not return the measurement")
            elif op[0] == "copy":
                objs.append(m.copy())
                model.append([x[0], x[1], None])
            elif op[0] == "deepcopy":
                objs.append(copy.deepcopy(m))
                model.append(list(x))
            elif op[0] in ("node", "first"):
                at = 0 if op[0] == "first" else -1
                objs[at].node_id = op[1]
                model[at][2] = op[1]
                taken.append((objs[at].outcome, op[1]))
            else:
                quiet(m.matrix, 0.5 if x[1] is None else x[1])
            for obj, (p, f, nd) in zip(objs, model):
                if obj.plane != p or obj.angle != f or bool(obj.is_trainable()) != (f is None):
                    rec.bad(case, f"measurement is {obj.plane}, {obj.angle} instead of {p}, {f}")
                    return
                err = judge(obj, p, f, 1.1 if f is None else None)
                if err:
                    rec.bad(case, err)
                    return
                if nd is not None:
                    for bit in (0, 1):
                        if obj.outcome({nd: bit, "other": 1 - bit}) != bit or obj.outcome.cond_nodes != {nd} or obj.node_id != nd:
                            rec.bad(case, "the outcome does not belong to the node of the measurement")
                            return
            for out, nd in taken:
                if any(out({nd: bit, "other": 1 - bit}) != bit for bit in (0, 1)) or out.cond_nodes != {nd}:
                    rec.bad(case, f"the outcome taken when the measurement was at node {nd} changed when it was moved or copied")
                    return
        rec.outcome((len(objs), plane))
        rec.trace(case)
