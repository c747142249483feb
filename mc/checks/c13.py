"""C13  Stacking and merging circuits composes the maps they stand for."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C13"
ASSUMPTIONS = [
    "composition is stated for joints at which no two fused nodes are adjacent in both circuits (the joint keeps one edge where the physics would cancel two)",
    "outputs that are joined carry no measurement",
    "a measurement of the first circuit at a joined output, if any, gives way to the second circuit's measurement of that node",
]


def BOUNDS(tier):
    return ("all ordered pairs of open graph classes with causal flow on <=3 nodes (n<=4 x n<=3 too" + (", n<=4 x n<=4 with <=2 wires" if tier == "thorough" else "")
            + ") x every listing order of the joint (outputs of the first, inputs of the second) x {hstack, vstack, merge along every partial matching, list of three}; "
            "distinct fixed angles, Pauli bases and trainable angles; result map compared with the matrix product / Kronecker product; operands unchanged; wrong sizes refused; "
            "wide joints (2..5 wires, grids, hubs, every rotation and reversal of the joint) and lists of up to six circuits (the map is read off the composed graph and measurements, without a simulator); "
            "controls on one, two and three nodes (every condition set, four condition shapes) of operands with four node labellings, stacked on either side or merged: every control looks at the nodes it looked at")


def shards(tier):
    out = [("pair", 3, 3, k, 24) for k in range(24)] + [("pair", 4, 3, k, 32) for k in range(32)] + [("pair", 3, 4, k, 32) for k in range(32)]
    if tier == "thorough":
        out += [("pair", 4, 4, k, 96) for k in range(96)]
    out += [("three", 0, 0, k, 8) for k in range(8)] + [("bad", 0, 0, 0, 1), ("ctrl", 0, 0, 0, 1)]
    out += [("wide", 0, 0, k, 16) for k in range(16)] + [("lists", 0, 0, k, 8) for k in range(8)] + [("labels", 0, 0, k, 8) for k in range(8)]
    return out


def classes(n):
    return [(n, e, i, o) for e, i, o in ref.open_graph_classes(n) if ref.has_causal_flow(n, e, i, o)]


def kinds_for(n, o, off):
    """Measurements of one operand: a mix of trainable, fixed and Pauli, every node different."""
    out = {}
    for j, v in enumerate(v for v in range(n) if v not in o):
        out[v] = ["XY", ("XY", 0.318309 + 0.52187 * j + off), "Y", "X"][(j + int(off * 7)) % 4]
    return out


def make(x, off):
    n, e, i, o = x
    k = kinds_for(n, o, off)
    return lib.circuit(n, e, i, o, measurements={v: lib.raw_ment(q) for v, q in k.items()}), k


def map_of(x, kinds, angles):
    n, e, i, o = x
    return ref.branch_map(n, e, i, o, {v: (k, angles.get(v, 0.0)) if isinstance(k, str) else k for v, k in kinds.items()})


def real_map_equals(c, angles, want):
    """Compare the circuit's output with `want` on tomographic inputs (or a generic entangled one)."""
    k = len(c.input_nodes)
    ins = list(ref.tomography_inputs(k)) if k <= 1 else []
    v = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2**k)])
    w = np.array([(2 - 1j * j) * (1 + 0.3 * j * j) for j in range(2**k)])
    ins += [("ent", v / np.linalg.norm(v)), ("ent2", w / np.linalg.norm(w))]
    kw = {} if c.flow is not None else {"schedule": list(c.input_nodes) + [x for x in c.graph.nodes if x not in c.input_nodes], "window_size": len(c)}
    for name, psi in ins:
        got, _ = lib.run(c, "numpy-sv", angles, psi, **kw)
        if not lib.close(got, ref.normalised_dm(want, psi)[0]):
            return name
    return None


def static_map_equals(c, angles, want):
    """Compare the linear map of the composed circuit, read off its graph and measurements, with `want`."""
    nodes = list(c.graph.nodes)
    at = {v: j for j, v in enumerate(nodes)}
    ang = dict(zip(c.trainable_nodes, angles))
    ments = {at[v]: (c[v].plane, c[v].angle if c[v].angle is not None else ang[v]) for v in nodes if c[v] is not None}
    got = ref.branch_map(len(nodes), tuple(tuple(sorted((at[u], at[v]))) for u, v in c.graph.edges), tuple(at[v] for v in c.input_nodes), tuple(at[v] for v in c.output_nodes), ments)
    return None if got.shape == want.shape and ref.proportional(got, want) else "any"


def embed(n_wires, wires, m):
    """m acts on `wires` (in that order) of n_wires wires, identity elsewhere (same positions out)."""
    t = np.eye(2**n_wires, dtype=complex).reshape([2] * (2 * n_wires))
    k = len(wires)
    t = np.tensordot(m.reshape([2] * (2 * k)), t, axes=(list(range(k, 2 * k)), list(wires)))
    t = np.moveaxis(t, list(range(k)), list(wires))
    return t.reshape(2**n_wires, 2**n_wires)


def doubly_adjacent(x, y, along):
    return any(tuple(sorted((a[0], b[0]))) in x[1] and tuple(sorted((a[1], b[1]))) in y[1] for a, b in itertools.combinations(along, 2))


def pair(rec, x, y, how, along=None, equals=real_map_equals):
    case = {"how": how, "first": x, "second": y, "along": along}
    rec.state(repr(case))
    with rec.case(case):
        c1, k1 = make(x, 0.0)
        c2, k2 = make(y, 0.15)
        v1, v2 = lib.view_of(c1), lib.view_of(c2)
        a1 = {v: 0.4 + 0.3 * j for j, v in enumerate(c1.trainable_nodes)}
        a2 = {v: -0.9 - 0.45 * j for j, v in enumerate(c2.trainable_nodes)}
        m1, m2 = map_of(x, k1, a1), map_of(y, k2, a2)
        if how == "hstack":
            c = quiet(mp.hstack, [c1, c2])
            want = m2 @ m1
            nodes = x[0] + y[0] - len(x[3])
        elif how == "vstack":
            c = quiet(mp.vstack, [c1, c2])
            want = np.kron(m1, m2)
            nodes = x[0] + y[0]
        else:
            c = quiet(mp.merge, c1, c2, along)
            nodes = x[0] + y[0] - len(along)
            # wires: outputs of the first, then the free inputs of the second
            n1, free = len(x[3]), [j for j in y[2] if j not in [b for _, b in along]]
            total = n1 + len(free)
            pos = {**{b: x[3].index(a) for a, b in along}, **{j: n1 + t for t, j in enumerate(free)}}
            first = np.kron(m1, np.eye(2 ** len(free)))
            second = embed(total, [pos[j] for j in y[2]], m2)
            want = second @ first  # output k of the second sits where its input k was
        rec.op()
        if len(c.graph) != nodes:
            rec.bad(case, f"{len(c.graph)} nodes, expected {nodes}")
            return
        if lib.view_of(c1) != v1 or lib.view_of(c2) != v2:
            rec.bad(case, "an operand was modified")
            return
        angles = [a1[v] for v in c1.trainable_nodes] + [a2[v] for v in c2.trainable_nodes]
        if len(c.trainable_nodes) != len(angles):
            rec.bad(case, f"{len(c.trainable_nodes)} trainable nodes, the operands have {len(angles)}")
            return
        if c.flow is None and len(c.graph) > 7:
            rec.note("no_flow_too_big")
            return
        name = equals(c, angles, want)
        rec.op(1)
        rec.note(how)
        rec.outcome((how, len(x[2]), len(y[2]), c.flow is not None))
        if name:
            rec.bad(case, f"the result is not the composition of the two maps (input {name})")
        elif c.flow is None:
            rec.bad(case, "two circuits with flow give a circuit without flow")
        else:
            err = lib.order_errors(c)
            if err:
                rec.bad(case, err)
        rec.trace(case)


def listed(rec, how, parts, equals=real_map_equals):
    case = {"how": f"{how}{len(parts)}", "parts": list(parts)}
    rec.state(repr(case))
    with rec.case(case):
        cs, ang, maps = [], [], []
        for j, t in enumerate(parts):
            c, kk = make(t, 0.15 * j)
            a = {v: 0.4 + 0.15 * j + 0.3 * q for q, v in enumerate(c.trainable_nodes)}
            cs.append(c)
            ang += [a[v] for v in c.trainable_nodes]
            maps.append(map_of(t, kk, a))
        if how == "hstack":
            if any(doubly_adjacent(x, y, list(zip(x[3], y[2]))) for x, y in zip(parts, parts[1:])):
                return
            if any(through(*t) for t in zip(parts, parts[1:], parts[2:])):
                return
        c = quiet(getattr(mp, how), cs)
        rec.op()
        want = maps[0]
        for mm in maps[1:]:
            want = mm @ want if how == "hstack" else np.kron(want, mm)
        name = equals(c, ang, want)
        if name:
            rec.bad(case, f"the result is not the composition of the maps (input {name})")
        rec.outcome((how, len(c.graph)))
        rec.trace(case)


def wide(rec, k, m):
    """Joints of up to five wires."""
    idx = 0
    for w in (2, 3, 4, 5):
        ops = [big.wires([2] * w), big.grid(w, 2)]
        if w > 2:
            ops += [big.hub(w, 2, 0, range(1, w)), big.wires([2] * (w - 1) + [1]), big.wires([1] * (w - 1) + [3])]
        if w < 4:
            ops += [big.grid(w, 3), big.wires([3] * w)]
        for x, y in itertools.product(ops, repeat=2):
            if w < 4:
                idx += 1
                if idx % m == k:
                    pair(rec, x, y, "vstack", None, static_map_equals)
            for r in range(w):
                for flip in (False, True):
                    idx += 1
                    if idx % m != k:
                        continue
                    o = tuple(x[3][r:] + x[3][:r])
                    o = o[::-1] if flip else o
                    xx = (*x[:3], o)
                    along = list(zip(o, y[2]))
                    if not doubly_adjacent(xx, y, along):
                        pair(rec, xx, y, "hstack", None, static_map_equals)
                    for size in range(1, w + 1):
                        if 2 * w - size <= 6 and not doubly_adjacent(x, y, along[:size]):
                            pair(rec, x, y, "merge", along[:size][:: -1 if flip else 1], static_map_equals)


def lists(rec, k, m):
    """Lists of four to six circuits."""
    one = [big.wires([2]), big.wires([3]), big.wires([1])]
    two = [big.wires([2, 2]), big.grid(2, 2), big.grid(2, 1), (4, ((0, 2), (1, 3)), (1, 0), (2, 3)), big.wires([3, 1])]
    jobs = []
    for r in (4, 5):
        jobs += [("vstack", t) for t in itertools.product(one, repeat=r) if sum(x[0] for x in t) <= 10]
        jobs += [("hstack", t) for t in itertools.product(one[:2], repeat=r)]
    jobs += [("hstack", t) for t in itertools.product(two, repeat=4)] + [("hstack", (two[a], two[b]) * 3) for a in range(5) for b in range(5)]
    jobs += [("vstack", t) for t in itertools.product([two[0], two[1], one[0]], repeat=3)]
    for j, (how, t) in enumerate(jobs):
        if j % m == k:
            listed(rec, how, t, static_map_equals)


LABELS = ((0, 1, 2, 3, 4), (0, 2, 1, 3, 4), (4, 3, 2, 1, 0), (3, 0, 7, 5, 9))


def labels(rec, k, m):
    """Every control looks at the same nodes before and after, whatever the labels of the operands were."""
    idx = 0
    others = [lambda: mp.templates.linear_cluster(2), lambda: mp.templates.linear_cluster(4)]
    for names in LABELS:
        for v in range(1, 4):
            for size in (1, 2, 3):
                for cs in itertools.combinations(range(v), size):
                    for shape in range(4):
                        for how, first in itertools.product(("hstack", "vstack", "merge"), (False, True)):
                            idx += 1
                            if idx % m == k:
                                label(rec, names, v, cs, shape, how, first, others[shape % 2]())


def label(rec, names, v, cs, shape, how, first, other):
    case = {"labels": names, "controlled": v, "by": cs, "shape": shape, "how": how, "stacked": "first" if first else "second"}
    rec.state(repr(case))
    with rec.case(case):
        g = mp.GraphState()
        g.add_nodes_from(names)
        g.add_edges_from(zip(names, names[1:]))
        a = quiet(mp.MBQCircuit, g, input_nodes=[names[0]], output_nodes=[names[4]], relabel_indices=False)
        angle = {j: 0.25 + 0.125 * j for j in range(4)}
        for j in range(4):
            a[names[j]] = mp.Ment(angle[j])
        o = [a[names[j]].outcome for j in cs]
        cond, fn = o[0], lambda bits: bool(bits[0])
        if len(o) > 1:
            if shape == 0:
                cond, fn = o[0] + o[1], lambda bits: bool(bits[0] ^ bits[1])
            elif shape == 1:
                cond, fn = o[0] & ~o[1], lambda bits: bool(bits[0] and not bits[1])
            elif shape == 2:
                cond, fn = ~o[0] & o[1], lambda bits: bool(bits[1] and not bits[0])
            else:
                cond, fn = o[0] | o[1], lambda bits: bool(bits[0] or bits[1])
        if len(o) > 2:
            two = fn
            cond, fn = cond & o[2], lambda bits: two(bits) and bool(bits[2])
        if shape % 2:
            cond, inner = ~cond, fn
            fn = lambda bits: not inner(bits)  # noqa: E731
        quiet(a.__setitem__, names[v], mp.ControlMent(cond, angle[v], "XY", 0, "X"))
        pairs = (a, other) if first else (other, a)
        before = lib.view_of(a)
        if how == "merge":
            along = [(pairs[0].output_nodes[0], pairs[1].input_nodes[0])]
            c = quiet(mp.merge, *pairs, along)
        else:
            c = quiet(getattr(mp, how), pairs)
        rec.op()
        if lib.view_of(a) != before:
            rec.bad(case, "the operand was modified")
            return
        if len(c.controlled_nodes) != 1:
            rec.bad(case, f"{len(c.controlled_nodes)} controlled nodes")
            return
        at = {}
        for j in range(4):
            hit = list(c.controlled_nodes) if j == v else [w for w in c.graph.nodes if w not in c.output_nodes and w not in c.controlled_nodes and c[w].angle == angle[j]]
            if len(hit) != 1:
                rec.bad(case, f"the measurement of node {names[j]} is at {hit}")
                return
            at[j] = hit[0]
        got = c[at[v]].condition
        if set(got.cond_nodes) != {at[j] for j in cs}:
            rec.bad(case, f"the condition depends on {sorted(got.cond_nodes)}, expected {sorted(at[j] for j in cs)}")
            return
        if any(not c.partial_order(at[j], at[v]) for j in cs):
            rec.bad(case, "a control does not come before the measurement it controls")
        for bits in itertools.product((0, 1), repeat=len(cs)):
            env = {w: 1 - bits[0] for w in c.graph.nodes}
            env.update({at[j]: b for j, b in zip(cs, bits)})
            if bool(got(env)) != fn(bits):
                rec.bad(case, f"the condition at outcomes {bits} is {not fn(bits)}")
                return
        rec.note("labels")
        rec.trace(case)



def three(rec, k, m):
    cl = classes(2) + classes(3)
    idx = -1
    for x, y, z in itertools.product(cl, repeat=3):
        if x[0] + y[0] + z[0] > 8:
            continue
        for how in ("hstack", "vstack"):
            if how == "hstack" and not (len(x[3]) == len(y[2]) and len(y[3]) == len(z[2])):
                continue
            if how == "vstack" and len(x[2]) + len(y[2]) + len(z[2]) > 4:
                continue
            idx += 1
            if idx % m != k:
                continue
            listed(rec, how, (x, y, z))
    if k == 0:
        for how in ("hstack", "vstack"):
            case = {"how": how, "single": True}
            with rec.case(case):
                c = lib.circuit(*cl[1])
                if lib.view_of(quiet(getattr(mp, how), [c])) != lib.view_of(c):
                    rec.bad(case, "stacking one circuit changes it")
                bad, e = raises(getattr(mp, how), [])
                if not bad or not isinstance(e, ValueError):
                    rec.bad(case, "stacking nothing is not refused with ValueError")


def through(x, y, z):
    """Wires of y that are plain (input = output) may make x and z doubly adjacent."""
    ends = [(a, c) for (a, b, bo, c) in zip(x[3], y[2], y[3], z[2]) if b == bo]
    xy = [(a, c) for a, c in zip(x[3], z[2])]
    for (p, (a, c)), (q, (a2, c2)) in itertools.combinations(enumerate(xy), 2):
        plain = y[2][p] == y[3][p] and y[2][q] == y[3][q]
        e_xy = tuple(sorted((a, a2))) in x[1] or tuple(sorted((y[2][p], y[2][q]))) in y[1]
        if plain and e_xy and tuple(sorted((c, c2))) in z[1]:
            return True
    return False


def bad(rec):
    cl = classes(2) + classes(3)
    for x, y in itertools.product(cl, repeat=2):
        c1, c2 = lib.circuit(*x), lib.circuit(*y)
        if len(x[3]) != len(y[2]):
            case = {"how": "hstack", "first": x, "second": y, "expect": "refused"}
            rec.state(repr(case))
            with rec.case(case):
                r, e = raises(mp.hstack, [c1, c2])
                rec.op()
                if not r or not isinstance(e, ValueError):
                    rec.bad(case, "circuits of different width are stacked")
                rec.trace()
        for u, v in itertools.product(range(x[0]), range(y[0])):
            if u in x[3] and v in y[2]:
                continue
            case = {"how": "merge", "first": x, "second": y, "along": [(u, v)], "expect": "refused"}
            rec.state(repr(case))
            with rec.case(case):
                r, e = raises(mp.merge, c1, c2, [(u, v)])
                rec.op()
                if not r or not isinstance(e, ValueError):
                    rec.bad(case, "a merge along nodes that are not output/input is accepted")
                rec.trace()


def ctrl(rec):
    """Controls keep pointing at the nodes they pointed at."""
    wire = (3, ((0, 1), (1, 2)), (0,), (2,))
    for how, which, u, val in itertools.product(("hstack", "vstack"), ("first", "second", "both"), ("X", "XY"), (0, 1)):
        case = {"how": how, "controlled_in": which, "plane": u, "outcome": val}
        rec.state(repr(case))
        with rec.case(case):
            cs = []
            for w in ("first", "second"):
                c = lib.circuit(*wire, measurements={0: mp.Ment(0.7 if w == "first" else 1.3), 1: mp.Ment(0.2 if w == "first" else 0.5)})
                if which in (w, "both"):
                    quiet(c.__setitem__, 1, mp.ControlMent(c[0].outcome, 0.9, "XY", 0, "X"))
                cs.append(c)
            c = quiet(getattr(mp, how), cs)
            rec.op()
            srt = sorted(c.controlled_nodes)
            if len(srt) != (2 if which == "both" else 1):
                rec.bad(case, f"controlled nodes {srt}")
                return
            for v in srt:
                nb = [w for w in c.graph.neighbors(v) if w not in c.output_nodes]
                cn = set(c[v].condition.cond_nodes)
                # the control is the earlier neighbour on the wire
                want = {w for w in c.graph.nodes if w not in c.output_nodes and c.graph.has_edge(v, w) and c.partial_order(w, v) and c.flow(w) == v}
                if cn != want:
                    rec.bad(case, f"node {v} is controlled by {cn}, expected {want}")
                    continue
                w = next(iter(want))
                for b in (0, 1):
                    env = {x: 1 - b for x in c.graph.nodes}
                    env[w] = b
                    if bool(c[v].condition(env)) != bool(b):
                        rec.bad(case, f"the condition of node {v} does not follow the outcome of node {w}")
            rec.outcome((how, which))
            rec.trace(case)


def explore(shard, rec):
    kind, na, nb, k, m = shard
    if kind in ("wide", "lists", "labels"):
        return {"wide": wide, "lists": lists, "labels": labels}[kind](rec, k, m)
    if kind == "three":
        return three(rec, k, m)
    if kind == "bad":
        return bad(rec)
    if kind == "ctrl":
        return ctrl(rec)
    ca = classes(na) + (classes(2) if (na, nb) == (3, 3) else [])
    cb = classes(nb) + (classes(2) if (na, nb) == (3, 3) else [])
    idx = -1
    for x, y in itertools.product(ca, cb):
        if len(x[2]) + len(y[2]) > (6 if na + nb < 7 else 4):
            continue
        idx += 1
        if idx % m != k:
            continue
        n1, e1, i1, o1 = x
        n2, e2, i2, o2 = y
        if x[0] + y[0] <= 7:
            pair(rec, x, y, "vstack")
        if len(o1) == len(i2):
            for po in itertools.permutations(o1):
                for ii in ((i2, o2), (i2[::-1], o2)):
                    xx, yy = (n1, e1, i1, po), (n2, e2) + ii
                    if doubly_adjacent(xx, yy, list(zip(po, ii[0]))):
                        rec.note("doubly_adjacent")
                        continue
                    pair(rec, xx, yy, "hstack")
        # partial matchings
        for r in range(0, min(len(o1), len(i2)) + 1):
            for a in itertools.combinations(o1, r):
                for b in itertools.permutations(i2, r):
                    along = list(zip(a, b))
                    if doubly_adjacent(x, y, along) or x[0] + y[0] - r > 7:
                        continue
                    pair(rec, x, y, "merge", along)
                    if r > 1:
                        pair(rec, x, y, "merge", along[::-1])
