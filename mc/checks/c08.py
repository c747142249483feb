"""C08  Every backend computes the map the pattern stands for."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet

ID = "C08"
ASSUMPTIONS = [
    "reference: the pattern with all outcomes 0, contracted node by node from graph, inputs and measurement bases only",
    "for a pattern with flow all branches are equally likely, so the output is a trigonometric polynomial of degree 1 in every angle: agreement on the "
    "grid {0, 2pi/3, 4pi/3} per angle is agreement at every real angle (up to rounding); agreement on {0,1,+,i}^k and one entangled state covers the input space by linearity",
    "the PennyLane backend leaves outputs unmeasured and handles X, Y and XY only, so it is compared on those",
]
GRID = (0.0, 2 * np.pi / 3, 4 * np.pi / 3)
KINDS = ("XY", ("XY", 1.1), "X", "Y")


def BOUNDS(tier):
    return ("larger circuits (7..12 nodes, up to 4 inputs: wires, grids, ladders, hubs, and everything with a flow that differs from them in one edge): generic angles, mixes of fixed, Pauli and trainable measurements, "
            "listing orders of inputs and outputs, backends in turn; "
            "every open graph class with causal flow n<=4 nodes x every listing order of inputs x of outputs; "
            "n<=3: full angle grid x all tomographic inputs x 3 backends; n=4: full angle grid x all inputs on the state vector backend (two inputs on density matrix), "
            "one generic angle vector x every listing order x an entangled complex input on all; all assignments of {XY trainable, XY fixed, X, Y} to the measured nodes (n<=4) x one generic angle vector; "
            + ("n=5: every class, full grid x all inputs (<=2 input qubits) on the state vector backend, generic angles on the others; n=6 classes with 1-2 inputs, generic angles, state vector"
               if tier == "thorough" else "n=5: every class, generic angles x all inputs (<=2 input qubits) on the state vector backend, two inputs on the others"))


def shards(tier):
    out = [("g", 2, 0, 1, tier)] + [("g", 3, k, 8, tier) for k in range(8)] + [("g", 4, k, 48, tier) for k in range(48)] + [("f", 5, k, 48, tier) for k in range(48)]
    out += [("larger", 0, k, 48, tier) for k in range(48)]
    if tier == "thorough":
        out += [("s", 6, k, 64, tier) for k in range(64)]
    return out


def inputs(k):
    yield from ref.tomography_inputs(k)
    if k:
        v = np.array([(1 + j) * np.exp(1j * j * j) for j in range(2**k)])
        yield "ent", v / np.linalg.norm(v)


def compare(rec, n, edges, i, o, kinds, backend, angle_sets, ins, label):
    """One circuit, one backend, many angle vectors and inputs."""
    base = {"n": n, "edges": edges, "in": i, "out": o, "kinds": sorted(kinds.items()), "backend": backend, "space": label}
    with rec.case(base):
        c = lib.circuit(n, edges, i, o, measurements={v: lib.raw_ment(k) for v, k in kinds.items()})
        tr = list(c.trainable_nodes)
        rec.op()
        if sorted(tr) != sorted(v for v in kinds if lib.trainable_kind(kinds[v])):
            rec.bad(base, f"trainable nodes are {tr}")
            return
    for angles in angle_sets:
        amap = dict(zip(sorted(tr), angles))
        ments = {v: (k, amap.get(v, 0.0)) if isinstance(k, str) else k for v, k in kinds.items()}
        m = ref.branch_map(n, edges, i, o, ments)
        for name, psi in ins:
            case = {**base, "angles": [round(float(x), 6) for x in angles], "input": name}
            rec.state((n, edges, i, o, repr(kinds), backend, tuple(angles), name))
            with rec.case(case):
                give = psi.copy()
                got, s = lib.run(c, backend, [amap[v] for v in tr], give)
                want, p = ref.normalised_dm(m, psi)
                rec.op(2)
                rec.note(backend)
                if not lib.close(got, want):
                    rec.bad(case, f"output differs from the pattern's map by {np.abs(got - want).max() if got.shape == want.shape else 'shape'}")
                rec.outcome(np.round(want, 3).tobytes())
                if not np.array_equal(give, psi):
                    rec.bad(case, "the input state array was modified")
            if n <= 3:
                rec.trace(case)
            else:
                rec.trace()


def larger(rec, k, m, tier):
    idx = 0
    for name, n, edges, i, o in big.bases(tier):
        if not 7 <= n <= 12 or len(i) > 4:
            continue
        for e in big.nearby(n, edges):
            if big.causal(n, e, i, o) is None:
                continue
            idx += 1
            if idx % m != k:
                continue
            meas = [v for v in range(n) if v not in o]
            ins = list(inputs(len(i)))
            psis = [ins[-1], ins[idx // m % (len(ins) - 1)]]
            q = idx // m
            ii, oo = (i[::-1] if q % 2 else i[1:] + i[:1]), (o[::-1] if q % 3 else o)
            gen = [tuple(0.371938 + 0.612847 * j + 0.1 * q for j in range(len(meas)))]
            xy = {v: "XY" for v in meas}
            kinds = {v: KINDS[(v + q + v * v // 5) % 4] for v in meas[:: -1 if q % 2 else 1]}
            ang = [tuple(0.371938 - 0.612847 * j for j, v in enumerate(meas) if lib.trainable_kind(kinds[v]))]
            compare(rec, n, e, i, o, xy, "numpy-sv", gen, psis, "larger")
            compare(rec, n, e, ii, oo, kinds, "numpy-sv", ang, psis[:1], "larger")
            if len(i) < 4:
                compare(rec, n, e, ii, oo, xy, "numpy-dm", gen, psis[:1], "larger")
                compare(rec, n, e, i, oo, kinds, "numpy-dm", ang, psis[:1], "larger")
            if n <= 10 and q % 2 == 0:
                compare(rec, n, e, ii, o, kinds, "pennylane", ang, psis[:1], "larger")


def explore(shard, rec):
    kind, n, k, m, tier = shard
    if kind == "larger":
        return larger(rec, k, m, tier)
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, connected=(n == 6)):
        if not ref.has_causal_flow(n, edges, i, o):
            continue
        if n == 6 and len(i) > 2:
            continue
        idx += 1
        if idx % m != k:
            continue
        meas = [v for v in range(n) if v not in o]
        gen = [tuple(0.371938 + 0.612847 * j for j in range(len(meas)))]
        grid = list(itertools.product(GRID, repeat=len(meas)))
        allin = list(inputs(len(i)))
        few = [allin[-1], allin[min(len(allin) - 1, 1)]]
        xy = {v: "XY" for v in meas}
        perms = [(a, b) for a in itertools.permutations(i) for b in itertools.permutations(o)]
        if kind == "s":
            compare(rec, n, edges, i, o, xy, "numpy-sv", gen, allin, "generic")
            continue
        if kind == "f":
            compare(rec, n, edges, i, o, xy, "numpy-sv", grid if tier == "thorough" and len(i) < 3 else gen, allin if len(i) < 3 else few, "grid" if tier == "thorough" else "generic")
            compare(rec, n, edges, i[::-1], o, xy, "numpy-sv", gen, few, "generic")
            ext = allin if tier == "thorough" else few
            compare(rec, n, edges, i, o[::-1], xy, "numpy-dm", gen, ext, "generic")
            compare(rec, n, edges, i[::-1], o, xy, "pennylane", gen, ext, "generic")
            continue
        for num, (ii, oo) in enumerate(perms):
            for backend in lib.BACKENDS:
                if num == 0 and (n <= 3 or backend != "pennylane"):
                    compare(rec, n, edges, ii, oo, xy, backend, grid, (allin if n <= 3 or backend == "numpy-sv" or tier == "thorough" else few) if len(i) < 4 else few, "grid")
                wide = allin if len(i) < 3 or (tier == "thorough" and backend != "pennylane" and len(i) < 4) else few
                compare(rec, n, edges, ii, oo, xy, backend, gen, wide if n <= 3 or (num < 4 and backend != "pennylane") else few[:1], "generic")
                if num == 0 or n <= 3:
                    for ks in itertools.product(KINDS, repeat=len(meas)):
                        kinds = dict(zip(meas, ks))
                        ang = [tuple(0.371938 + 0.612847 * j for j, v in enumerate(meas) if lib.trainable_kind(kinds[v]))]
                        compare(rec, n, edges, ii, oo, kinds, backend, ang, few[:1] if n > 3 else few, "kinds")
                        if num % 2:  # insertion order of the dictionary decides the order of the angles
                            compare(rec, n, edges, ii, oo, dict(zip(meas[::-1], ks[::-1])), backend, ang, few[:1], "kinds-rev")
