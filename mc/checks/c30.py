"""C30  Noisy simulation applies the requested channel to every qubit of the resource and nothing else."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C30"
ASSUMPTIONS = [
    "the noise acts once on every qubit of the resource state, inputs and outputs included, after the entangling gates and before the measurements (what the simulator documents by its construction); the output is averaged over the outcomes, after corrections",
    "channels as in PennyLane's documentation, written out as Kraus operators here; density matrices of channels are polynomial in the parameter, which is compared on a grid",
]
GRID = (0.0, 0.1, 0.37, 0.8, 1.0)


def kraus(kind, p, g):
    i, x, y, z = ref.I2, ref.X, ref.Y, ref.Z
    s = np.sqrt
    if kind == "depolarizing":
        return [s(1 - p) * i, s(p / 3) * x, s(p / 3) * y, s(p / 3) * z]
    if kind == "phase_flip":
        return [s(1 - p) * i, s(p) * z]
    if kind == "amplitude_damping":
        return [np.array([[1, 0], [0, s(1 - g)]]), np.array([[0, s(g)], [0, 0]])]
    if kind == "phase_damping":
        return [np.array([[1, 0], [0, s(1 - g)]]), np.array([[0, 0], [0, s(g)]])]
    if kind == "generalized_amplitude_damping":
        return [s(p) * np.array([[1, 0], [0, s(1 - g)]]), s(p) * np.array([[0, s(g)], [0, 0]]), s(1 - p) * np.array([[s(1 - g), 0], [0, 1]]), s(1 - p) * np.array([[0, 0], [s(g), 0]])]
    if kind is None:
        return [i]
    raise ValueError(kind)


KINDS = ("depolarizing", "phase_flip", "amplitude_damping", "phase_damping", "generalized_amplitude_damping")


def params(kind):
    if kind in ("depolarizing", "phase_flip"):
        return [{"p": v} for v in GRID] + [{}]
    if kind.startswith("gen"):
        return [{"p": a, "gamma": b} for a in (0.0, 0.31371, 1.0) for b in (0.0, 0.21713, 0.9)] + [{"gamma": 0.41387}, {"p": 0.41387}]
    return [{"gamma": v} for v in GRID] + [{}]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"every open graph class with causal flow n<=3 and connected n=4, {len(LARGER) - (not t)} circuits with 5 to {7 if t else 6} nodes, listing orders of inputs and outputs x 5 channels x their parameter grids ({len(GRID)} values, 11 pairs) x angles x input states; no noise and unknown noise; a second run of the same simulator")


LARGER = [
    big.wires([5]), big.wires([3, 2]), (5, ((0, 1), (1, 3), (2, 3), (3, 4)), (0, 2), (1, 4)), big.wires([2, 1, 2]), big.wires([1] * 5 + [2]), (6, ((0, 1), (0, 5), (1, 2), (2, 3), (2, 5), (3, 4)), (5, 0), (4, 5)),
    big.grid(2, 3), big.grid(3, 2), big.wires([3, 3]), big.wires([6]), big.wires([2, 2, 2]), big.hub(3, 2, 0, (1, 2)), big.wires([4, 3]),
]


def shards(tier):
    out = [("small", kind, n, k, 4) for kind in KINDS + (None,) for n in (2, 3) for k in range(4 if n == 3 else 1) if True]
    out = [(a, kind, n, k, 4 if n == 3 else 1) for a, kind, n, k, _ in out]
    out += [("big", kind, k, 16, tier) for kind in KINDS for k in range(16)]
    out += [("larger", kind, k) for kind in KINDS + (None,) for k in range(len(LARGER) if tier == "thorough" else len(LARGER) - 1)]
    return out + [("unknown",)]


def explore(shard, rec):
    if shard[0] == "unknown":
        return unknown(rec)
    if shard[0] == "small":
        _, kind, n, k, m = shard
        classes = flowing(n, False)
        for idx, (edges, i, o) in enumerate(classes):
            if idx % m == k:
                lists = {(i, o), (i[::-1], o), (i, o[::-1])}
                for il, ol in sorted(lists):
                    one(rec, kind, n, edges, il, ol, params(kind) if kind else [{}], letters="+i" if n == 3 else "0+i")
    elif shard[0] == "larger":
        _, kind, k = shard
        n, edges, i, o = LARGER[k]
        for il, ol in ((i, o), (i[::-1], o), (i, o[::-1])) if len(i) > 1 else ((i, o),):
            one(rec, kind, n, edges, il, ol, {None: [{}]}.get(kind) or (params(kind)[1:3] if not kind.startswith("gen") else params(kind)[4:6]), letters="i")
    else:
        _, kind, k, m, tier = shard
        classes = flowing(4, True)
        for idx, (edges, i, o) in enumerate(classes):
            if idx % m == k:
                one(rec, kind, 4, edges, i, o[::-1], (params(kind)[1:3] if not kind.startswith("gen") else params(kind)[4:5])[:None if tier == "thorough" or idx % 3 == 0 else 1], letters="i")


def flowing(n, connected):
    return [(e, i, o) for e, i, o in ref.open_graph_classes(n, connected=connected) if len(i) == len(o) < n and ref.has_causal_flow(n, e, i, o)]


def op1(m, k, n):
    return ref.kron(*[m if q == k else ref.I2 for q in range(n)])


def reference(n, edges, i, o, angles, psi, kr, flow, order):
    """angles: node -> XY angle."""
    t = np.tensordot(ref.open_graph_tensor(n, edges, i), psi.reshape([2] * len(i)), axes=len(i)).reshape(-1)
    rho = np.outer(t, t.conj())
    for q in range(n):
        ks = [op1(k, q, n) for k in kr]
        rho = sum(k @ rho @ k.conj().T for k in ks)
    a = ref.adj(n, edges)
    for v in [x for x in order if x in angles]:
        new = np.zeros_like(rho)
        for out in (0, 1):
            vec = ref.eigvec("XY", angles[v], out)
            p = op1(np.outer(vec, vec.conj()), v, n)
            if out:
                p = op1(ref.X, flow[v], n) @ p
                for w in a[flow[v]] - {v}:
                    p = op1(ref.Z, w, n) @ p
            new += p @ rho @ p.conj().T
        rho = new
    t = rho.reshape([2] * (2 * n))
    rest = [q for q in range(n) if q not in o]
    t = t.transpose(list(o) + rest + [n + q for q in o] + [n + q for q in rest]).reshape(2 ** len(o), 2 ** len(rest), 2 ** len(o), 2 ** len(rest))
    return np.einsum("aibi->ab", t)


def one(rec, kind, n, edges, i, o, plist, letters):
    for par in plist:
        kr = kraus(kind, par.get("p", 0), par.get("gamma", 0))
        first = True
        for letter in letters:
            case = {"noise": kind, "parameters": par, "n": n, "edges": list(map(list, edges)), "inputs": list(i), "outputs": list(o), "input": letter}
            rec.state((kind, str(par), n, edges, i, o, letter))
            with rec.case(case):
                c = lib.circuit(n, edges, i, o)
                psi = ref.kron_states([ref.CARD[x] for x in (letter + "0i+1-")[:len(i)]]) if letter != "i" or len(i) <= 3 else ref.kron_states([ref.CARD[x] for x in "i0+i1-"[:len(i)]])
                kw = dict(par)
                if kind:
                    kw["circuit_noise"] = kind
                s = lib.sim(c, "pennylane", psi, device="default.mixed", **kw)
                flow = {v: c.flow(v) for v in c.outputc}
                for ang in ((0.41387, -1.10773, 2.31877, 1.29317, -0.60719), (2.0, 0.9, -0.3, 0.5, 1.1)) if first else ((0.41387, -1.10773, 2.31877, 1.29317, -0.60719),):
                    angles = dict(zip(c.trainable_nodes, ang))
                    got = np.asarray(quiet(s.run, [angles[v] for v in c.trainable_nodes]))
                    rec.op()
                    want = reference(n, edges, i, o, angles, psi, kr, flow, list(c.measurement_order))
                    if not lib.close(got, want, 1e-6):
                        rec.bad({**case, "angles": ang[:len(angles)]}, f"density matrix off by {np.abs(got - want).max() if got.shape == want.shape else got.shape}")
                        break
                first = False
                rec.trace(case)
                rec.outcome((kind, str(par), round(float(np.real(np.trace(got @ got))), 6)))


def unknown(rec):
    c = mp.templates.linear_cluster(3)
    for name in ("bit flip", "", "Depolarizing", "amplitude damping", 3):
        case = {"noise": name}
        rec.state(name)
        with rec.case(case):
            r, e = raises(lambda: lib.sim(c, "pennylane", None, device="default.mixed", circuit_noise=name, p=0.1).run([0.1, 0.2]))
            rec.op()
            rec.trace(case)
            rec.outcome(r)
            if not r:
                rec.bad(case, "an unknown kind of noise is silently ignored")
    for kind in KINDS:
        for par in ({"p": 1.5, "gamma": 1.5}, {"p": -0.2, "gamma": -0.2}):
            case = {"noise": kind, "parameters": par}
            rec.state((kind, str(par)))
            with rec.case(case):
                r, e = raises(lambda: lib.sim(c, "pennylane", None, device="default.mixed", circuit_noise=kind, **par).run([0.1, 0.2]))
                rec.op()
                rec.trace(case)
                if not r:
                    rec.bad(case, "a noise parameter outside [0, 1] is accepted")
