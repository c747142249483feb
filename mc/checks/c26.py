"""C26  Training data: splits lose nothing, inputs keep their targets, and targets are what the unitary makes of the inputs."""
import itertools
import math

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C26"
ASSUMPTIONS = [
    "the permutation drawn by a randomised split, and the bit flips drawn by the noise, are scripted and every outcome is explored; "
    "the Gaussian draws behind random states and Brownian noise come from fixed generator states (their distribution is statistical and not judged), and the relations hold for every draw",
    "with flips, the target is U applied first and the flips afterwards; with Brownian noise V, the target is V U V^-1 applied to the input, with V unitary and the identity at noise level 0",
]
SIZES = (0, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1, 1.0)


def BOUNDS(tier):
    n = 6 if tier == "thorough" else 5
    return (f"split: every number of samples 0..{n}, 12 test sizes, lists, arrays and tuples, not randomised and under every permutation (and 7..48 samples not randomised); "
            "datasets: unitaries on 1..4 qubits x 1..8 samples x test sizes, and 12, 17, 24, 40 samples (with every kind of noise; on 5 qubits 8 samples); noise: both kinds x 5 levels x every pattern of bit flips for up to 3 training samples on 1..2 qubits, 2 on 3 qubits, 1 on 4 and 5 qubits; single samples; invalid levels and kinds")


def shards(tier):
    n = 6 if tier == "thorough" else 5
    return [("split", k, s) for k in range(n + 1) for s in range(len(SIZES))] + [("long",), ("sets",), ("brownian",), ("states",), ("invalid",)] + [("flips", q, s) for q, s in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (5, 1))]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


def nest(kind, xs):
    return {"list": list(xs), "array": np.array(xs), "tuple": tuple(xs), "vectors": [np.array([x, -x]) for x in xs], "matrix": np.array([[x, -x] for x in xs]).reshape(len(xs), 2)}[kind]


def flat(data):
    return [int(np.ravel(x)[0]) for x in data]


def split_case(rec, n, size, kind, draws=None):
    """One split; draws: the scripted random choices (None: not randomised). Returns the order of the samples."""
    case = {"samples": n, "test_size": size, "as": kind, "draws": draws}
    rec.state((n, size, kind, draws))
    with rec.case(case):
        xs, ys = list(range(1, n + 1)), list(range(101, n + 101))
        a, b = nest(kind, xs), nest(kind, ys)
        if draws is None:
            (tx, ty), (vx, vy) = quiet(mp.utils.train_test_split, a, b, test_size=size)
        else:
            with lib.Script(draws).active():
                (tx, ty), (vx, vy) = quiet(mp.utils.train_test_split, a, b, test_size=size, randomize=True)
        rec.op()
        k = int(n * size)
        if len(tx) != n - k or len(ty) != n - k or len(vx) != k or len(vy) != k:
            rec.bad(case, f"{len(tx)} training and {len(vx)} test samples")
            return
        gx, gy = flat(tx) + flat(vx), flat(ty) + flat(vy)
        if sorted(gx) != xs or [x + 100 for x in gx] != gy:
            rec.bad(case, f"samples lost or separated from their targets: {gx} {gy}")
        if draws is None and gx != xs:
            rec.bad(case, f"the order changed although no randomisation was asked for: {gx}")
        if flat(a) != xs or flat(b) != ys:
            rec.bad(case, "the caller's data was changed")
        rec.trace(case)
        rec.outcome((tuple(gx), k))
        return tuple(gx)


def do_split(rec, n, s):
    for kind in ("list", "array", "tuple", "vectors", "matrix"):
        split_case(rec, n, SIZES[s], kind)
        orders, scripted = set(), True

        def body(script):
            return quiet(mp.utils.train_test_split, nest(kind, range(n)), nest(kind, range(n)), test_size=SIZES[s], randomize=True)

        with rec.case({"samples": n, "test_size": SIZES[s], "as": kind, "draws": "all"}, 300):
            for script, _ in lib.all_scripts(body):
                draws = tuple(k for _, k in script.log)
                scripted = scripted and (len(draws) > 0 or n < 2)
                orders.add(split_case(rec, n, SIZES[s], kind, draws))
            rec.note("orders reached", len(orders))
            want = math.factorial(n)
            if scripted and None not in orders and len(orders) != want:
                rec.bad({"samples": n, "test_size": SIZES[s], "as": kind}, f"randomised splits reach {len(orders)} of {want} orders")


def do_long(rec):
    for n in range(7, 49):
        for s in SIZES:
            split_case(rec, n, s, "list")
            split_case(rec, n, s, "matrix", (0,) * n)
    for n in range(0, 49):
        case = {"samples": n, "default size": True}
        with rec.case(case):
            rec.op()
            (tx, ty), (vx, vy) = quiet(mp.utils.train_test_split, list(range(n)), list(range(n)))
            if len(vx) != int(n * 0.3) or list(tx) + list(vx) != list(range(n)) or list(ty) + list(vy) != list(range(n)):
                rec.bad(case, "default split")


def unitaries(q):
    d = 2**q
    w = np.exp(2j * np.pi / d)
    yield "fourier", np.array([[w ** (a * b) for b in range(d)] for a in range(d)]) / np.sqrt(d)
    yield "phase", np.diag([1j**a * np.exp(0.3j * a) for a in range(d)])
    yield "cycle", np.roll(np.eye(d), 1, axis=0)


def normal(v, d):
    v = np.asarray(v)
    return v.shape == (d,) and abs(np.linalg.norm(v) - 1) < 1e-9


def do_sets(rec):
    for q in (1, 2, 3, 4, 5):
        for uname, u in unitaries(q):
            for n in (*range(1, 9), 12, 17, 24, 40) if q < 4 else range(1, 9) if q == 4 else (8,):
                for size in (None, 0, 0.25, 0.5, 1):
                    for level in (None, 0.0):
                        case = {"unitary": uname, "qubits": q, "samples": n, "test_size": size, "noise": level}
                        rec.state((uname, q, n, size, level))
                        with rec.case(case):
                            np.random.seed(n)
                            u0 = u.copy()
                            kw = {} if size is None else {"test_size": size}
                            if level is None:
                                (tx, ty), (vx, vy) = quiet(mp.utils.generate_random_dataset, u, n, **kw)
                            else:
                                (tx, ty), (vx, vy) = quiet(mp.utils.generate_random_dataset_noisy, u, n, noise_level=level, **kw)
                            rec.op()
                            k = int(n * (0.3 if size is None else size))
                            if (len(tx), len(ty), len(vx), len(vy)) != (n - k, n - k, k, k):
                                rec.bad(case, f"sizes {(len(tx), len(ty), len(vx), len(vy))}")
                            for x, y in list(zip(tx, ty)) + list(zip(vx, vy)):
                                if not normal(x, 2**q) or not np.allclose(u @ np.asarray(x), y, atol=1e-9):
                                    rec.bad(case, "a target is not the image of its input, or an input is not a state")
                                    break
                            if not np.array_equal(u, u0):
                                rec.bad(case, "the caller's unitary was changed")
                            allx = list(tx) + list(vx)
                            if any(abs(np.vdot(allx[a], allx[b])) > 1 - 1e-9 for a in range(n) for b in range(a)):
                                rec.bad(case, "the same input is drawn twice")
                            rec.trace(case)
                            rec.outcome((q, n, k))


def do_brownian(rec):
    for q in (1, 2):
        for uname, u in unitaries(q):
            for level in (0.05, 0.3, 1):
                for n in (1, 2, 5, 20, 40):
                    for size in (0, 0.5) if n < 20 else (0.3,):
                        case = {"unitary": uname, "qubits": q, "samples": n, "test_size": size, "brownian": level}
                        rec.state((uname, q, n, size, level))
                        with rec.case(case):
                            np.random.seed(n)
                            (tx, ty), (vx, vy) = quiet(mp.utils.generate_random_dataset_noisy, u, n, noise_level=level, noise_type="brownian", test_size=size)
                            rec.op()
                            k = int(n * size)
                            if (len(tx), len(ty), len(vx), len(vy)) != (n - k, n - k, k, k):
                                rec.bad(case, f"sizes {(len(tx), len(ty), len(vx), len(vy))}")
                            if not all(normal(x, 2**q) for x in list(tx) + list(vx) + list(ty)):
                                rec.bad(case, "noisy targets are not states")
                            if not all(np.allclose(u @ x, y, atol=1e-9) for x, y in zip(vx, vy)):
                                rec.bad(case, "test targets are noisy")
                            if any(np.allclose(u @ x, y, atol=1e-6) for x, y in zip(tx, ty)):
                                rec.bad(case, "a training target has no noise")
                            rec.trace(case)
                            rec.outcome((q, level, n))
    for dim in (2, 4):
        for t in (0.0, 0.1, 1.0):
            case = {"dim": dim, "t": t}
            rec.state(("closetoid", dim, t))
            with rec.case(case):
                np.random.seed(3)
                v = quiet(mp.utils.randomUnitary_closetoid, dim, t, 20)
                rec.op()
                if not np.allclose(v @ v.conj().T, np.eye(dim), atol=1e-9) or (t == 0 and not np.allclose(v, np.eye(dim))):
                    rec.bad(case, "not a unitary, or not the identity without noise")
                rec.trace(case)


def pattern_of(u, x, y, q):
    """The flips that turn the image of x into y, or None."""
    for bits in itertools.product((0, 1), repeat=q):
        if np.allclose(ref.kron(*[ref.X if b else np.eye(2) for b in bits]) @ u @ x, y, atol=1e-9):
            return bits
    return None


def flips(u, n, level, size, strata):
    """Every branch of the scripted uniform draws: the samples returned, whether everything was scripted."""
    def body(script):
        np.random.seed(5)
        return quiet(mp.utils.generate_random_dataset_noisy, u, n, noise_level=level, noise_type="bitflip", test_size=size)

    for script, res in lib.all_scripts(body, strata):
        yield tuple(k for _, k in script.log), [len(w) for w, _ in script.log], res


def do_flips(rec, q, s):
    for uname, u in unitaries(q):
        for level in (0.2, 0.5, 0.9):
            for size in (0, 0.5):
                if q > 2 and (size or level != 0.5):
                    continue
                n = s if size == 0 else 2 * s
                train = n - int(n * size)
                reached, scripted = set(), True
                base = {"unitary": uname, "qubits": q, "samples": n, "test_size": size, "level": level}
                with rec.case(base, 300):
                    for draws, kinds, ((tx, ty), (vx, vy)) in flips(u, n, level, size, (1e-7, 1 - 1e-7)):
                        case = {**base, "draws": draws}
                        rec.state((uname, q, n, size, level, draws))
                        rec.op()
                        scripted = scripted and len(draws) == q * train
                        pats = [pattern_of(u, x, y, q) for x, y in zip(tx, ty)]
                        if None in pats:
                            rec.bad(case, f"target {pats.index(None)} is not the flipped image of its input")
                        if len(ty) != train or not all(np.allclose(u @ x, y, atol=1e-9) for x, y in zip(vx, vy)):
                            rec.bad(case, "test targets are noisy or samples are missing")
                        reached.add(tuple(pats))
                        rec.trace(case)
                        rec.outcome((q, tuple(pats)))
                    if len(reached) != 2 ** (q * train) and (scripted or len(reached) > 1):
                        rec.bad(base, f"{len(reached)} of {2 ** (q * train)} patterns of flips occur")
    if s == 1 and q == 1:
        for level in (0.05, 0.2, 0.5, 0.65, 0.9):
            case = {"level": level, "stratified": True}
            with rec.case(case):
                hits = total = 0
                for draws, kinds, ((tx, ty), _) in flips(np.eye(2), 1, level, 0, tuple((k + 0.5) / 40 for k in range(40))):
                    if kinds != [40]:
                        break
                    total += 1
                    hits += pattern_of(np.eye(2), tx[0], ty[0], 1) == (1,)
                    rec.op()
                if total == 40 and abs(hits / 40 - level) > 0.013:
                    rec.bad(case, f"flips happen for {hits} of 40 equal parts of the unit interval")
    for level, want in ((0, 0), (1, 1)):
        case = {"level": level, "qubits": q}
        with rec.case(case):
            np.random.seed(6)
            u = np.eye(2**q)
            (tx, ty), _ = quiet(mp.utils.generate_random_dataset_noisy, u, s, noise_level=level, noise_type="bitflip", test_size=0)
            rec.op()
            v = ref.kron(*[ref.X if want else np.eye(2)] * q)
            if not all(np.allclose(v @ x, y) for x, y in zip(tx, ty)):
                rec.bad(case, "never or always flipping is not what the extreme level does")


def do_states(rec):
    for q in (1, 2, 3, 4):
        for n in (1, 2, 3, 7):
            case = {"qubits": q, "states": n}
            rec.state((q, n))
            with rec.case(case):
                np.random.seed(q)
                r = quiet(mp.utils.generate_haar_random_states, q, n)
                rec.op()
                vs = [r] if n == 1 else list(r)
                if len(vs) != n or not all(normal(v, 2**q) for v in vs):
                    rec.bad(case, "not that many normalised states")
                if q > 1 and any(abs(np.vdot(vs[a], vs[b])) > 1 - 1e-9 for a in range(n) for b in range(a)):
                    rec.bad(case, "the same state is drawn twice")
                rec.trace(case)
        case = {"random unitary": q}
        with rec.case(case):
            for seed in range(8):
                np.random.seed(seed)
                u = quiet(mp.operators.gates.random_su, q)
                rec.op()
                if u.shape != (2**q, 2**q) or not np.allclose(u @ u.conj().T, np.eye(2**q)) or abs(np.linalg.det(u) - 1) > 1e-9:
                    rec.bad(case, "not a special unitary")


def do_invalid(rec):
    for level in (-0.1, 1.1, 2, -1, float("inf")):
        for kind in ("brownian", "bitflip"):
            case = {"level": str(level), "kind": kind}
            rec.state((str(level), kind))
            with rec.case(case):
                r, e = raises(mp.utils.generate_random_dataset_noisy, np.eye(2), 3, noise_level=level, noise_type=kind)
                rec.op()
                rec.trace(case)
                if not r:
                    rec.bad(case, "a noise level outside [0, 1] is accepted")
    for kind in ("none", "phaseflip", "", None):
        case = {"kind": str(kind)}
        rec.state(kind)
        with rec.case(case):
            r, e = raises(mp.utils.generate_random_dataset_noisy, np.eye(2), 3, noise_level=0.1, noise_type=kind)
            rec.op()
            rec.trace(case)
            if not r:
                rec.bad(case, "an unknown kind of noise is accepted")
