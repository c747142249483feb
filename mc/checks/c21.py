"""C21  Gates and partial traces act on exactly the qubits they are given."""
import itertools

import numpy as np

import mentpy as mp
from mc import ref
from mc.core import quiet, raises
from mentpy.operators import gates

ID = "C21"
ASSUMPTIONS = [
    "qubits are counted from 0, except in cnot_ij, which counts from 1 (as documented by its tests)",
    "a partial trace of a state vector is asked for only where the result is pure (product across the cut); it is compared up to a global phase",
    "all these functions are linear (or sesquilinear), so a basis determines them; the spanning sets used are complete",
]


def BOUNDS(tier):
    t = tier == "thorough"
    n = 7 if t else 6
    return (f"swap_ij, controlled_z, cnot_ij: every ordered pair of qubits, n<={n}; arbitrary_qubit_gate: every qubit n<={n} x a basis of 2x2 matrices; swap_qubits: every pair x every basis vector n<=5 and x a state with all amplitudes different n<=9; "
            "partial trace of a matrix with all entries different (so that no two selections of entries agree) and of a product of states of the two sides, every index list n=4,5, every subset in three orders n=6,7; "
            f"partial trace of matrices: every index list (every order of every subset) x every matrix unit, n<={4 if t else 3}, and Bell-diagonal spanning states n=4; "
            f"partial trace of state vectors: every index list x a spanning set of product states across the cut, n<={5 if t else 4}; pure2density on all pairs of a spanning set n<=3")


def shards(tier):
    t = tier == "thorough"
    n = 7 if t else 6
    out = [("gates", k) for k in range(1, n + 1)]
    out += [("mixed", k, j, 4) for k in range(1, 5 if t else 4) for j in range(4)]
    out += [("pure", k, j, 4) for k in range(1, 6 if t else 5) for j in range(4)]
    out += [("generic", k, j, 8) for k in (4, 5, 6, 7) for j in range(8)] + [("swaps", k) for k in range(2, 10)]
    return out + [("density",), ("fixed",), ("invalid",)]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


def bit(x, q, n):
    return (x >> (n - 1 - q)) & 1


def flip(x, q, n):
    return x ^ (1 << (n - 1 - q))


def swap(x, i, j, n):
    if bit(x, i, n) != bit(x, j, n):
        x = flip(flip(x, i, n), j, n)
    return x


def perm_matrix(f, n):
    m = np.zeros((2**n, 2**n))
    for x in range(2**n):
        m[f(x), x] = 1
    return m


def check(rec, case, got, want):
    rec.op()
    got = np.asarray(got)
    if got.shape != np.shape(want) or not np.allclose(got, want, atol=1e-9):
        rec.bad(case, "the matrix or state is wrong")


UNITS = [np.array([[1, 0], [0, 0]]), np.array([[0, 1], [0, 0]]), np.array([[0, 0], [1, 0]]), np.array([[0, 0], [0, 1]]), np.array([[1, 2j], [3 - 1j, 0.5]])]


def do_gates(rec, n):
    for i in range(n):
        for k, u in enumerate(UNITS):
            case = {"gate": "arbitrary_qubit_gate", "unit": k, "qubit": i, "n": n}
            rec.state(("u", k, i, n))
            with rec.case(case):
                u0 = u.copy()
                want = np.zeros((2**n, 2**n), dtype=complex)
                for x in range(2**n):
                    for b in (0, 1):
                        y = x if bit(x, i, n) == b else flip(x, i, n)
                        want[y, x] += u[b, bit(x, i, n)]
                first = quiet(gates.arbitrary_qubit_gate, u, i, n)
                check(rec, case, first, want)
                if np.shares_memory(first, u):
                    rec.bad(case, "the gate shares the caller's matrix")
                if first.flags.writeable:
                    first[...] = 7
                    check(rec, case, quiet(gates.arbitrary_qubit_gate, u, i, n), want)
                if not np.array_equal(u, u0):
                    rec.bad(case, "the caller's matrix was changed")
                rec.trace(case)
        for j in range(n):
            case = {"gate": "swap_qubits", "i": i, "j": j, "n": n}
            rec.state(("sq", i, j, n))
            with rec.case(case):
                for x in range(2**n) if n <= 5 else ():
                    v = np.zeros(2**n, dtype=complex)
                    v[x] = 1j
                    v0 = v.copy()
                    w = np.zeros(2**n, dtype=complex)
                    w[swap(x, i, j, n)] = 1j
                    r = quiet(gates.swap_qubits, v, i, j)
                    check(rec, {**case, "basis": x}, r, w)
                    if not np.array_equal(v, v0) or np.shares_memory(r, v):
                        rec.bad(case, "the caller's state was changed or is shared")
                rec.trace(case)
            if i == j:
                continue
            for name, f, want in (
                ("swap_ij", lambda: gates.swap_ij(i, j, n), perm_matrix(lambda x: swap(x, i, j, n), n)),
                ("cnot_ij", lambda: gates.cnot_ij(i + 1, j + 1, n), perm_matrix(lambda x: flip(x, j, n) if bit(x, i, n) else x, n)),
                ("controlled_z", lambda: gates.controlled_z(i, j, n), np.diag([-1.0 if bit(x, i, n) and bit(x, j, n) else 1.0 for x in range(2**n)])),
            ):
                case = {"gate": name, "i": i, "j": j, "n": n}
                rec.state((name, i, j, n))
                with rec.case(case):
                    first = quiet(f)
                    check(rec, case, first, want)
                    # what the caller does with a gate does not change the next one
                    if isinstance(first, np.ndarray) and first.flags.writeable:
                        first[...] = 7
                        check(rec, case, quiet(f), want)
                    rec.trace(case)
                    rec.outcome((name, n))


def index_lists(n):
    for r in range(n + 1):
        for s in itertools.permutations(range(n), r):
            yield list(s)


def traced(rho, n, idx):
    keep = [q for q in range(n) if q not in idx]
    t = rho.reshape([2] * (2 * n))
    out = np.zeros((2 ** len(keep), 2 ** len(keep)), dtype=complex)
    t = t.transpose(keep + idx + [n + q for q in keep] + [n + q for q in idx]).reshape(2 ** len(keep), 2 ** len(idx), 2 ** len(keep), 2 ** len(idx))
    for x in range(2 ** len(idx)):
        out += t[:, x, :, x]
    return out


def do_mixed(rec, n, j, m):
    for k, idx in enumerate(index_lists(n)):
        if k % m != j:
            continue
        for a in range(2**n):
            for b in range(2**n):
                if n >= 4 and (a ^ b) not in (0, 1, 3, 5, 8, 15):
                    continue
                case = {"n": n, "indices": idx, "unit": [a, b]}
                rec.state((n, tuple(idx), a, b))
                with rec.case(case):
                    rho = np.zeros((2**n, 2**n), dtype=complex)
                    rho[a, b] = 1 + 2j
                    before, ind = rho.copy(), list(idx)
                    want = traced(rho, n, idx)
                    check(rec, case, quiet(mp.calculator.partial_trace, rho, ind), want)
                    check(rec, case, quiet(mp.calculator.partial_trace_mixed_state, rho, ind), want)
                    if ind != idx or not np.array_equal(rho, before):
                        rec.bad(case, "the caller's state or indices were changed")
                    rec.trace(case)
        rec.outcome((n, len(idx)))


def spanning(k):
    """States that span C^(2^k) over and over, among them entangled ones and ones whose amplitudes cancel in sums."""
    d = 2**k
    out = [np.eye(d, dtype=complex)[x] for x in range(d)]
    if k:
        for s in range(1, d):
            v = np.array([(-1) ** bin(x & s).count("1") for x in range(d)], dtype=complex) / np.sqrt(d)
            out.append(v)
        v = np.array([1j**x for x in range(d)])
        out.append(v / np.linalg.norm(v))
        v = np.arange(1, d + 1) * np.exp(1j * np.arange(d))
        out.append(v / np.linalg.norm(v))
        v = np.zeros(d, dtype=complex)
        v[0], v[-1] = 1, -1
        out.append(v / np.sqrt(2))
    return out


def do_pure(rec, n, j, m):
    for k, idx in enumerate(index_lists(n)):
        if k % m != j:
            continue
        keep = [q for q in range(n) if q not in idx]
        for a, va in enumerate(spanning(len(keep))):
            for b, vb in enumerate(spanning(len(idx))):
                case = {"n": n, "indices": idx, "kept": a, "traced": b}
                rec.state((n, tuple(idx), a, b))
                with rec.case(case):
                    t = np.multiply.outer(va, vb).reshape([2] * n)
                    psi = np.transpose(t, np.argsort(keep + idx)).reshape(-1).copy()
                    before, ind = psi.copy(), list(idx)
                    for f in (mp.calculator.partial_trace, mp.calculator.partial_trace_pure_state):
                        got = np.asarray(quiet(f, psi, ind))
                        rec.op()
                        if got.shape != va.shape or not np.all(np.isfinite(got)) or abs(np.linalg.norm(got) - 1) > 1e-9 or not ref.proportional(got, va):
                            rec.bad(case, f"{f.__name__}: the kept state is wrong")
                    if ind != idx or not np.array_equal(psi, before):
                        rec.bad(case, "the caller's state or indices were changed")
                    rec.trace(case)
        rec.outcome((n, len(idx)))


def generic(d, off=0):
    """Numbers no two sums of which agree by accident."""
    x = np.arange(1, d + 1, dtype=float)
    return np.sqrt(x + off) * np.exp(1j * (x * x * 0.37 + off))


def do_generic(rec, n, j, m):
    rho = generic(4**n).reshape(2**n, 2**n)
    lists = list(index_lists(n)) if n <= 5 else [list(q) for r in range(n + 1) for s in itertools.combinations(range(n), r) for q in dict.fromkeys([s, s[::-1], s[1:] + s[:1]])]
    for k, idx in enumerate(lists):
        if k % m != j:
            continue
        case = {"n": n, "indices": idx, "matrix": "all entries different"}
        rec.state(("generic", n, tuple(idx)))
        with rec.case(case):
            before, ind = rho.copy(), list(idx)
            want = traced(rho, n, idx)
            check(rec, case, quiet(mp.calculator.partial_trace, rho, ind), want)
            check(rec, case, quiet(mp.calculator.partial_trace_mixed_state, rho, ind), want)
            keep = [q for q in range(n) if q not in idx]
            va, vb = generic(2 ** len(keep), 0.5), generic(2 ** len(idx), 1.5)
            va, vb = va / np.linalg.norm(va), vb / np.linalg.norm(vb)
            psi = np.transpose(np.multiply.outer(va, vb).reshape([2] * n), np.argsort(keep + idx)).reshape(-1).copy()
            for f in (mp.calculator.partial_trace, mp.calculator.partial_trace_pure_state):
                got = np.asarray(quiet(f, psi, ind))
                rec.op()
                if got.shape != va.shape or not np.all(np.isfinite(got)) or abs(np.linalg.norm(got) - 1) > 1e-9 or not ref.proportional(got, va):
                    rec.bad(case, f"{f.__name__}: the kept state is wrong")
            if ind != idx or not np.array_equal(rho, before):
                rec.bad(case, "the caller's state or indices were changed")
            rec.trace(case)
    rec.outcome(("generic", n))


def do_swaps(rec, n):
    v = generic(2**n)
    for i, j in itertools.product(range(n), repeat=2):
        case = {"gate": "swap_qubits", "i": i, "j": j, "n": n, "state": "all amplitudes different"}
        rec.state(("sw", i, j, n))
        with rec.case(case):
            v0 = v.copy()
            check(rec, case, quiet(gates.swap_qubits, v, i, j), v.reshape([2] * n).swapaxes(i, j).reshape(-1))
            if not np.array_equal(v, v0):
                rec.bad(case, "the caller's state was changed")
            rec.trace(case)


def do_density(rec):
    for k in (1, 2, 3):
        sp = spanning(k)
        for a in range(len(sp)):
            for b in range(len(sp)):
                for c in (1, 1j, -0.5):
                    case = {"n": k, "state": [a, b, str(c)]}
                    rec.state((k, a, b, c))
                    with rec.case(case):
                        v = sp[a] + c * sp[b]
                        v0 = v.copy()
                        want = np.array([[x * np.conj(y) for y in v] for x in v])
                        check(rec, case, quiet(mp.calculator.pure2density, v), want)
                        if not np.array_equal(v, v0):
                            rec.bad(case, "the caller's state was changed")
                        rec.trace(case)
    for a in spanning(2):
        for b in spanning(2):
            with rec.case({"fidelity": True}):
                rec.op()
                f = quiet(mp.calculator.fidelity, ref.dm(a), ref.dm(b))
                if abs(float(f) - abs(np.vdot(a, b)) ** 2) > 1e-5:
                    rec.bad({"fidelity": [str(a), str(b)]}, f"fidelity {f}, should be {abs(np.vdot(a, b)) ** 2}")


def do_fixed(rec):
    s = np.sqrt(0.5)
    want = {
        "CNOT": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
        "CSGate": np.diag([1, 1, 1, 1j]), "HGate": [[s, s], [s, -s]], "PauliX": ref.X, "PauliY": ref.Y, "PauliZ": ref.Z,
        "TGate": np.diag([1, np.exp(0.25j * np.pi)]), "SGate": np.diag([1, 1j]),
    }
    for k, w in want.items():
        case = {"gate": k}
        rec.state(k)
        with rec.case(case):
            check(rec, case, getattr(gates, k), np.array(w))
            rec.trace(case)


def do_invalid(rec):
    for name, f in (
        ("swap_ij", lambda: gates.swap_ij(0, 2, 2)), ("swap_ij", lambda: gates.swap_ij(3, 0, 3)), ("controlled_z", lambda: gates.controlled_z(2, 0, 2)),
        ("controlled_z", lambda: gates.controlled_z(0, 5, 3)), ("partial_trace", lambda: mp.calculator.partial_trace(np.zeros((2, 2, 2)), [0])),
        ("partial_trace 0d", lambda: mp.calculator.partial_trace(np.array(1.0), [0])),
    ):
        case = {"invalid": name}
        rec.state(name)
        with rec.case(case):
            r, e = raises(f)
            rec.op()
            rec.trace(case)
            rec.outcome(r)
            if not r:
                rec.bad(case, "accepted")
