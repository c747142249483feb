"""C25  The GF(2) solver solves every solvable system."""
import itertools

import numpy as np

import galois
import mentpy as mp
from mc.core import quiet

ID = "C25"
ASSUMPTIONS = ["the right hand side is in the column space (the solver documents no answer otherwise); solutions are read modulo 2"]
GF = galois.GF(2)


def FORMS(a, b):
    """Other ways of handing in the same system."""
    wide = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=int)
    wide[::2, ::2] = a
    ro, rb = a.copy(), b.copy()
    ro.setflags(write=False)
    rb.setflags(write=False)
    return [("uint8", a.astype(np.uint8), b.astype(np.uint8)), ("int32", a.astype(np.int32), b.astype(np.int32)), ("bool", a.astype(bool), b.astype(bool)), ("read-only", ro, rb),
            ("Fortran order", np.asfortranarray(a), b), ("strided", wide[::2, ::2], b[::-1].copy()[::-1]), ("int8 and row", a.astype(np.int8), b.reshape(1, -1).astype(np.int8))]


def sizes(tier):
    s = [(r, c) for r in range(1, 6) for c in range(1, 6) if r * c <= (16 if tier == "thorough" else 12)]
    return s + [(1, 7), (7, 1), (5, 3), (6, 2), (2, 6)]


def BOUNDS(tier):
    return f"every matrix over GF(2) of every size in {sizes(tier)} x every right hand side in its column space (as int arrays; as field arrays and other dtypes, layouts and read-only for the sizes with at most 9 entries); "\
        "larger systems (7..24 unknowns; square, wide and tall): identity, permutations, triangular, bidiagonal, cyclic and adjacency matrices, each with every single entry changed (up to 12 unknowns), repeated and zero rows and columns, "\
        "x images of the unit vectors and four dense vectors"


def shards(tier):
    return [("large", n, k, 4) for n in LARGE for k in range(4)] + [(r, c, k, 16 if r * c > 9 else 2) for r, c in sizes(tier) for k in range(16 if r * c > 9 else 2)]


LARGE = (7, 8, 9, 10, 12, 16, 24)


def base(n):
    """Names and square matrices."""
    eye = np.eye(n, dtype=int)
    roll = np.roll(eye, 1, axis=1)
    yield "identity", eye
    yield "reversal", eye[::-1]
    yield "shift", roll
    yield "lower", np.tril(np.ones((n, n), dtype=int))
    yield "upper", np.triu(np.ones((n, n), dtype=int))
    yield "upper reversed", np.triu(np.ones((n, n), dtype=int))[::-1]
    yield "last column", eye | np.outer(np.ones(n, dtype=int), eye[-1])
    yield "last row", eye | np.outer(eye[-1], np.ones(n, dtype=int))
    yield "first row", eye | np.outer(eye[0], np.ones(n, dtype=int))
    yield "bidiagonal", (eye + roll) % 2
    yield "path", (np.eye(n, k=1, dtype=int) + np.eye(n, k=-1, dtype=int))
    yield "path and loops", (eye + np.eye(n, k=1, dtype=int) + np.eye(n, k=-1, dtype=int))
    yield "complete", (1 - eye)
    yield "quadratic", np.array([[(a * b + a + b * b // 3) % 2 for b in range(n)] for a in range(n)])
    yield "pattern", np.array([[int((a * 5 + b * 3 + a * b) % 7 < 3) for b in range(n)] for a in range(n)])


def larger(rec, n, k, m):
    idx = 0
    for name, a in base(n):
        mats = [a, np.vstack([a, a[: n // 2]]), np.hstack([a, a[:, : n // 2]]), np.vstack([np.zeros((2, n), dtype=int), a]), np.hstack([np.zeros((n, 2), dtype=int), a]), a[: n // 2], a[n // 2:], a[:, : n // 2], a[:, n // 2:]]
        if n <= 12:
            for x, y in itertools.product(range(n), repeat=2):
                b = a.copy()
                b[x, y] ^= 1
                mats.append(b)
        for t, q in enumerate(mats):
            idx += 1
            if idx % m != k:
                continue
            c = q.shape[1]
            xs = [np.ones(c, dtype=int), np.arange(c) % 2, np.arange(c) // 2 % 2, (np.arange(c) ** 2 // 3) % 2] + (list(np.eye(c, dtype=int)) if t < 9 else [np.eye(c, dtype=int)[t % c], np.eye(c, dtype=int)[-1]])
            for x in xs:
                b = q @ x % 2
                case = {"A": f"{name} {n}, variant {t}", "b": b.tolist()}
                rec.state((n, name, t, tuple(x)))
                with rec.case(case):
                    got = np.array(quiet(mp.calculator.solve, q.copy(), b.copy()), dtype=int)
                    rec.op()
                    if got.shape != (c,) or np.any((q @ got - b) % 2):
                        rec.bad(case, f"x = {got.tolist()} does not solve the system")
                    rec.trace(case)
                    rec.outcome((q.shape, tuple(got % 2)))


def explore(shard, rec):
    if shard[0] == "large":
        return larger(rec, *shard[1:])
    r, c, k, m = shard
    for idx, bits in enumerate(itertools.product((0, 1), repeat=r * c)):
        if idx % m != k:
            continue
        a = np.array(bits).reshape(r, c)
        images = {}
        for x in itertools.product((0, 1), repeat=c):
            images.setdefault(tuple((a @ np.array(x)) % 2), x)
        for b in images:
            kinds = [("int", a, np.array(b))]
            if r * c <= 9:
                kinds.append(("field", GF(a), GF(np.array(b))))
                kinds.append(("column", a, np.array(b).reshape(-1, 1)))
                kinds += FORMS(a, np.array(b))[idx % 3::3]
            for kind, am, bm in kinds:
                case = {"A": a.tolist(), "b": list(b), "as": kind}
                rec.state((r, c, bits, b, kind))
                with rec.case(case):
                    a0, b0 = np.array(am, dtype=int), np.array(bm, dtype=int)
                    x = quiet(mp.calculator.solve, am, bm)
                    rec.op()
                    xs = np.array(x, dtype=int)
                    if xs.shape != (c,) or tuple((a @ xs) % 2) != b:
                        rec.bad(case, f"x = {xs.tolist()} does not solve the system")
                    if not np.array_equal(np.array(am, dtype=int), a0) or not np.array_equal(np.array(bm, dtype=int), b0):
                        rec.bad(case, "the caller's system was changed")
                    rec.trace(case)
                    rec.outcome((r, c, tuple(xs % 2)))
