"""C19  Pauli operators are the Pauli group modulo phases, in every notation and after every operation."""
import itertools

import numpy as np

import mentpy as mp
from mc import ref
from mc.core import quiet, raises

ID = "C19"
ASSUMPTIONS = [
    "Pauli operators are considered modulo phases, as the class has none",
    "commutator is explored on single operators (it answers for one pair); empty operators and slices are outside the domain",
]
SIZES = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (4, 1), (3, 2)]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"notation: every list of r operators on n qubits for (n, r) in {sizes(tier)} in 7 forms, every index, slice and column selection; "
            f"algebra: every pair of such lists with equal n for (n, r1, r2) in {pair_sizes(tier)}; "
            f"histories: every sequence of length <= {4 if t else 3} of append (itself, one row, two rows), indexing, slicing, column selection, products from 4 operators; all listed invalid arguments; "
            f"wide: operators on {WIDE} qubits that are one letter at one place or a dense pattern with one letter changed: every pair of places and letters; lists of 12 to 45 operators: every row, slice start and end, column, "
            "membership, the full table of symplectic products, equality after one letter changed at every place; two different operators of 1..6 rows each on 2..12 qubits: tables, products, membership of several rows, slices with steps, repeated columns")
WIDE = (7, 8, 9, 12, 17, 33)


def sizes(tier):
    return SIZES + ([(5, 1), (6, 1), (2, 3), (1, 4)] if tier == "thorough" else [(5, 1)])


def pair_sizes(tier):
    p = [(1, 1, 1), (1, 1, 2), (1, 2, 1), (1, 2, 2), (2, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1)]
    return p + ([(4, 1, 1), (2, 2, 2), (1, 3, 3), (3, 2, 1)] if tier == "thorough" else [])


def shards(tier):
    out = [("form", n, r, k, 8) for n, r in sizes(tier) if 4 ** (n * r) > 1000 for k in range(8)]
    out += [("form", n, r, 0, 1) for n, r in sizes(tier) if 4 ** (n * r) <= 1000]
    out += [("pair", n, a, b, k, 8) for n, a, b in pair_sizes(tier) for k in range(8)]
    out += [("hist", s, a, 4 if tier == "thorough" else 3) for s in range(len(STARTS)) for a in range(len(STEPS))]
    return out + [("invalid",)] + [("wide", n, k, 4) for n in WIDE for k in range(4)] + [("long", n, r) for n, r in LONG] + [("medium", n) for n in MEDIUM]


MEDIUM = (2, 3, 4, 5, 6, 7, 9, 12)


def lists(n, r):
    words = ["".join(w) for w in itertools.product("IXYZ", repeat=n)]
    return itertools.product(words, repeat=r)


def bits(rows):
    return np.array([[int(c in "XY") for c in w] + [int(c in "ZY") for c in w] for w in rows])


def word(row):
    n = len(row) // 2
    return "".join("IXZY"[int(row[i]) + 2 * int(row[n + i])] for i in range(n))


def seen(op):
    """Everything observable about a PauliOp."""
    m = np.array(op.matrix, dtype=int)
    return {
        "matrix": m.tolist(), "txt": op.txt, "repr": repr(op), "len": len(op), "qubits": op.number_of_qubits,
        "rows": [op[i].txt for i in range(len(op))], "last": op[-1].txt, "iter": [x.txt for x in op],
        "rowmats": [np.array(op[i].matrix, dtype=int).tolist() for i in range(len(op))],
    }


def should(rows):
    rows = list(rows)
    b = bits(rows).tolist()
    return {"matrix": b, "txt": "\n".join(rows), "repr": "\n".join(rows), "len": len(rows), "qubits": len(rows[0]), "rows": rows, "last": rows[-1], "iter": rows, "rowmats": [[x] for x in b]}


def same(op, rows):
    got, want = seen(op), should(rows)
    for k in want:
        if got[k] != want[k]:
            return f"{k} is {got[k]!r}, should be {want[k]!r}"
    return None


def products(a, b):
    """Row-wise product modulo phases."""
    return word((bits([a])[0] + bits([b])[0]) % 2)


def anticommute(a, b):
    return sum(x != y and x != "I" and y != "I" for x, y in zip(a, b)) % 2


def explore(shard, rec):
    {"form": forms, "pair": pairs, "hist": hist, "invalid": invalid, "wide": wide, "long": long, "medium": medium}[shard[0]](rec, *shard[1:])


# ------------------------------------------------------------------ notation


def forms(rec, n, r, k, m):
    for idx, rows in enumerate(lists(n, r)):
        if idx % m != k:
            continue
        b = bits(rows)
        as_list = list(rows)
        args = {
            "text": ";".join(rows), "trailing": ";".join(rows) + ";", "spaces": " ; ".join(" ".join(w) for w in rows), "list": as_list,
            "int matrix": b.copy(), "uint8 matrix": b.astype(np.uint8), "field matrix": mp.PauliOp(list(rows)).matrix,
        }
        made = []
        for form, arg in args.items():
            case = {"rows": list(rows), "given_as": form}
            rec.state((rows, form))
            with rec.case(case):
                op = quiet(mp.PauliOp, arg)
                rec.op()
                e = same(op, rows)
                if e:
                    rec.bad(case, e)
                if form == "list" and arg != list(rows):
                    rec.bad(case, "the caller's list was changed")
                if isinstance(arg, np.ndarray):
                    if np.array(arg, dtype=int).tolist() != b.tolist():
                        rec.bad(case, "the caller's matrix was changed")
                    arg[0, 0] = 1 - int(arg[0, 0])
                    e = same(op, rows)
                    if e:
                        rec.bad(case, f"shares data with the caller's matrix: {e}")
                made.append(op)
                rec.trace(case)
        case = {"rows": list(rows)}
        with rec.case(case):
            for x in made[1:]:
                rec.op(2)
                if not (x == made[0]) or hash(x) != hash(made[0]) or x not in {made[0]}:
                    rec.bad(case, "the same operator in two notations is not equal to itself (or hashes differently)")
            op = made[0]
            for lo, hi, st in itertools.product((None, 0, 1), (None, 1, 2, -1), (1, 2, -1)):
                want = list(rows)[lo:hi:st]
                if want:
                    rec.op()
                    e = same(op[lo:hi:st], want)
                    if e:
                        rec.bad({**case, "slice": [lo, hi, st]}, e)
            cols = [c for ln in range(1, min(n, 3) + 1) for c in itertools.product(range(n), repeat=ln)] if 4 ** (n * r) <= 1000 else [(0,), (n - 1,), (n - 1, 0), tuple(range(n))]
            for c in cols:
                inds = list(c)
                rec.op()
                e = same(op.get_subset(inds), ["".join(w[i] for i in c) for w in rows])
                if e:
                    rec.bad({**case, "columns": list(c)}, e)
                if inds != list(c):
                    rec.bad({**case, "columns": list(c)}, "the caller's indices were changed")
            e = same(op, rows)
            if e:
                rec.bad(case, f"reading the operator changed it: {e}")
            rec.outcome(tuple(sorted("".join(rows))))


# ------------------------------------------------------------------ algebra


def pairs(rec, n, r1, r2, k, m):
    right = [(rows, quiet(mp.PauliOp, list(rows))) for rows in lists(n, r2)]
    mats = {}
    if n <= 2:
        mats = {w: ref.pauli_matrix(w) for w in map("".join, itertools.product("IXYZ", repeat=n))}
    for idx, a in enumerate(lists(n, r1)):
        if idx % m != k:
            continue
        pa = quiet(mp.PauliOp, list(a))
        for b, pb in right:
            case = {"left": list(a), "right": list(b)}
            rec.state((a, b))
            with rec.case(case):
                rec.op(4)
                want = [[anticommute(x, y) for y in b] for x in a]
                got = np.array(pa.symplectic_prod(pb), dtype=int).tolist()
                if got != want:
                    rec.bad(case, f"symplectic product {got}, should be {want}")
                if (pa == pb) != (a == b) or (pa != pb) != (a != b):
                    rec.bad(case, "equality is wrong")
                if a == b and hash(pa) != hash(pb):
                    rec.bad(case, "equal operators hash differently")
                if (pb in pa) != set(b).issubset(a):
                    rec.bad(case, "membership is wrong")
                if r1 == r2 or 1 in (r1, r2):
                    rows = [products(x, y) for x, y in zip(a * (r2 if r1 == 1 else 1), b * (r1 if r2 == 1 else 1))]
                    e = same(pa * pb, rows)
                    if e:
                        rec.bad(case, f"product: {e}")
                    if mats:
                        for x, y, z in zip(a * (r2 if r1 == 1 else 1), b * (r1 if r2 == 1 else 1), rows):
                            assert ref.proportional(mats[x] @ mats[y], mats[z])
                if r1 == r2 == 1:
                    c = pa.commutator(pb)
                    if mats:
                        assert bool(np.allclose(mats[a[0]] @ mats[b[0]], mats[b[0]] @ mats[a[0]])) == (not want[0][0])
                    if not want[0][0]:
                        if isinstance(c, mp.PauliOp) or c != 0:
                            rec.bad(case, f"commutator of commuting operators is {c!r}")
                    else:
                        e = same(c, [products(a[0], b[0])]) if isinstance(c, mp.PauliOp) else f"is {c!r}"
                        if e:
                            rec.bad(case, f"commutator: {e}")
                e = same(pa, a) if idx % 7 == 0 else None
                if e:
                    rec.bad(case, f"an operand was changed: {e}")
                rec.trace(case)
                rec.outcome((tuple(map(tuple, want)), a == b))
    for b, pb in right:
        with rec.case({"right": list(b)}):
            e = same(pb, b)
            if e:
                rec.bad({"right": list(b)}, f"an operand was changed: {e}")
    # operators of different sizes are never equal
    for a in itertools.islice(lists(n, r1), 64):
        for b in itertools.islice(lists(n + 1, r1), 64):
            case = {"left": list(a), "right": list(b)}
            with rec.case(case):
                rec.op()
                pa, pb = mp.PauliOp(list(a)), mp.PauliOp(list(b))
                if pa == pb:
                    rec.bad(case, "operators on different numbers of qubits are equal")
                for x, y in ((pa, pb), (pb, pa)):
                    r, e = raises(lambda: x in y)
                    if not r and e:
                        rec.bad(case, "an operator on another number of qubits is a member")
        if k:
            break


# ------------------------------------------------------------------ many qubits, many operators

LONG = [(4, 12), (5, 15), (8, 24), (9, 30), (12, 17), (15, 45), (2, 16), (1, 20)]


def dense(n, off=0):
    return "".join("XZYIZX"[(j * j + off) % 6] for j in range(n))


def put(w, j, c):
    return w[:j] + c + w[j + 1:]


def wide(rec, n, k, m):
    base = ("I" * n, dense(n))
    idx = 0
    for b, a in itertools.product(base, repeat=2):
        for i, j in itertools.product(range(n), repeat=2):
            if n > 12 and not (i == j or abs(i - j) in (1, n - 1) or i in (0, n - 1) or j in (0, n - 1)):
                continue
            idx += 1
            if idx % m != k:
                continue
            for x, y in itertools.product("XYZ", repeat=2) if b[0] == a[0] == "I" else (("X", "Z"), ("Y", "Y"), ("I", "X")):
                p, q = put(b, i, x), put(a, j, y)
                case = {"left": p, "right": q}
                rec.state((p, q))
                with rec.case(case):
                    pp, pq = quiet(mp.PauliOp, p), quiet(mp.PauliOp, q)
                    rec.op(4)
                    want = anticommute(p, q)
                    if np.array(pp.symplectic_prod(pq), dtype=int).tolist() != [[want]]:
                        rec.bad(case, "symplectic product is wrong")
                    if (pp == pq) != (p == q) or (p == q and hash(pp) != hash(pq)) or (pq in pp) != (p == q):
                        rec.bad(case, "equality or membership is wrong")
                    e = same(pp * pq, [products(p, q)])
                    c = pp.commutator(pq)
                    if not e and (isinstance(c, mp.PauliOp) != bool(want) or (want and c.txt != products(p, q)) or (not want and c != 0)):
                        e = f"commutator is {c!r}"
                    e = e or same(pp, [p])
                    if e:
                        rec.bad(case, e)
                    rec.trace(case)


def some_rows(n, r, off):
    return [put(put(dense(n, t + off), (t + off) % n, "IXYZ"[(t * off + t) % 4]), (3 * t + off) % n, "ZYXI"[t % 4]) for t in range(r)]


def medium(rec, n):
    """Two different operators of several rows: all tables, products, membership, slices with steps, repeated columns."""
    for r1, r2, off in itertools.product(range(1, 7), range(1, 7), range(3)):
        a, b = some_rows(n, r1, off), some_rows(n, r2, 2 * off + 1)
        case = {"left": a, "right": b}
        rec.state((n, r1, r2, off))
        with rec.case(case):
            p, q = mp.PauliOp(list(a)), mp.PauliOp(";".join(b))
            rec.op(8)
            if np.array(p.symplectic_prod(q), dtype=int).tolist() != [[anticommute(x, y) for y in b] for x in a]:
                rec.bad(case, "the table of symplectic products is wrong")
            if r1 == r2 or r2 == 1:
                e = same(p * q, [products(x, y) for x, y in zip(a, b * r1 if r2 == 1 else b)])
                if e:
                    rec.bad(case, f"product: {e}")
            if (q in p) != (set(b) <= set(a)) or (p == q) != (a == b):
                rec.bad(case, "membership or equality is wrong")
            for sub in itertools.combinations(range(r1), min(3, r1)):
                rows = [a[t] for t in sub[::-1]]
                if mp.PauliOp(rows) not in p:
                    rec.bad({**case, "rows": rows}, "rows of the operator are not found in it")
                w = put(rows[-1], n - 1, "IXYZ"[("IXYZ".index(rows[-1][n - 1]) + 1) % 4])
                if (mp.PauliOp(rows[:-1] + [w]) in p) != (w in a):
                    rec.bad({**case, "rows": rows[:-1] + [w]}, "membership is wrong for several rows")
            for sl in (slice(None, None, 2), slice(None, None, -1), slice(-2, None), slice(None, -1), slice(1, None, 3), slice(None)):
                if a[sl]:
                    e = same(p[sl], a[sl])
                    if e:
                        rec.bad({**case, "slice": str(sl)}, e)
            for t in range(-r1, r1):
                e = same(p[t], [a[t]])
                if e:
                    rec.bad({**case, "row": t}, e)
            for cols in ([0, 0], [n - 1, 0], list(range(n)) + [0], [n - 1] * 3, list(range(n - 1, -1, -1)), list(range(0, n, 2)) + list(range(1, n, 2))):
                keep = list(cols)
                e = same(p.get_subset(cols), ["".join(w[c] for c in cols) for w in a])
                if e or cols != keep:
                    rec.bad({**case, "columns": keep}, e or "the caller's list was changed")
            grown = mp.PauliOp(list(a))
            grown.append(q)
            e = same(grown, a + b) or same(q, b) or same(p, a)
            if e:
                rec.bad(case, f"appended: {e}")
            rec.trace(case)
            rec.outcome((r1, r2))


def long(rec, n, r):
    rows = []
    for t in range(4 * r):
        w = put(dense(n, t), t % n, "IXYZ"[(t // n + t) % 4])
        if w not in rows:
            rows.append(w)
    rows = rows[:r]
    base = {"qubits": n, "operators": rows}
    rec.state((n, r))
    with rec.case(base):
        op = quiet(mp.PauliOp, list(rows))
        e = same(op, rows) or same(quiet(mp.PauliOp, ";".join(rows)), rows) or same(quiet(mp.PauliOp, bits(rows)), rows)
        if e:
            rec.bad(base, e)
            return
        want = [[anticommute(x, y) for y in rows] for x in rows]
        rec.op(3)
        if np.array(op.symplectic_prod(op), dtype=int).tolist() != want:
            rec.bad(base, "the table of symplectic products is wrong")
        e = same(op * op, ["I" * n] * len(rows)) or same(op * mp.PauliOp(dense(n, 3)), [products(w, dense(n, 3)) for w in rows])
        if e:
            rec.bad(base, f"product: {e}")
        for lo in range(len(rows)):
            for hi in range(lo + 1, len(rows) + 1):
                if lo not in (0, 1, len(rows) // 2) and hi - lo not in (1, 2, len(rows) - lo):
                    continue
                rec.op()
                e = same(op[lo:hi], rows[lo:hi])
                if e:
                    rec.bad({**base, "slice": [lo, hi]}, e)
                    return
        for cols in [(c,) for c in range(n)] + [tuple(range(n))[::-1], tuple(range(n))[::2], tuple(range(n // 2, n)) + tuple(range(n // 2))]:
            rec.op()
            e = same(op.get_subset(list(cols)), ["".join(w[c] for c in cols) for w in rows])
            if e:
                rec.bad({**base, "columns": list(cols)}, e)
                return
        for x in range(len(rows)):
            if mp.PauliOp(rows[x]) not in op or mp.PauliOp([rows[x], rows[0]]) not in op:
                rec.bad({**base, "row": x}, "a row is not found in the operator")
            for j in range(n):
                rec.op()
                rec.state((n, r, x, j))
                w = put(rows[x], j, "IXYZ"[("IXYZ".index(rows[x][j]) + 1 + (x + j) % 3) % 4])
                other = mp.PauliOp(rows[:x] + [w] + rows[x + 1:])
                if other == op or not other != op or (mp.PauliOp(w) in op) != (w in rows):
                    rec.bad({**base, "row": x, "changed": j}, "equality or membership is wrong after one letter changed")
                    return
        grown = mp.PauliOp(rows[0])
        for x in range(1, len(rows)):
            grown.append(mp.PauliOp(rows[x]))
        e = same(grown, rows) or same(op, rows)
        if e or not grown == op or hash(grown) != hash(op):
            rec.bad(base, f"appended one by one: {e or 'not equal'}")
        rec.outcome(len(rows))
        rec.trace(base)


# ------------------------------------------------------------------ histories


STARTS = [["XZ"], ["XZ", "YI"], ["XYZ"], ["ZIX", "IYY", "XXZ"]]


class Model:
    """Object graph: `cur` is the operator worked on, `kept` are other live references with their expected rows."""

    def __init__(self, rows):
        self.op = quiet(mp.PauliOp, list(rows))
        self.rows = list(rows)
        self.kept = []

    def keep(self, op, rows):
        self.kept.append((op, list(rows)))


def st_append_row(m):
    w = ("Y" + "Z" * len(m.rows[0]))[:len(m.rows[0])]
    other = mp.PauliOp(w)
    m.op.append(other)
    m.rows.append(w)
    m.keep(other, [w])


def st_append_two(m):
    n = len(m.rows[0])
    ws = [("IX" * n)[:n], ("Z" * n)]
    other = mp.PauliOp(ws)
    m.op.append(other)
    m.rows += ws
    m.keep(other, ws)


def st_append_self(m):
    m.op.append(m.op)
    m.rows += list(m.rows)


def st_first(m):
    m.keep(m.op, m.rows)
    m.op, m.rows = m.op[0], [m.rows[0]]


def st_last(m):
    m.keep(m.op, m.rows)
    m.op, m.rows = m.op[-1], [m.rows[-1]]


def st_slice(m):
    m.keep(m.op, m.rows)
    m.op, m.rows = m.op[::-1], m.rows[::-1]


def st_subset(m):
    m.keep(m.op, m.rows)
    n = len(m.rows[0])
    ind = list(range(n))[::-1]
    m.op, m.rows = m.op.get_subset(ind), [w[::-1] for w in m.rows]


def st_mul(m):
    n = len(m.rows[0])
    o = ("XY" * n)[:n]
    m.keep(m.op, m.rows)
    m.op, m.rows = m.op * mp.PauliOp(o), [products(w, o) for w in m.rows]


def st_appended_reference(m):
    """Append a row that is itself a live reference into another operator."""
    n = len(m.rows[0])
    src = mp.PauliOp([("ZX" * n)[:n], ("YI" * n)[:n]])
    row = src[1]
    m.op.append(row)
    m.rows.append(("YI" * n)[:n])
    m.keep(src, [("ZX" * n)[:n], ("YI" * n)[:n]])
    m.keep(row, [("YI" * n)[:n]])


STEPS = [st_append_row, st_append_two, st_append_self, st_first, st_last, st_slice, st_subset, st_mul, st_appended_reference]


def hist(rec, s, first, depth):
    for d in range(0, depth):
        for seq in itertools.product(range(len(STEPS)), repeat=d):
            seq = (first,) + seq
            case = {"start": STARTS[s], "steps": [STEPS[x].__name__[3:] for x in seq]}
            with rec.case(case):
                m = Model(STARTS[s])
                for x in seq:
                    rec.op()
                    STEPS[x](m)
                e = same(m.op, m.rows)
                if e:
                    rec.bad(case, e)
                if hash(m.op) != hash(mp.PauliOp(list(m.rows))) or not (m.op == mp.PauliOp(list(m.rows))):
                    rec.bad(case, "not equal to the same operator built afresh")
                for o, rows in m.kept:
                    e = same(o, rows)
                    if e:
                        rec.bad(case, f"another operator was changed: {e}")
                        break
                rec.state((s, tuple(m.rows), tuple(tuple(r) for _, r in m.kept)))
                rec.trace(case)
                rec.outcome(len(m.rows))


def invalid(rec):
    bad = [
        ("odd columns", np.array([[1, 0, 1]])), ("one column", np.array([[1]])), ("not bits", np.array([[2, 0]])), ("negative", np.array([[-1, 0]])), ("fraction", np.array([[0.5, 0.0]])),
        ("lengths", "XX;Y"), ("lengths list", ["XX", "Y"]), ("letter", "XA"), ("lower case", "xz"), ("letter list", ["X1"]), ("newline", "X\nZ"),
        ("number", 3), ("none", None), ("tuple", ("X", "Z")), ("empty", ""), ("empty list", []), ("digits", "01"), ("phase", "-X"), ("inner empty", "X;;Z"), ("dict", {}),
    ]
    for name, arg in bad:
        case = {"invalid": name}
        rec.state(name)
        with rec.case(case):
            r, e = raises(mp.PauliOp, arg)
            rec.op()
            rec.trace(case)
            rec.outcome(r)
            if not r:
                rec.bad(case, f"accepted as {e!r}")
    for n in (1, 2, 3):
        op = mp.PauliOp(["XYZ"[:n], "ZZX"[:n]])
        for inds in itertools.chain(itertools.product(range(-n - 1, n + 2), repeat=1), itertools.product(range(-n - 1, n + 2), repeat=2)):
            if all(0 <= i < n for i in inds):
                continue
            case = {"columns": list(inds), "qubits": n}
            rec.state((n, inds))
            with rec.case(case):
                r, e = raises(op.get_subset, list(inds))
                rec.op()
                rec.trace(case)
                if not r:
                    rec.bad(case, f"a column out of range is accepted: {e!r}")
        for other in ("X" * (n + 1), ["X" * (n + 2), "Z" * (n + 2)]):
            for what, f in (("append", lambda o: op.append(o)), ("product", lambda o: op * o), ("symplectic product", lambda o: op.symplectic_prod(o)), ("commutator", lambda o: op[0].commutator(o[0])),
                            ("member", lambda o: o in op), ("member of the longer", lambda o: op in o)):
                case = {"qubits": n, "other": other, "operation": what}
                rec.state((n, repr(other), what))
                with rec.case(case):
                    r, e = raises(f, mp.PauliOp(other))
                    rec.op()
                    rec.trace(case)
                    if what.startswith("member"):
                        if not r and e:
                            rec.bad(case, "an operator on another number of qubits is a member")
                    elif not r:
                        rec.bad(case, "operators on different numbers of qubits are combined")
                    e = same(op, ["XYZ"[:n], "ZZX"[:n]])
                    if e:
                        rec.bad(case, f"a refused operation changed the operator: {e}")
