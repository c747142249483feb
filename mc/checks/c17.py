"""C17  Conditions on outcomes: every expression evaluates to its value and knows the nodes it depends on."""
import itertools

import mentpy as mp
from mc import lib
from mc.core import quiet, raises

ID = "C17"
ASSUMPTIONS = [
    "arithmetic is on bits and the result of every operation is reduced modulo 2; constants are 0, 1, False, True",
    "division, modulo and power are not conditions on bits and are not explored",
]
OPS = {
    "*": (lambda x, y: x * y, lambda x, y: x * y),
    "+": (lambda x, y: x + y, lambda x, y: (x + y) % 2),
    "-": (lambda x, y: x - y, lambda x, y: (x - y) % 2),
    "&": (lambda x, y: x & y, lambda x, y: int(x and y)),
    "|": (lambda x, y: x | y, lambda x, y: int(x or y)),
    "^": (lambda x, y: x ^ y, lambda x, y: x ^ y),
    "==": (lambda x, y: x == y, lambda x, y: int(x == y)),
    "!=": (lambda x, y: x != y, lambda x, y: int(x != y)),
    "<": (lambda x, y: x < y, lambda x, y: int(x < y)),
    "<=": (lambda x, y: x <= y, lambda x, y: int(x <= y)),
    ">": (lambda x, y: x > y, lambda x, y: int(x > y)),
    ">=": (lambda x, y: x >= y, lambda x, y: int(x >= y)),
}
CONSTS = (0, 1, False, True)
NODES = (0, 2, 3)  # measured nodes of the circuit the outcomes come from


def BOUNDS(tier):
    return ("all expression trees over the outcomes of three nodes of a circuit, the constants 0, 1, False, True, twelve binary operators and negation: depth 1 completely; "
            + ("depth 2 completely" if tier == "thorough" else "depth 2 with a leaf on one side, and with both sides of depth 1 for eight representative operands")
            + "; every tree on all 8 outcome assignments; dependencies; operands unchanged afterwards; wrong operands and missing outcomes refused; "
            "chains and balanced trees of 3..8 outcomes under every operator and every pair of alternating operators, repeated nodes, on every outcome assignment")


def leaves():
    return [("n", v) for v in NODES]


def depth1():
    out = [("~", x) for x in leaves()]
    for op in OPS:
        for x in leaves():
            for y in leaves() + [("c", c) for c in CONSTS]:
                out.append((op, x, y))
    return out


def show(t):
    if t[0] == "n":
        return f"m{t[1]}"
    if t[0] == "c":
        return repr(t[1])
    if t[0] == "~":
        return f"~({show(t[1])})"
    return f"({show(t[1])} {t[0]} {show(t[2])})"


def build(t, c):
    if t[0] == "n":
        return c[t[1]].outcome
    if t[0] == "c":
        return t[1]
    if t[0] == "~":
        return ~build(t[1], c)
    return OPS[t[0]][0](build(t[1], c), build(t[2], c))


def value(t, env):
    if t[0] == "n":
        return env[t[1]]
    if t[0] == "c":
        return int(t[1])
    if t[0] == "~":
        return 1 - value(t[1], env)
    return OPS[t[0]][1](value(t[1], env), value(t[2], env))


def nodes_of(t):
    if t[0] == "n":
        return {t[1]}
    if t[0] == "c":
        return set()
    return set().union(*[nodes_of(x) for x in t[1:]])


def trees(tier):
    d1 = depth1()
    yield from leaves()
    yield from d1
    cl = [("c", c) for c in CONSTS]
    if tier == "thorough":
        for t in d1:
            yield ("~", t)
            for op in OPS:
                for y in leaves() + cl + d1:
                    yield (op, t, y)
    else:
        for t in d1:
            yield ("~", t)
            for op in OPS:
                for y in leaves() + [("c", 0), ("c", True)]:
                    yield (op, t, y)
        some = [("~", ("n", 0)), ("^", ("n", 0), ("n", 2)), ("&", ("n", 2), ("n", 3)), ("|", ("n", 3), ("n", 0)), ("+", ("n", 3), ("c", 1)), ("-", ("n", 0), ("n", 3)), ("<", ("n", 2), ("n", 0)), ("==", ("n", 2), ("c", 0))]
        for op in OPS:
            for x in some:
                for y in some:
                    yield (op, x, y)
    for op in OPS:
        for x in leaves():
            for t in d1:
                yield (op, x, t)


def shards(tier):
    m = 64 if tier == "thorough" else 24
    return [(k, m, tier) for k in range(m)] + [("chain", k, 24) for k in range(24)]


def circuit():
    return lib.circuit(5, ((0, 1), (1, 2), (2, 3), (3, 4)), (0,), (4,))


def long_trees():
    """Left chains, right chains and balanced trees over 3..8 nodes (all different, or with one repeated)."""
    ops = list(OPS)
    pairs = [(a, a) for a in ops] + [(a, b) for a in ("+", "&", "|", "^", "-", "<") for b in ("+", "&", "|", "==", "*") if a != b]
    for size in range(3, 9):
        for perm in (list(range(size)), list(range(size))[::-1], [(3 * j + 1) % size for j in range(size)] if size % 3 else list(range(1, size)) + [0], list(range(size - 1)) + [0]):
            leaf = [("n", v) for v in perm]
            for a, b in pairs:
                left, right = leaf[0], leaf[-1]
                for j in range(1, size):
                    left = (a if j % 2 else b, left, leaf[j])
                    right = (a if j % 2 else b, leaf[size - 1 - j], right)
                yield size, left
                yield size, right
                if size > 3:
                    row = list(leaf)
                    depth = 0
                    while len(row) > 1:
                        row = [((a, b)[depth % 2], row[j], row[j + 1]) if j + 1 < len(row) else row[j] for j in range(0, len(row), 2)]
                        depth += 1
                    yield size, row[0]
                    yield size, ("~", left)


def chains(rec, k, m):
    c = lib.circuit(10, tuple((v, v + 1) for v in range(9)), (0,), (9,))
    for idx, (size, t) in enumerate(long_trees()):
        if idx % m != k:
            continue
        case = {"expression": show(t)}
        rec.state(("long", show(t)))
        with rec.case(case):
            cond = quiet(build, t, c)
            if set(cond.cond_nodes) != nodes_of(t):
                rec.bad(case, f"depends on {sorted(nodes_of(t))}, reports {sorted(cond.cond_nodes)}")
                continue
            for bits in itertools.product((0, 1), repeat=size):
                env = dict(enumerate(bits))
                rec.op()
                if bool(cond({**env, 8: 1 - bits[0]})) != bool(value(t, env)):
                    rec.bad({**case, "outcomes": bits}, f"evaluates to {not value(t, env)}, should be {bool(value(t, env))}")
                    break
            rec.note("long")
            rec.trace(case)


def explore(shard, rec):
    if shard[0] == "chain":
        return chains(rec, *shard[1:])
    k, m, tier = shard
    c = circuit()
    envs = [dict(zip(NODES, b), **{}) for b in itertools.product((0, 1), repeat=3)]
    for idx, t in enumerate(trees(tier)):
        if idx % m != k:
            continue
        case = {"expression": show(t)}
        rec.state(show(t))
        with rec.case(case):
            cond = quiet(build, t, c)
            got = []
            for env in envs:
                full = {**env, 1: 1 - env[0], 4: 1}
                rec.op()
                r = cond(full)
                got.append(int(bool(r)))
                if bool(r) != bool(value(t, env)):
                    rec.bad({**case, "outcomes": env}, f"evaluates to {bool(r)}, should be {bool(value(t, env))}")
                    break
            if set(cond.cond_nodes) != nodes_of(t):
                rec.bad(case, f"depends on {sorted(nodes_of(t))}, reports {sorted(cond.cond_nodes)}")
            for v in NODES:
                if c[v].outcome.cond_nodes != {v} or c[v].outcome({v: 1}) != 1:
                    rec.bad(case, f"building the expression changed the outcome of node {v}")
            rec.outcome(tuple(got))
            rec.trace(case)
    if k == 0:
        special(rec, c)


def special(rec, c):
    m = c[0].outcome
    for op in OPS:
        for wrong in ("1", 1.5, [0], None):
            case = {"operator": op, "operand": repr(wrong)}
            rec.state(("wrong", op, repr(wrong)))
            with rec.case(case):
                bad, e = raises(OPS[op][0], m, wrong)
                rec.op()
                rec.trace(case)
                if not bad or not isinstance(e, TypeError):
                    rec.bad(case, "an operand that is neither a bit nor an outcome is accepted")
        case = {"operator": op, "operand": "callable"}
        rec.state(("callable", op))
        with rec.case(case):
            f = OPS[op][0](m, lambda x: x[3])
            for a, b in itertools.product((0, 1), repeat=2):
                rec.op()
                if bool(f({0: a, 3: b})) != bool(OPS[op][1](a, b)):
                    rec.bad(case, "a condition with a callable evaluates wrongly")
    for t in depth1():
        case = {"expression": show(t), "missing": True}
        rec.state(("missing", show(t)))
        with rec.case(case):
            cond = build(t, c)
            bad, e = raises(cond, {})
            rec.op()
            if not bad:
                rec.bad(case, "a condition has a value although no node was measured")
    for const in CONSTS + (2, 3, -1):
        case = {"constant": repr(const)}
        rec.state(("const", repr(const)))
        with rec.case(case):
            x = mp.operators.ment.MentOutcome(const)
            rec.op()
            if bool(x({})) != bool(const % 2) or set(x.cond_nodes):
                rec.bad(case, "a constant outcome has the wrong value or depends on nodes")
