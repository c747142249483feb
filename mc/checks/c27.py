"""C27  Gradients and Hessians are the derivatives of the cost function."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises
from mentpy.gradients import get_gradient, get_hessian

ID = "C27"
ASSUMPTIONS = [
    "the parameter shift rule is judged on trigonometric polynomials of degree 1 in every parameter (expectation values of circuits), for every shift that is not a multiple of pi; central differences on polynomials up to degree 2, where they are exact, and smooth functions within the truncation error",
    "rules are linear in the cost, so a basis of such functions determines them",
]
SHIFTS = (None, np.pi / 2, np.pi / 4, 0.31371, -1.10773, 2.0, 1.5)
POINTS = (0.0, 0.71731, -2.31877)


def BOUNDS(tier):
    d = 3 if tier == "thorough" else 2
    return (f"parameter shift: every product of 1, cos, sin in 1..{d} parameters (and a spanning set in 3) x {len(POINTS)}^d points x {len(SHIFTS)} shifts, gradient and Hessian, float, integer and 1-element parameters; "
            "finite differences: all monomials of degree <= 2 and a spanning set of trigonometric functions, three stencils, three steps, parameters as float and integer arrays and lists; every alias and refused method; expectation values of simulated circuits against their exact derivative; gradient variance over scripted estimators; "
            "4, 5, 6, 8 and 12 parameters: sums of terms that tell every parameter and every pair apart, all methods and stencils")


def shards(tier):
    d = 3 if tier == "thorough" else 2
    out = [("psr", k, j) for k in range(1, d + 1) for j in range(3**k)] + ([] if d == 3 else [("psr3", j) for j in range(3)])
    out += [("long", n) for n in (4, 5, 6, 8, 12)]
    return out + [("fd", k) for k in (1, 2, 3)] + [("names",), ("variance",), ("invalid",)] + [("circuit", j) for j in range(6)]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


F = (lambda t: 1.0, np.cos, np.sin)
D1 = (lambda t: 0.0, lambda t: -np.sin(t), np.cos)
D2 = (lambda t: 0.0, lambda t: -np.cos(t), lambda t: -np.sin(t))


def derivatives(word, x):
    d = len(word)
    g = np.array([np.prod([(D1 if k == i else F)[word[k]](x[k]) for k in range(d)]) for i in range(d)])
    h = np.array([[np.prod([(D2 if k == i == j else D1 if k in (i, j) else F)[word[k]](x[k]) for k in range(d)]) for j in range(d)] for i in range(d)])
    return g, h


def cost_of(word, log=None):
    def cost(x):
        x = np.asarray(x)
        if log is not None:
            log.append(x.copy())
        return float(np.prod([F[w](t) for w, t in zip(word, x)]))
    return cost


def compare(rec, case, got, want, tol):
    rec.op()
    got = np.asarray(got, dtype=float)
    if got.shape != np.shape(want) or not np.allclose(got, want, rtol=1e-8, atol=tol):
        rec.bad(case, f"{np.round(got, 6).tolist()}, should be {np.round(np.asarray(want), 6).tolist()}")


def psr(rec, word):
    for x in itertools.product(POINTS, repeat=len(word)):
        g, h = derivatives(word, x)
        for s in SHIFTS:
            for method in ("parameter-shift",) if s is not None else ("parameter-shift", None):
                case = {"cost": " ".join("1cs"[w] for w in word), "x": list(x), "shift": s, "method": method}
                rec.state((word, x, s, method))
                with rec.case(case):
                    kw = {} if s is None else {"shift": s}
                    if method:
                        kw["method"] = method
                    a = np.array(x)
                    compare(rec, {**case, "what": "gradient"}, quiet(get_gradient, cost_of(word), a, **kw), g, 1e-7)
                    compare(rec, {**case, "what": "hessian"}, quiet(get_hessian, cost_of(word), a, **kw), h, 1e-7)
                    if a.tolist() != list(x):
                        rec.bad(case, "the caller's parameters were changed")
                    rec.trace(case)
                    rec.outcome(tuple(np.round(g, 4)))
    case = {"cost": " ".join("1cs"[w] for w in word), "integer parameters": True}
    with rec.case(case):
        x = list(range(1, len(word) + 1))
        g, h = derivatives(word, x)
        for a in (np.array(x), x, tuple(x)):
            compare(rec, {**case, "as": type(a).__name__}, quiet(get_gradient, cost_of(word), a), g, 1e-7)


def do_long(rec, n):
    """Costs whose derivatives are all different: gradient and Hessian entries at the right places."""
    w = np.arange(1, n + 1) * 0.37 + 0.2
    q = np.array([[((3 * i + 5 * j + i * j) % 11) * 0.1 + 0.05 for j in range(n)] for i in range(n)])
    q = np.triu(q, 1)
    x = np.array([0.3 * (-1) ** i * (i % 5 + 1) for i in range(n)])

    def trig(y):
        s, c = np.sin(y), np.cos(y)
        return float(w @ s + c @ q @ s)

    s, c = np.sin(x), np.cos(x)
    g = w * c - s * (q @ s) + c * (q.T @ c)
    h = np.array([[-s[i] * q[i, j] * c[j] - s[j] * q[j, i] * c[i] if i != j else -w[i] * s[i] - c[i] * (q @ s)[i] - s[i] * (q.T @ c)[i] for j in range(n)] for i in range(n)])
    poly = lambda y: float(w @ np.asarray(y) + np.asarray(y) @ q @ np.asarray(y) + 0.5 * (w * np.asarray(y)) @ np.asarray(y))  # noqa: E731
    gp, hp = w + (q + q.T) @ x + w * x, q + q.T + np.diag(w)
    for shift in SHIFTS:
        case = {"parameters": n, "shift": shift}
        rec.state((n, shift))
        with rec.case(case):
            kw = {} if shift is None else {"shift": shift}
            compare(rec, {**case, "what": "gradient"}, quiet(get_gradient, trig, x.copy(), **kw), g, 1e-7)
            compare(rec, {**case, "what": "hessian"}, quiet(get_hessian, trig, x.copy(), **kw), h, 1e-7)
            rec.trace(case)
    for step in (None, 1e-3, 0.1):
        for stencil in (None, "central", "forward", "backward"):
            case = {"parameters": n, "h": step, "stencil": stencil}
            rec.state((n, step, stencil))
            with rec.case(case):
                kw = {k: v for k, v in (("h", step), ("type", stencil)) if v is not None}
                want = gp + {"forward": 1, "backward": -1}.get(stencil, 0) * (step or 1e-5) / 2 * np.diag(hp)
                compare(rec, {**case, "what": "gradient"}, quiet(get_gradient, poly, x.copy(), "fd", **kw), want, 1e-7 if step else 1e-5)
                compare(rec, {**case, "what": "hessian"}, quiet(get_hessian, poly, x.copy(), "fd", **({} if step is None else {"h": step})), hp, 1e-5 if step else 0.05)
                compare(rec, {**case, "what": "trigonometric gradient"}, quiet(get_gradient, trig, x.copy(), "fd"), g, 1e-6)
                rec.trace(case)


def do_psr(rec, d, j):
    word = list(itertools.product(range(3), repeat=d))[j]
    psr(rec, word)


def do_psr3(rec, j):
    for word in [(1, 2, 1), (2, 2, 2), (0, 1, 2), (1, 0, 0), (2, 1, 0), (0, 0, 2), (1, 1, 1), (2, 0, 1), (0, 2, 2)][j::3]:
        psr(rec, word)


def do_fd(rec, d):
    # monomials of total degree <= 2: exact for central differences; forward/backward are off by h/2 f''
    monos = [e for e in itertools.product(range(3), repeat=d) if sum(e) <= 2]
    for e in monos:
        for x in itertools.product(POINTS, repeat=d):
            g = np.array([e[i] * np.prod([x[k] ** (e[k] - (k == i)) if e[k] - (k == i) > 0 else 1.0 for k in range(d)]) if e[i] else 0.0 for i in range(d)])
            h = np.zeros((d, d))
            for i in range(d):
                for j in range(d):
                    f = list(e)
                    c = f[i]
                    f[i] -= 1
                    c *= f[j]
                    f[j] -= 1
                    h[i, j] = c if c else 0.0  # total degree 2, so second derivatives are constants
            for step in (None, 1e-3, 0.1):
                for stencil in (None, "central", "forward", "backward"):
                    case = {"monomial": list(e), "x": list(x), "h": step, "stencil": stencil}
                    rec.state((e, x, step, stencil))
                    with rec.case(case):
                        kw = {k: v for k, v in (("h", step), ("type", stencil)) if v is not None}
                        cost = lambda y: float(np.prod([y[k] ** e[k] for k in range(d)]))  # noqa: E731
                        want = g
                        if stencil in ("forward", "backward"):
                            want = g + (1 if stencil == "forward" else -1) * (step or 1e-5) / 2 * np.diag(h)
                        a = np.array(x)
                        compare(rec, {**case, "what": "gradient"}, quiet(get_gradient, cost, a, method="fd", **kw), want, 1e-8 if step else 1e-6)
                        # at the default step rounding costs about 1e-16 * |f| / h^2
                        compare(rec, {**case, "what": "hessian"}, quiet(get_hessian, cost, a, method="fd", **kw), h, 1e-6 if step else 1e-3)
                        if a.tolist() != list(x):
                            rec.bad(case, "the caller's parameters were changed")
                        rec.trace(case)
                        rec.outcome(tuple(g))
    for word in itertools.product(range(3), repeat=d):
        for x in itertools.product(POINTS[:2], repeat=d):
            case = {"cost": " ".join("1cs"[w] for w in word), "x": list(x), "method": "fd"}
            rec.state((word, x))
            with rec.case(case):
                g, h = derivatives(word, x)
                compare(rec, {**case, "what": "gradient"}, quiet(get_gradient, cost_of(word), np.array(x), method="fd"), g, 1e-6)
                compare(rec, {**case, "what": "hessian"}, quiet(get_hessian, cost_of(word), np.array(x), method="fd", h=1e-3), h, 1e-5)
                compare(rec, {**case, "what": "hessian, default step"}, quiet(get_hessian, cost_of(word), np.array(x), method="fd"), h, 1e-3)
                rec.trace(case)
    # parameters given as an integer array or as a list
    for word in itertools.product(range(3), repeat=d):
        for x in itertools.product((0, 1, -2), repeat=d):
            for kind, make in (("integers", lambda v: np.array(v)), ("list", lambda v: [float(t) for t in v]), ("list of integers", list)):
                case = {"cost": " ".join("1cs"[w] for w in word), "x": list(x), "method": "fd", "given as": kind}
                rec.state((word, x, kind))
                with rec.case(case):
                    g, h = derivatives(word, x)
                    for stencil in ("central", "forward", "backward"):
                        a = make(x)
                        compare(rec, {**case, "what": "gradient", "stencil": stencil}, quiet(get_gradient, cost_of(word), a, method="fd", type=stencil), g, 1e-6 if stencil == "central" else 1e-4)
                        compare(rec, {**case, "what": "hessian", "stencil": stencil}, quiet(get_hessian, cost_of(word), a, method="fd", type=stencil, h=1e-3), h, 1e-5 if stencil == "central" else 1e-2)
                        if list(a) != list(x):
                            rec.bad(case, "the caller's parameters were changed")
                    a = make(x)
                    compare(rec, {**case, "what": "gradient, shift"}, quiet(get_gradient, cost_of(word), a), g, 1e-8)
                    compare(rec, {**case, "what": "hessian, shift"}, quiet(get_hessian, cost_of(word), a), h, 1e-8)
                    if list(a) != list(x):
                        rec.bad(case, "the caller's parameters were changed")
                    rec.trace(case)


def do_names(rec):
    cost = lambda x: float(np.sin(x[0]) * np.cos(x[1]) + x[0] ** 3)  # noqa: E731  not a trigonometric polynomial: the rules differ
    x = np.array([0.4, 1.2])
    s = 0.5
    psr_g = [(cost(x + s * e) - cost(x - s * e)) / (2 * np.sin(s)) for e in np.eye(2)]
    psr_h = [[(cost(x + s * a + s * b) - cost(x + s * a - s * b) - cost(x - s * a + s * b) + cost(x - s * a - s * b)) / (4 * np.sin(s) ** 2) for b in np.eye(2)] for a in np.eye(2)]
    fd_g = [np.cos(0.4) * np.cos(1.2) + 3 * 0.16, -np.sin(0.4) * np.sin(1.2)]
    for name in ("parameter-shift", "psr", "parametershift"):
        case = {"method": name}
        rec.state(name)
        with rec.case(case):
            compare(rec, case, quiet(get_gradient, cost, x, name, shift=s), psr_g, 1e-9)
            compare(rec, case, quiet(get_gradient, cost, x, name, s), psr_g, 1e-9)
            compare(rec, case, quiet(get_hessian, cost, x, name, shift=s), psr_h, 1e-9)
            rec.trace(case)
    for name in ("finite-differences", "fd", "finitedifferences"):
        case = {"method": name}
        rec.state(name)
        with rec.case(case):
            compare(rec, case, quiet(get_gradient, cost, x, name), fd_g, 1e-6)
            rec.trace(case)


def do_invalid(rec):
    cost = lambda x: float(x[0])  # noqa: E731
    for f in (get_gradient, get_hessian):
        for kw in ({"method": "adjoint"}, {"method": ""}, {"method": None}, {"method": "fd", "type": "left"}, {"method": "fd", "type": ""}):
            case = {"function": f.__name__, **kw}
            rec.state((f.__name__, str(kw)))
            with rec.case(case):
                r, e = raises(f, cost, np.array([1.0]), **kw)
                rec.op()
                rec.trace(case)
                if not r:
                    rec.bad(case, "an unknown method is accepted")


def do_variance(rec):
    from mentpy.optimizers.bp_tools import compute_gradient_variance as var
    vals = (-1.0, 0.0, 2.0)
    for n in (1, 2, 3, 4):
        for seq in itertools.product(vals, repeat=n):
            case = {"samples": n, "estimates": seq}
            rec.state(seq)
            with rec.case(case):
                it = iter(seq)
                calls = []

                def est(f, x, **kw):
                    calls.append((f, x, kw))
                    v = next(it)
                    return np.array([v, 3 * v])

                got = quiet(var, "f", "x", est, num_samples=n, shift=1)
                m = sum(seq) / n
                v = sum((s - m) ** 2 for s in seq) / n
                compare(rec, case, got, [v, 9 * v], 1e-9)
                if calls != [("f", "x", {"shift": 1})] * n:
                    rec.bad(case, "the estimator is not called once per sample with the arguments given")
                rec.trace(case)


def do_circuit(rec, j):
    n, edges, i, o = [
        (2, ((0, 1),), (0,), (1,)), (3, ((0, 1), (1, 2)), (0,), (2,)), (4, ((0, 1), (1, 2), (2, 3)), (0,), (3,)),
        (4, ((0, 2), (1, 3), (2, 3)), (0, 1), (2, 3)), (4, ((0, 2), (1, 3), (0, 1)), (0, 1), (3, 2)), (5, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 3)), (0,), (4,)),
    ][j]
    if not ref.has_causal_flow(n, edges, i, o):
        return
    obs = [ref.kron(*[ref.PAULI[c] for c in w]) for w in itertools.product("XYZ", repeat=len(o))]
    for backend in ("numpy-dm", "numpy-sv"):
        for a, ob in enumerate(obs):
            case = {"circuit": j, "backend": backend, "observable": a}
            rec.state((j, backend, a))
            with rec.case(case):
                c = lib.circuit(n, edges, i, o)
                s = lib.sim(c, backend)
                psi = np.ones(2 ** len(i)) / np.sqrt(2 ** len(i))

                def cost(x, s=s, ob=ob):
                    s.reset()
                    r = np.asarray(quiet(s.run, list(x)))
                    r = ref.dm(r) if r.ndim == 1 else r
                    return float(np.real(np.trace(r @ ob)))

                def exact(x):
                    r, _ = lib.ref_dm(n, edges, i, o, {v: ("XY", t) for v, t in zip(c.trainable_nodes, x)}, psi)
                    return float(np.real(np.trace(r @ ob)))

                x = np.array([0.3 + 0.9 * k for k in range(len(c.trainable_nodes))])
                want = [(exact(x + 1e-5 * e) - exact(x - 1e-5 * e)) / 2e-5 for e in np.eye(len(x))]
                compare(rec, case, quiet(get_gradient, cost, x), want, 1e-5)
                compare(rec, case, quiet(get_gradient, cost, x, "fd"), want, 1e-4)
                rec.trace(case)
                rec.outcome(tuple(np.round(want, 4)))
