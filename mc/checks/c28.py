"""C28  Optimisers follow their update rule through any history of steps, runs and resets."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib
from mc.core import quiet

ID = "C28"
ASSUMPTIONS = [
    "update rules: gradient descent v <- m v - s g, x <- x + v (Nesterov: x <- x + m v - s g); Adam with bias correction; coordinate descent x_k <- x_k - s d_k f",
    "step and optimize continue from the moments of earlier calls until reset (optimize starts counting Adam's iterations at 0); optimize_and_gradient_norm starts from zero moments and leaves them alone",
    "coordinate draws are scripted, every sequence is explored, and each step is judged for the coordinate it moved; with an adaptive step, single steps divide by sqrt(i + 1) and optimize_and_gradient_norm divides by the square root of the number of visits of the coordinate",
]


def BOUNDS(tier):
    d = 4 if tier == "thorough" else 3
    return (f"gradient descent (3 momenta x Nesterov x 2 step sizes) and Adam (2 settings): every sequence of length <= {d} of step, optimize 0..2 iterations, optimize_and_gradient_norm, reset, step-size update, with and without callback, and runs of 0..16 iterations; "
            "two cost functions, two gradient methods; coordinate descent: every coordinate sequence of length <= 5 in 1..3 parameters x adaptive x step, optimize, optimize_and_gradient_norm; two optimisers interleaved; 1..12 parameters with runs of up to 64 iterations in one or several calls, coordinate descent in 4..8 parameters with sequences of up to 24 draws; options handed on to the gradient (method, shift, h, type), verbose runs and default numbers of iterations on a quadratic that tells them apart")


def shards(tier):
    d = 4 if tier == "thorough" else 3
    return [("hist", k, a, d) for k in range(len(CONFIGS)) for a in range(len(OPS))] + [("rcd", n, ad) for n in (1, 2, 3) for ad in (False, True)] + [("pairs", k) for k in range(len(CONFIGS))] + [("long", k) for k in range(len(CONFIGS))] + [("descend",)] + [("options", k) for k in range(len(CONFIGS))] + [("rcdsize",)] + [("wide", k, n) for k in range(len(CONFIGS)) for n in (1, 3, 5, 8, 12)] + [("rcdwide", n, ad) for n in (4, 5, 6, 8) for ad in (False, True)]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


SGD, ADAM, RCD = mp.optimizers.SGDOptimizer, mp.optimizers.AdamOptimizer, mp.optimizers.RCDOptimizer
CONFIGS = [
    ("sgd", {}), ("sgd", {"step_size": 0.3}), ("sgd", {"momentum": 0.9}), ("sgd", {"momentum": 0.5, "nesterov": True}), ("sgd", {"nesterov": True}), ("sgd", {"step_size": 0.02, "momentum": 0.8, "nesterov": True}),
    ("adam", {}), ("adam", {"step_size": 0.3, "b1": 0.5, "b2": 0.8, "eps": 1e-3}), ("adam", {"b1": 0.0}),
]


def f0(x):
    return float(np.sin(x[0]) * np.cos(x[1]) + 0.5 * np.cos(x[0]))


def g0(x):
    return np.array([np.cos(x[0]) * np.cos(x[1]) - 0.5 * np.sin(x[0]), -np.sin(x[0]) * np.sin(x[1])])


X0 = (0.41387, -1.10773)


class Ref:
    def __init__(self, kind, kw, dim=2):
        self.kind, self.dim = kind, dim
        d = {"step_size": 0.1, "momentum": 0.0, "nesterov": False} if kind == "sgd" else {"step_size": 0.1, "b1": 0.9, "b2": 0.999, "eps": 1e-8}
        d.update(kw)
        self.__dict__.update(d)
        self.reset()

    def reset(self):
        self.m, self.v = np.zeros(self.dim), np.zeros(self.dim)

    def step(self, x, i, grad=g0):
        g = grad(x)
        if self.kind == "sgd":
            self.v = self.momentum * self.v - self.step_size * g
            return x + self.v if not self.nesterov else x + self.momentum * self.v - self.step_size * g
        self.m = self.b1 * self.m + (1 - self.b1) * g
        self.v = self.b2 * self.v + (1 - self.b2) * g * g
        return x - self.step_size * (self.m / (1 - self.b1 ** (i + 1))) / (np.sqrt(self.v / (1 - self.b2 ** (i + 1))) + self.eps)

    def moments(self):
        return self.m.copy(), self.v.copy()

    def restore(self, mv):
        self.m, self.v = mv


def make(kind, kw):
    return quiet(SGD if kind == "sgd" else ADAM, **kw)


OPS = [("step", 0), ("step", 3), ("optimize", 0), ("optimize", 1), ("optimize", 2), ("norm", 2), ("norm", 0), ("reset", 0), ("update", 0), ("update", 1), ("fd", 1)]


class Bad(Exception):
    pass


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=tol)


def apply(opt, model, op, x, xr, cb):
    """x: the real iterate, xr: the model's."""
    name, k = op
    before = np.array(x, copy=True)
    seen = []
    call = (lambda y, i: seen.append((np.array(y, copy=True), i))) if cb else None
    kw = {"callback": call} if cb else {}
    if name == "step":
        y, yr = quiet(opt.step, f0, x, k), model.step(xr, k)
    elif name in ("optimize", "fd"):
        if name == "fd":
            kw["method"] = "fd"
        y = quiet(opt.optimize, f0, x, num_iters=k, **kw)
        yr, want = xr, []
        for i in range(k):
            yr = model.step(yr, i)
            want.append((yr, i))
        if cb and ([i for _, i in seen] != [i for _, i in want] or not all(near(a, b, 1e-5) for (a, _), (b, _) in zip(seen, want))):
            raise Bad(f"callback saw {seen}")
    elif name == "norm":
        y, norms = quiet(opt.optimize_and_gradient_norm, f0, x, num_iters=k, **kw)
        mv = model.moments()
        model.reset()
        yr, want = xr, []
        ws = []
        for i in range(k):
            want.append(np.linalg.norm(g0(yr)))
            yr = model.step(yr, i)
            ws.append((yr, i))
        model.restore(mv)
        if not near(list(norms), want, 1e-5):
            raise Bad(f"gradient norms {list(norms)}, should be {want}")
        if cb and ([i for _, i in seen] != [i for _, i in ws] or not all(near(a, b, 1e-5) for (a, _), (b, _) in zip(seen, ws))):
            raise Bad(f"callback saw {seen}")
    elif name == "reset":
        quiet(opt.reset)
        model.reset()
        y, yr = x, xr
    else:
        if k:
            quiet(opt.update_step_size, x, 0, factor=0.5)
        else:
            quiet(opt.update_step_size, x, 0)
        model.step_size *= 0.5 if k else 0.99
        y, yr = x, xr
    if not np.array_equal(np.asarray(x), before):
        raise Bad("the caller's parameters were changed")
    return y, yr


def do_hist(rec, k, first, depth):
    kind, kw = CONFIGS[k]
    for d in range(depth):
        for seq in itertools.product(range(len(OPS)), repeat=d):
            seq = (first,) + seq
            for cb in (False, True) if d < 2 else (False,):
                case = {"optimiser": kind, "settings": kw, "history": [list(OPS[s]) for s in seq], "callback": cb}
                with rec.case(case):
                    opt, model = make(kind, kw), Ref(kind, kw)
                    x, xr = np.array(X0), np.array(X0)
                    try:
                        for s in seq:
                            x, xr = apply(opt, model, OPS[s], x, xr, cb)
                            rec.op()
                            if not near(x, xr):
                                raise Bad(f"parameters {np.asarray(x).tolist()}, should be {xr.tolist()}")
                    except Bad as e:
                        rec.bad(case, str(e))
                    rec.state((k, tuple(np.round(xr, 9)), tuple(np.round(model.m, 9)), tuple(np.round(model.v, 9)), round(model.step_size, 9)))
                    rec.trace(case)
                    rec.outcome(tuple(np.round(xr, 5)))


def do_long(rec, k):
    """Long runs: n iterations are n steps, whatever is called, for every n up to 16; steps at late iterations."""
    kind, kw = CONFIGS[k]
    ops = [("optimize", n) for n in range(17)] + [("norm", n) for n in range(17)] + [("fd", n) for n in (4, 7)] + [("step", i) for i in (4, 9, 31, 200)]
    for op in ops:
        for before in ([], [("optimize", 5)], [("norm", 6)], [("step", 2), ("reset", 0)]):
            case = {"optimiser": kind, "settings": kw, "history": [list(o) for o in before + [op]], "callback": True}
            rec.state((k, op, str(before)))
            with rec.case(case):
                opt, model = make(kind, kw), Ref(kind, kw)
                x, xr = np.array(X0), np.array(X0)
                try:
                    for o in before + [op]:
                        x, xr = apply(opt, model, o, x, xr, True)
                        rec.op()
                        if not near(x, xr, 1e-5):
                            raise Bad(f"parameters {np.asarray(x).tolist()}, should be {xr.tolist()}")
                except Bad as e:
                    rec.bad(case, str(e))
                rec.trace(case)
                rec.outcome(tuple(np.round(xr, 5)))


QA, QB = np.array([0.81173, 0.31871]), np.array([-0.5, 0.9])


def quad(x):
    return float(QA @ (np.asarray(x) - QB) ** 2)


# options that are handed on to the gradient, with the gradient of `quad` they stand for
GRADIENTS = [
    ({}, lambda x: 2 * QA * (x - QB) * 1.5 / np.sin(1.5)),
    ({"method": "fd"}, lambda x: 2 * QA * (x - QB)),
    ({"method": "parameter-shift", "shift": 0.5}, lambda x: 2 * QA * (x - QB) * 0.5 / np.sin(0.5)),
    ({"method": "finite-differences", "h": 0.25, "type": "forward"}, lambda x: 2 * QA * (x - QB) + 0.25 * QA),
    ({"method": "fd", "type": "backward", "h": 0.125}, lambda x: 2 * QA * (x - QB) - 0.125 * QA),
]


def do_options(rec, k):
    """The gradient method and its options are those asked for; printing changes nothing; 100 iterations unless told otherwise."""
    kind, kw = CONFIGS[k]
    for opts, grad in GRADIENTS:
        for way, n, verbose in itertools.product(("step", "optimize", "norm"), (1, 2, None), (False, True)):
            if way == "step" and verbose or n is None and (way == "step" or opts):
                continue
            case = {"optimiser": kind, "settings": kw, "options": {a: str(b) for a, b in opts.items()}, "through": way, "iterations": n, "verbose": verbose}
            rec.state((k, str(opts), way, n, verbose))
            with rec.case(case):
                opt, model = make(kind, kw), Ref(kind, kw)
                x = np.array(X0)
                extra = dict(opts, **({"verbose": True} if verbose else {}))
                if n is not None and way != "step":
                    extra["num_iters"] = n
                xr, norms, want, seen = np.array(X0), [], [], []
                for i in range(100 if n is None else n):
                    norms.append(np.linalg.norm(grad(xr)))
                    xr = model.step(xr, i, grad)
                    want.append(xr)
                got = norms
                if way != "step":
                    extra["callback"] = lambda z, i: seen.append((np.array(z, copy=True), i))  # noqa: E731
                if way == "step":
                    y = x
                    for i in range(n):
                        y = quiet(opt.step, quad, y, i, **extra)
                elif way == "optimize":
                    y = quiet(opt.optimize, quad, x, **extra)
                else:
                    y, got = quiet(opt.optimize_and_gradient_norm, quad, x, **extra)
                rec.op(len(norms))
                if len(got) != len(norms) or not near(y, xr, 1e-4) or not near(list(got), norms, 1e-4):
                    rec.bad(case, f"parameters {np.asarray(y).tolist()}, should be {xr.tolist()}")
                if way != "step" and ([i for _, i in seen] != list(range(len(norms))) or not all(near(z, w, 1e-4) for (z, _), w in zip(seen, want))):
                    rec.bad(case, f"the callback saw iterations {[i for _, i in seen][:10]} of {len(norms)}, or other parameters than those of the run")
                rec.trace(case)
                rec.outcome(tuple(np.round(xr, 5)))


def wide(n):
    """A cost of n parameters that are coupled in pairs, its gradient and a start."""
    a = 0.2 + 0.35 * np.arange(n)

    def f(x):
        x = np.asarray(x)
        return float(np.sum(np.sin(x + a)) + 0.4 * np.sum(np.cos(x[:-1]) * np.sin(x[1:])))

    def g(x):
        out = np.cos(x + a)
        out[:-1] -= 0.4 * np.sin(x[:-1]) * np.sin(x[1:])
        out[1:] += 0.4 * np.cos(x[:-1]) * np.cos(x[1:])
        return out

    return f, g, 0.9 * np.cos(1.7 * np.arange(n)) + 0.1


def do_wide(rec, k, n):
    """More parameters and long runs; a second run continues from the first; a run of several calls is the same run."""
    kind, kw = CONFIGS[k]
    f, g, x0 = wide(n)
    for split in ((1,), (7,), (30,), (64,), (20, 20), (5, 0, 12), (1,) * 9):
        for way in ("optimize", "step", "norm"):
            case = {"optimiser": kind, "settings": kw, "parameters": n, "iterations": split, "through": way}
            rec.state((k, n, split, way))
            with rec.case(case):
                opt, model = make(kind, kw), Ref(kind, kw, n)
                x, xr = x0.copy(), x0.copy()
                for run in split:
                    seen, want, norms, got = [], [], [], []
                    call = lambda y, i: seen.append((np.array(y, copy=True), i))  # noqa: E731
                    if way == "norm":
                        mv = model.moments()
                        model.reset()
                    for i in range(run):
                        norms.append(np.linalg.norm(g(xr)))
                        xr = model.step(xr, i, g)
                        want.append(xr)
                    if way == "norm":
                        model.restore(mv)
                        x, got = quiet(opt.optimize_and_gradient_norm, f, x, num_iters=run, callback=call)
                        if not near(list(got), norms, 1e-5):
                            rec.bad(case, "wrong gradient norms")
                    elif way == "optimize":
                        x = quiet(opt.optimize, f, x, num_iters=run, callback=call)
                    else:
                        for i in range(run):
                            x = quiet(opt.step, f, x, i)
                            call(x, i)
                    rec.op(run)
                    if [i for _, i in seen] != list(range(run)) or not all(near(y, w, 1e-5) for (y, _), w in zip(seen, want)) or not near(x, xr, 1e-5):
                        first = next((i for (y, i), w in zip(seen, want) if not near(y, w, 1e-5)), None)
                        rec.bad(case, f"leaves the rule at iteration {first}: {np.asarray(x).tolist()}, should be {xr.tolist()}")
                        break
                rec.trace(case)
                rec.outcome(tuple(np.round(xr, 5)))


def do_rcdwide(rec, n, adaptive):
    f, g, x0 = wide(n)
    seqs = [tuple(range(n)), tuple(range(n))[::-1], tuple((3 * k) % n for k in range(3 * n)), (n - 1,) * 12, tuple((k * k) % n for k in range(24)), (0, n - 1) * 8]
    seqs += [(k,) for k in range(n)]
    for seq in seqs:
        for way in ("step", "optimize", "norm"):
            judge_rcd(rec, n, adaptive, seq, way, 0.35, f, lambda x, k: g(np.asarray(x))[k], x0)


def do_rcdsize(rec):
    """Coordinate descent: step-size updates, defaults, printing."""
    line = lambda x: float(3 * x[0])  # noqa: E731
    for ad, factors, verbose, through in itertools.product((False, True), ((), (None,), (0.5,), (0.5, None, 2.0)), (False, True), ("step", "optimize", "norm")):
        case = {"optimiser": "rcd", "adaptive": ad, "size updates": [str(f) for f in factors], "verbose": verbose, "through": through}
        rec.state(("rcdsize", str(case)))
        with rec.case(case):
            opt = quiet(RCD, adaptive=ad)
            size = 0.1
            for f in factors:
                quiet(opt.update_step_size, np.zeros(1), 0, **({} if f is None else {"factor": f}))
                size *= 0.99 if f is None else f
            n, kw, seen = 3, {"verbose": verbose} if verbose else {}, []
            kw["callback"] = lambda z, i: seen.append((float(z[0]), i))  # noqa: E731
            if through == "step":
                y = np.zeros(1)
                for i in range(n):
                    y = quiet(opt.step, line, y, i)
            elif through == "optimize":
                y = quiet(opt.optimize, line, np.zeros(1), num_iters=n, **kw)
            else:
                y, norms = quiet(opt.optimize_and_gradient_norm, line, np.zeros(1), num_iters=n, **kw)
                if not near(list(norms), [3.0] * n, 1e-4):
                    rec.bad(case, f"gradient norms {list(norms)}")
            rec.op(n)
            path = np.cumsum([-3 * size * (1 / np.sqrt(i + 1) if ad else 1) for i in range(n)])
            want = path[-1]
            if through != "step" and ([i for _, i in seen] != list(range(n)) or not near([z for z, _ in seen], path, 1e-4)):
                rec.bad(case, f"the callback saw {seen}, should be {path.tolist()}")
            if not near(y, [want], 1e-4):
                rec.bad(case, f"parameters {np.asarray(y).tolist()}, should be {want}")
            if not factors and not ad:
                y = quiet(opt.optimize, line, np.zeros(1))
                z, norms = quiet(opt.optimize_and_gradient_norm, line, np.zeros(1))
                if not near(y, [-30.0], 1e-3) or not near(z, [-30.0], 1e-3) or len(norms) != 100:
                    rec.bad(case, "a run without a number of iterations does not make 100 steps of 0.1")
            rec.trace(case)


def do_pairs(rec, k):
    """Two optimisers of the same kind, every interleaving of three steps each: no shared state."""
    kind, kw = CONFIGS[k]
    for pattern in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1)))):
        case = {"optimiser": kind, "settings": kw, "interleaving": pattern}
        rec.state((k, pattern))
        with rec.case(case):
            o, m = [make(kind, kw), make(kind, kw)], [Ref(kind, kw), Ref(kind, kw)]
            xs, rs, it = [np.array(X0), np.array(X0[::-1])], [np.array(X0), np.array(X0[::-1])], [0, 0]
            for w in pattern:
                xs[w] = quiet(o[w].step, f0, xs[w], it[w])
                rs[w] = m[w].step(rs[w], it[w])
                it[w] += 1
                rec.op()
            if not near(xs[0], rs[0]) or not near(xs[1], rs[1]):
                rec.bad(case, "two optimisers influence each other")
            rec.trace(case)


def judge_rcd(rec, n, adaptive, seq, way, size, f, df, x0):
    """One scripted run: (coordinates moved or None, one uniform choice of n per iteration?)."""
    length, moved, ok = len(seq), None, True
    case = {"optimiser": "rcd", "parameters": n, "adaptive": adaptive, "coordinates": seq, "through": way, "step_size": size}
    rec.state((n, adaptive, seq, way, size))
    with rec.case(case):
        opt = quiet(RCD, step_size=size, adaptive=adaptive)
        seen, got = [], None
        start = x0.copy()
        script = lib.Script(seq)
        with script.active():
            if way == "step":
                y = start
                for i in range(length):
                    y = quiet(opt.step, f, y, i)
                    seen.append((np.array(y, copy=True), i))
            elif way == "optimize":
                y = quiet(opt.optimize, f, start, num_iters=length, callback=lambda z, i: seen.append((np.array(z, copy=True), i)))
            else:
                y, got = quiet(opt.optimize_and_gradient_norm, f, start, num_iters=length, callback=lambda z, i: seen.append((np.array(z, copy=True), i)))
        rec.op(length)
        if [i for _, i in seen] != list(range(length)):
            rec.bad(case, f"{len(seen)} iterations instead of {length}")
            return None, True
        # whatever coordinate each iteration moved, it must be moved by the rule
        x, visits, norms, moved = x0.copy(), [0] * n, [], []
        for i, (z, _) in enumerate(seen):
            for k in range(n):
                s = size / np.sqrt((visits[k] + 1 if way == "norm" else i + 1)) if adaptive else size
                w = x.copy()
                w[k] -= s * df(x, k)
                if near(z, w, 1e-5):
                    break
            else:
                rec.bad(case, f"iteration {i} goes from {x.tolist()} to {z.tolist()}, which is no step along one coordinate")
                break
            visits[k] += 1
            moved.append(k)
            norms.append(abs(df(x, k)))
            x = w
        else:
            if not near(y, x, 1e-5):
                rec.bad(case, f"returns {np.asarray(y).tolist()}, the last iterate is {x.tolist()}")
            if got is not None and not near(list(got), norms, 1e-5):
                rec.bad(case, f"gradient norms {list(got)}, should be {norms}")
        ok = [len(w) for w, _ in script.log] == [n] * length
        if not np.array_equal(start, x0):
            rec.bad(case, "the caller's parameters were changed")
        rec.trace(case)
        rec.outcome(tuple(np.round(x, 5)))
    return None if moved is None else tuple(moved), ok


def do_rcd(rec, n, adaptive):
    a = np.array([0.7, -0.4, 1.3])[:n]

    def f(x):
        return float(sum(np.cos(t + s) for t, s in zip(x, a)) + 0.3 * np.prod(np.sin(np.asarray(x))))

    def df(x, k):
        return -np.sin(x[k] + a[k]) + 0.3 * np.cos(x[k]) * np.prod([np.sin(x[j]) for j in range(n) if j != k])

    x0 = np.array([0.2, 1.4, -0.9])[:n]
    reached, scripted = {}, True
    for length in range(0, 6 if n < 3 else 5):
        for seq in itertools.product(range(n), repeat=length):
            for way in ("step", "optimize", "norm"):
                for size in (0.1, 0.35):
                    moved, ok = judge_rcd(rec, n, adaptive, seq, way, size, f, df, x0)
                    scripted = scripted and ok
                    if moved is not None:
                        reached.setdefault((way, size, length), set()).add(moved)
    for (way, size, length), got in reached.items():
        # every sequence of coordinates occurs (judged only if the draws are one uniform choice per iteration)
        if scripted and len(got) != n**length:
            rec.bad({"optimiser": "rcd", "parameters": n, "adaptive": adaptive, "through": way, "step_size": size, "iterations": length}, f"{len(got)} of {n**length} coordinate sequences occur")
    if n > 1:
        case = {"optimiser": "rcd", "all draws": True, "parameters": n}
        with rec.case(case):
            hit, draws = set(), 0
            for script, y in lib.all_scripts(lambda s: quiet(RCD().step, f, x0.copy(), 0), tuple((k + 0.5) / 12 for k in range(12))):
                rec.op()
                draws += len(script.log)
                hit |= {k for k in range(n) if y[k] != x0[k]}
            if draws and hit != set(range(n)):
                rec.bad(case, f"only the coordinates {sorted(hit)} of {n} are ever drawn")


def do_descend(rec):
    """Every optimiser minimises a convex cost, with and without gradient norms, from lists and integer parameters too."""
    for name, make_, iters in (
        ("sgd", lambda: SGD(), 200), ("momentum", lambda: SGD(momentum=0.9), 300), ("nesterov", lambda: SGD(momentum=0.5, nesterov=True), 200), ("adam", lambda: AdamLike(), 400), ("rcd", lambda: RCD(step_size=0.2), 300),
    ):
        for start in (np.array([1.0, -1.0]), np.array([1, -1]), [1.0, -1.0], np.array([0.3])):
            case = {"optimiser": name, "start": str(start), "as": type(start).__name__}
            rec.state((name, str(start), type(start).__name__))
            with rec.case(case):
                keep = list(start)
                cost = lambda x: float(2 - sum(np.cos(t) for t in np.asarray(x)))  # noqa: E731
                x = quiet(make_().optimize, cost, start, num_iters=iters)
                y, norms = quiet(make_().optimize_and_gradient_norm, cost, start, num_iters=iters)
                rec.op(2)
                if not np.allclose(x, 0, atol=0.05) or not np.allclose(y, 0, atol=0.05) or len(norms) != iters or list(start) != keep:
                    rec.bad(case, f"does not reach the minimum: {np.asarray(x).tolist()} {np.asarray(y).tolist()}")
                rec.trace(case)


def AdamLike():
    return ADAM(step_size=0.05)
