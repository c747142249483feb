"""Helpers that drive the real mentpy API (public names only)."""
import contextlib
import itertools

import networkx as nx
import numpy as np

import mentpy as mp
from mc import ref
from mc.core import HarnessError, quiet


# edge attributes say nothing about the graph state: every edge is one controlled Z
WEIGHTS = {"": [], "half": [0.5], "zero": [0], "two": [2], "mixed": [0.5, 2, -1, 0, 1.0]}


def gstate(n, edges, nodes=None, names=None, weights=""):
    names = names or list(range(n))
    g = mp.GraphState()
    g.add_nodes_from(names[v] for v in (nodes or range(n)))
    ws = WEIGHTS[weights]
    g.add_edges_from((names[u], names[v], {"weight": ws[k % len(ws)], "color": "red"} if ws else {}) for k, (u, v) in enumerate(edges))
    return g


def circuit(n, edges, i, o, nodes=None, **kw):
    return quiet(mp.MBQCircuit, gstate(n, edges, nodes), input_nodes=list(i), output_nodes=list(o), **kw)


def sim(circ, backend, input_state=None, **kw):
    return quiet(mp.PatternSimulator, circ, input_state, backend=backend, **kw)


BACKENDS = ("pennylane", "numpy-dm", "numpy-sv")


def run(circ, backend, angles, input_state=None, **kw):
    """Density matrix from a fresh simulator."""
    s = sim(circ, backend, input_state, **kw)
    return np.asarray(quiet(s.run, list(angles))), s


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.allclose(a, b, rtol=0, atol=tol))


def ref_dm(n, edges, i, o, ments, psi, outcomes=None):
    m = ref.branch_map(n, edges, i, o, ments, outcomes)
    return ref.normalised_dm(m, psi)


def linear_extensions(nodes, before):
    """All total orders of `nodes` compatible with before(u, v)."""
    nodes = list(nodes)

    def rec(rest):
        if not rest:
            yield []
            return
        for x in rest:
            if not any(before(y, x) for y in rest if y != x):
                for tail in rec([y for y in rest if y != x]):
                    yield [x] + tail

    yield from rec(nodes)


def closure(nodes, pairs):
    """Transitive closure as a set of pairs."""
    succ = {v: set() for v in nodes}
    for u, v in pairs:
        succ[u].add(v)
    changed = True
    while changed:
        changed = False
        for u in nodes:
            new = set().union(*[succ[v] for v in succ[u]]) - succ[u] if succ[u] else set()
            if new:
                succ[u] |= new
                changed = True
    return {(u, v) for u in nodes for v in succ[u]}


def spec_of(m):
    """Observable content of a measurement: None or a hashable description."""
    if m is None:
        return None
    if isinstance(m, mp.ControlMent):
        c = m.condition
        nodes = getattr(c, "cond_nodes", None)
        return ("C", m.plane(), m.angle(), tuple(sorted(nodes)) if nodes is not None else None, m.is_trainable(), truth_table(c, nodes))
    return ("M", m.plane, m.angle)


def truth_table(condition, nodes):
    """Value of a condition for every assignment of the outcomes it depends on."""
    if nodes is None or len(nodes) > 4:
        return None
    nodes = sorted(nodes)
    return tuple(bool(condition(dict(zip(nodes, bits)))) for bits in itertools.product((0, 1), repeat=len(nodes)))


def outcome_of(m):
    """The outcome of a measured node, as used in conditions: the nodes it depends on and its values."""
    if m is None:
        return None
    o = m.outcome
    return tuple(sorted(o.cond_nodes)), truth_table(o, o.cond_nodes)


def view_of(c):
    """Everything a user can observe about a circuit without running it."""
    nodes = sorted(c.graph.nodes)
    po = c.partial_order
    return {
        "nodes": nodes,
        "edges": sorted(tuple(sorted(e)) for e in c.graph.edges),
        "in": list(c.input_nodes),
        "out": list(c.output_nodes),
        "outputc": sorted(c.outputc),
        "inputc": sorted(c.inputc),
        "ments": {v: spec_of(c[v]) for v in nodes},
        "mkeys": sorted(c.measurements),
        "outcomes": {v: outcome_of(c[v]) for v in nodes},
        "trainable": sorted(c.trainable_nodes),
        "controlled": sorted(c.controlled_nodes),
        "planes": {v: c.planes[v] for v in nodes},
        "qout": list(c.quantum_output_nodes),
        "cout": sorted(c.classical_output_nodes),
        "flow": None if c.flow is None else {v: c.flow(v) for v in nodes if v not in c.output_nodes},
        "order": None if po is None else sorted((u, v) for u in nodes for v in nodes if po(u, v)),
        "depth": c.depth,
        "layers": None if c.ordered_layers() is None else [sorted(x) for x in c.ordered_layers()],
        "len": len(c),
    }


class Script:
    """Scripted randomness: replaces the global random sources by a deterministic choice sequence.

    Exploring all scripts enumerates all outcome branches. `log` records (weights, chosen index).
    """

    def __init__(self, choices=(), strata=(1e-7, 1 - 1e-7)):
        self.choices = list(choices)
        self.strata = strata
        self.pos = 0
        self.log = []
        self.kind_weighted = True  # every draw so far came with explicit weights
        self._real = None

    def real_rng(self):
        if self._real is None:
            self._real = _DEFAULT_RNG(1234)
        return self._real

    def pick(self, weights):
        weights = np.asarray(weights, dtype=float)
        k = self.choices[self.pos] if self.pos < len(self.choices) else 0
        k = min(k, len(weights) - 1)
        if weights[k] <= 1e-9:  # impossible branches are not explored
            k = int(np.argmax(weights))
        self.pos += 1
        self.log.append((tuple(weights / weights.sum()), k))
        return k

    def _shaped(self, size, draw):
        """draw() once for every element of an array of the given shape (C order)."""
        if size is None:
            return draw()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        return np.array([draw() for _ in range(int(np.prod(shape)))]).reshape(shape)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        self.kind_weighted = self.kind_weighted and p is not None
        w = np.asarray(p if p is not None else [1.0] * len(items), dtype=float).copy()

        def draw():
            k = self.pick(w)
            if not replace:
                w[k] = 0.0
            return items[k]

        return self._shaped(size, draw)

    def u01(self, size=None):
        """A uniform draw: one branch per stratum (default: the two extreme ends)."""
        self.kind_weighted = False
        return self._shaped(size, lambda: self.strata[self.pick([1.0] * len(self.strata))])

    def rand(self, *shape):
        return self.u01(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.u01(size)

    def binomial(self, n, p, size=None):
        return self._shaped(size, lambda: sum(self.pick([1 - p, p]) for _ in range(n)))

    def integers(self, low, high=None, size=None, endpoint=False, **kw):
        if high is None:
            low, high = 0, low
        if high - low > 4096:  # seeds and the like: no branches
            return self.real_rng().integers(low, high, size)
        return self._shaped(size, lambda: low + self.pick([1] * (high - low + bool(endpoint))))

    def np_randint(self, low, high=None, size=None, **kw):
        return self.integers(low, high, size)

    def py_randint(self, lo, hi):
        return lo + self.pick([1] * (hi - lo + 1))

    def py_choice(self, seq):
        return seq[self.pick([1] * len(seq))]

    def py_choices(self, seq, weights=None, k=1, **kw):
        return [seq[self.pick(weights if weights is not None else [1] * len(seq))] for _ in range(k)]

    def py_sample(self, seq, k, **kw):
        items = list(seq)
        return [items.pop(self.pick([1] * len(items))) for _ in range(k)]

    def py_randrange(self, lo, hi=None):
        if hi is None:
            lo, hi = 0, lo
        return lo + self.pick([1] * (hi - lo))

    def permutation(self, x):
        items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        out = []
        while items:
            out.append(items.pop(self.pick([1] * len(items))))
        return np.array(out, dtype=int if not out else None)

    def shuffle(self, x):
        perm = self.permutation(len(x))
        vals = [x[i] for i in perm]
        for i, v in enumerate(vals):
            x[i] = v

    @contextlib.contextmanager
    def active(self):
        import random

        saved = []

        def put(mod, name, fn):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)

        put(np.random, "choice", self.choice)
        for name in ("random", "random_sample", "ranf", "sample"):
            put(np.random, name, self.u01)
        put(np.random, "rand", self.rand)
        put(np.random, "uniform", self.uniform)
        put(np.random, "binomial", self.binomial)
        put(np.random, "randint", self.np_randint)
        put(np.random, "default_rng", lambda *a, **k: ScriptedRng(self))
        put(np.random, "RandomState", lambda *a, **k: ScriptedRng(self))
        put(np.random, "permutation", self.permutation)
        put(np.random, "shuffle", self.shuffle)
        put(random, "randint", self.py_randint)
        put(random, "choice", self.py_choice)
        put(random, "randrange", self.py_randrange)
        put(random, "random", self.u01)
        put(random, "uniform", self.uniform)
        put(random, "shuffle", self.shuffle)
        put(random, "choices", self.py_choices)
        put(random, "sample", self.py_sample)
        try:
            yield self
        finally:
            for mod, name, fn in saved:
                setattr(mod, name, fn)


_DEFAULT_RNG = np.random.default_rng


class ScriptedRng:
    """What np.random.default_rng() / RandomState() return while a script is active.
    Continuous draws that have no branches (normal, ...) come from a real generator with a fixed seed."""

    def __init__(self, script):
        self._real = script.real_rng()
        for name in ("choice", "rand", "uniform", "binomial", "integers", "permutation", "shuffle"):
            setattr(self, name, getattr(script, name))
        self.random = self.random_sample = script.u01
        self.randint = script.np_randint
        self.shuffle = script.shuffle

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], {"randn": "standard_normal"}.get(name, name))


def all_scripts(body, strata=(1e-7, 1 - 1e-7)):
    """Run body(script) for every branch of the scripted choices (depth-first, exhaustive).

    body is executed from scratch for every branch; yields (script, result)."""
    prefix = []
    while True:
        s = Script(prefix, strata)
        with s.active():
            res = body(s)
        yield s, res
        # next branch: bump the last position that has an unexplored possible alternative
        taken = [k for _, k in s.log]
        pos = len(taken) - 1
        while pos >= 0:
            w = s.log[pos][0]
            nxt = next((k for k in range(taken[pos] + 1, len(w)) if w[k] > 1e-9), None)
            if nxt is not None:
                prefix = taken[:pos] + [nxt]
                break
            pos -= 1
        if pos < 0:
            return


def raw_ment(kind):
    """kind: None | 'XY' | ('XY', angle) | 'X' ... -> a fresh Ment object (or None)."""
    if kind is None:
        return None
    if isinstance(kind, str):
        return mp.Ment(kind)
    return mp.Ment(kind[1], kind[0])


def kind_spec(kind):
    """What spec_of must report for raw_ment(kind)."""
    if kind is None:
        return None
    if isinstance(kind, str):
        return ("M", kind, 0 if kind in ("X", "Y", "Z") else None)
    return ("M", kind[0], kind[1])


def trainable_kind(kind):
    return isinstance(kind, str) and kind not in ("X", "Y", "Z")


def model_view(n, edges, i, o, ments, trainable=None):
    """What view_of must report (without flow, order, depth, layers) for a circuit in this bookkeeping state.
    ments: node -> kind for every node."""
    tr = [v for v in range(n) if trainable_kind(ments[v])] if trainable is None else trainable
    return {
        "nodes": list(range(n)),
        "edges": sorted(tuple(sorted(e)) for e in edges),
        "in": list(i),
        "out": list(o),
        "outputc": [v for v in range(n) if v not in o],
        "inputc": [v for v in range(n) if v not in i],
        "ments": {v: kind_spec(ments[v]) for v in range(n)},
        "mkeys": list(range(n)),
        "trainable": sorted(tr),
        "controlled": [],
        "planes": {v: "" if ments[v] is None else (ments[v] if isinstance(ments[v], str) else ments[v][0]) for v in range(n)},
        "qout": [v for v in o if ments[v] is None],
        "cout": sorted(v for v in o if ments[v] is not None),
        "len": n,
    }


def diff(got, want):
    """First difference between the model's view and the real one (keys of `want` only)."""
    for k, w in want.items():
        if got[k] != w:
            return f"{k} is {got[k]!r}, expected {w!r}"
    return None


def order_errors(c):
    """Is the measurement order a permutation that respects the partial order?"""
    mo, po = c.measurement_order, c.partial_order
    nodes = list(c.graph.nodes)
    if po is None:
        return None
    if mo is None:
        return "there is a flow but no measurement order"
    if sorted(mo) != sorted(nodes):
        return f"measurement order {mo} is not a permutation of the nodes"
    for a in range(len(mo)):
        for b in range(a + 1, len(mo)):
            if po(mo[b], mo[a]):
                return f"measurement order {mo} has {mo[a]} before {mo[b]}, the partial order demands the opposite"
    return None


def flow_relation(n, edges, flow, outputs):
    """Pairs (u, w): w has to come after u for this successor function."""
    a = ref.adj(n, edges)
    out = set()
    for u in range(n):
        if u in outputs:
            continue
        f = flow(u)
        out.add((u, f))
        out |= {(u, w) for w in a[f] if w != u}
    return out
