"""C05  After any sequence of edits a circuit is indistinguishable from one built that way from the start."""
import itertools

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C05"
ASSUMPTIONS = ["a hand-set list of trainable nodes lasts until the next change of a measurement or of the graph (which recomputes it)",
               "no state is merged: every operation sequence is replayed from its beginning on a fresh circuit"]

BASES = {
    "wire3": (3, ((0, 1), (1, 2)), (0,), (2,)),
    "wires2x2": (4, ((0, 1), (2, 3)), (0, 2), (1, 3)),
    "io": (3, ((0, 1),), (0, 2), (2, 1)),
    "grid": (4, ((0, 1), (2, 3), (0, 2)), (2, 0), (1, 3)),
}


BASES["defX"] = BASES["wire3"]
BASES["defXY"] = BASES["grid"]
# circuits that were given a default measurement of their own
DEFAULTS = {"defX": "X", "defXY": ("XY", 0.4)}
# larger circuits: only the reduced alphabet, and one operation less
LARGE = {"wires5x2": big.wires([2] * 5), "grid3x3": big.grid(3, 3), "hub": big.hub(4, 2, 0, (1, 2, 3)), "wire11": big.wires([11])}
DEEP = ("wire3", "grid", "defX")


def start(name):
    return lib.circuit(*{**BASES, **LARGE}[name], **({"default_measurement": lib.raw_ment(DEFAULTS[name])} if name in DEFAULTS else {}))


def ops_for(n, edges, i, o, rich):
    """The alphabet: (name, args). Simplest first."""
    kinds = ["X", ("XY", 0.3)] + (["XY", "Y", "Z"] if rich else ["XY"])
    out = [("set", v, k) for k in kinds for v in range(n)]
    out += [("del", v) for v in range(n)]
    out += [("bulk", ((v, "Y"),)) for v in range(0, n, 2)]
    out += [("bulk", ()), ("bulk", tuple((v, None) for v in range(n))),
            ("bulk", tuple((v, "X" if v % 2 else ("XY", 0.2)) for v in range(n - 1, -1, -1)))]
    out += [("train", ()), ("train", (n - 1 - (n - 1 in o),)), ("train", tuple(v for v in range(n) if v not in o)[::-1])]
    new = [(u, v) for u in range(n) for v in range(u + 1, n) if (u, v) not in edges]
    out += [("edge", e) for e in (new if rich else new[:2])]
    out += [("edges", tuple(new)), ("edges", ()), ("edge", edges[0][::-1])]
    out += [("order", p) for p in ([tuple(range(n)), tuple(range(n))[::-1]])]
    out += [("badset", n + 4, "X"), ("badval", 0), ("baddel", n + 4), ("badbulk", 0), ("badbulk", 1), ("badtrain", 0)]
    return out


def BOUNDS(tier):
    return ("6 base circuits (wire, two wires, input=output wire, 2x2 grid with input order swapped, wire and grid with a fixed default measurement of their own); alphabet of ~30 operations "
            "(set / delete / bulk-assign measurements of five kinds, set trainable nodes, add one or many edges incl. existing ones, assign orders, six kinds of "
            f"rejected operation); every sequence of length <= {3 if tier == 'thorough' else 2} over the rich alphabet and of length "
            f"<= {4 if tier == 'thorough' else 3} over the reduced alphabet, of length <= 2 on four circuits with 8 to 11 nodes, no merging")


def shards(tier):
    out = []
    for b in [x for x in BASES if x not in LARGE]:
        for rich, depth in ((True, 3 if tier == "thorough" else 2), (False, 4 if tier == "thorough" else 3)):
            if tier == "thorough" and not rich and b not in DEEP:
                depth = 3
            out += [(b, rich, depth, k, len(ops_for(*BASES[b], rich))) for k in range(len(ops_for(*BASES[b], rich)))]
    for b, x in LARGE.items():
        m = len(ops_for(*x, False))
        out += [(b, False, 3 if tier == "thorough" and b == "grid3x3" else 2, k, m) for k in range(m)]
    return out


class Model:
    """Plain bookkeeping."""

    def __init__(self, n, edges, i, o, default="XY"):
        self.n, self.i, self.o, self.dflt = n, i, o, default
        self.edges = {tuple(sorted(e)) for e in edges}
        self.m = {v: self.default(v) for v in range(n)}
        self.train = None
        self.order = None

    def key(self):
        return (tuple(sorted(self.edges)), tuple(sorted(self.m.items())), self.train, self.order)

    def default(self, v):
        return None if v in self.o else self.dflt


def apply(c, model, op):
    """Apply op to the real circuit and the model. Returns an error or None."""
    what = op[0]
    n = model.n
    if what == "set":
        quiet(c.__setitem__, op[1], lib.raw_ment(op[2]))
        model.m[op[1]] = op[2]
        model.train = None
    elif what == "del":
        quiet(c.__delitem__, op[1])
        model.m[op[1]] = None
        model.train = None
    elif what == "bulk":
        quiet(setattr, c, "measurements", {v: lib.raw_ment(k) for v, k in op[1]})
        d = dict(op[1])
        model.m = {v: d[v] if v in d else model.default(v) for v in range(n)}
        model.train = None
    elif what == "train":
        quiet(setattr, c, "trainable_nodes", list(op[1]))
        model.train = tuple(op[1])
    elif what == "edge":
        quiet(c.add_edge, *op[1])
        model.edges = model.edges | {tuple(sorted(op[1]))}
        model.train = model.order = None
    elif what == "edges":
        quiet(c.add_edges_from, list(op[1]))
        model.edges = model.edges | {tuple(sorted(e)) for e in op[1]}
        model.train = model.order = None
    elif what == "order":
        if c.partial_order is None:
            return None
        ok = not any(c.partial_order(b, a) for a, b in itertools.combinations(op[1], 2))
        bad, e = raises(setattr, c, "measurement_order", list(op[1]))
        if bad == ok:
            return f"order {op[1]} {'rejected' if bad else 'accepted'}"
        if ok:
            model.order = tuple(op[1])
    else:
        bad, e = {
            "badset": lambda: raises(c.__setitem__, op[1], mp.Ment("X")),
            "badval": lambda: raises(c.__setitem__, 0, "X"),
            "baddel": lambda: raises(c.__delitem__, op[1]),
            "badbulk": lambda: raises(setattr, c, "measurements", [{n + 3: mp.Ment("X")}, {0: mp.Ment("X"), 1: "X"}][op[1]]),
            "badtrain": lambda: raises(setattr, c, "trainable_nodes", [0, n + 3]),
        }[what]()
        if not bad:
            return f"invalid operation {op} was accepted"
        if not isinstance(e, ValueError):
            return f"invalid operation {op} raised {type(e).__name__} instead of ValueError"
    return None


def judge(c, model, base):
    want = lib.model_view(model.n, model.edges, base[2], base[3], model.m, model.train)
    fresh = lib.circuit(model.n, sorted(model.edges), base[2], base[3], measurements={v: lib.raw_ment(k) for v, k in model.m.items()})
    got, ref_view = lib.view_of(c), lib.view_of(fresh)
    err = lib.diff(got, want)
    if err:
        return err
    for k in ("flow", "order", "depth", "layers"):
        if got[k] != ref_view[k]:
            return f"{k} is {got[k]}, a freshly built circuit has {ref_view[k]}"
    err = lib.order_errors(c)
    if err:
        return err
    if model.order is not None and c.measurement_order is not None and tuple(c.measurement_order) != model.order:
        return f"the assigned order {model.order} was replaced by {c.measurement_order}"
    if model.train is None:
        lay = c.ordered_layers(train_indices=True)
        tr = list(c.trainable_nodes)
        full = c.ordered_layers()
        if (lay is None) != (full is None):
            return "layers of trainable indices and layers disagree"
        if lay is not None:
            want_l = [sorted(tr.index(v) for v in x if v in tr) for x in full[:-1]]
            if [sorted(x) for x in lay] != want_l:
                return f"trainable layers {lay}, expected {want_l}"
    if list(fresh.measurement_order or []) and sorted(fresh.measurement_order) != sorted(c.measurement_order):
        return "measurement order lost nodes"
    return None


def explore(shard, rec):
    name, rich, depth, k, m = shard
    base = BASES[name] if name in BASES else LARGE[name]
    alphabet = ops_for(*base, rich)

    def history(hist):
        case = {"base": name, "ops": hist}
        with rec.case(case):
            c = start(name)
            model = Model(*base, default=DEFAULTS.get(name, "XY"))
            for op in hist:
                err = apply(c, model, op)
                rec.op()
                if err:
                    rec.bad(case, err)
                    return
            err = judge(c, model, base)
            rec.state((name, model.key()))
            rec.outcome((c.flow is not None, len(c.trainable_nodes)))
            if err:
                rec.bad(case, err)
            rec.trace(case if len(hist) == depth else None)

    def rec_hist(hist):
        history(hist)
        if len(hist) < depth:
            for op in alphabet:
                rec_hist(hist + (op,))

    if k == 0:
        history(())
    rec_hist((alphabet[k],))
