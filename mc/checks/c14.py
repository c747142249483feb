"""C14  The templates build the circuits they are documented to build, for every size."""
import itertools

import networkx as nx

import mentpy as mp
from mc import lib, ref
from mc.core import quiet, raises

ID = "C14"
ASSUMPTIONS = [
    "the reference builds every template from its description (wires, grid, cylinder, triangles per column, SPT blocks); wires, grids and linear clusters are compared label by label, "
    "the composed templates up to renaming of the nodes, keeping the order of inputs and outputs and the kind of every measurement",
    "the set of trainable nodes of muta with restricted training is not judged (the option is documented as unfinished)",
]


SPT = [(5, 1, True), (6, 1, False), (4, 1, True), (4, 2, False), (5, 1, False), (4, 1, False)]
SPT_THOROUGH = [(6, 1, True), (4, 2, True), (5, 2, False), (7, 1, False)]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"linear_cluster n=2..{60 if t else 40}; many_wires: every list of 1..{4 if t else 3} wires of 2..{5 if t else 4} nodes, 5 and 6 wires of 2 or 3 nodes, and two wires of lengths from 2, 7, 11, 12; grid_cluster n=1..8, m=2..{16 if t else 12} with at most {80 if t else 56} nodes, open and periodic, and up to 16x2, 9x5, 2x30, 3x20; 7, 8, 12 and 20 wires of 2 nodes; "
            f"each with default, Pauli (up to 30 nodes) and per-node measurements; muta 1..{4 if t else 3} wires x 1..{3 if t else 2} layers, up to 8 wires x 1 layer (one column from 7 wires on), 6 x 2, 2 x 4, 3 x 3; x one_column x restrict_trainable; "
            "spturb (qubits, layers, periodic) in " + str(SPT + SPT_THOROUGH if t else SPT) + "; all listed invalid arguments")


def shards(tier):
    t = tier == "thorough"
    out = [("linear", n) for n in range(2, 61 if t else 41)]
    out += [("wires", k, 5 if t else 4) for k in range(1, 5 if t else 4)]
    out += [("wiresof", k, (2, 3)) for k in (5, 6)] + [("wiresof", 2, (2, 7, 11, 12))]
    out += [("grid", n, m, p) for n in range(1, 9) for m in range(2, 17 if t else 13) for p in (False, True) if n * m <= (80 if t else 56)]
    out += [("muta", w, l) for w in range(1, 5 if t else 4) for l in range(1, 4 if t else 3)]
    out += [("muta", w, 1) for w in range(5 if t else 4, 9)] + [("muta", w, 2) for w in range(4, 7)] + [("muta", 2, 4), ("muta", 3, 3)]
    out += [("wiresof", k, (2,)) for k in (7, 8, 12, 20)] + [("wiresof", 8, (2, 3))][: 1 if t else 0]
    out += [("grid", n, m, p) for n, m in ((10, 3), (12, 2), (16, 2), (9, 5), (2, 30), (3, 20)) for p in (False, True)]
    return [("spturb",) + x for x in (SPT + SPT_THOROUGH if t else SPT)] + out + [("invalid",)]


# ------------------------------------------------------------------ labelled templates


def wires(ws):
    """edges, inputs, outputs of separate wires numbered one after the other."""
    edges, i, o, at = [], [], [], 0
    for w in ws:
        edges += [(at + k, at + k + 1) for k in range(w - 1)]
        i.append(at)
        o.append(at + w - 1)
        at += w
    return at, edges, i, o


def grid(n, m, periodic):
    N, edges, i, o = wires([m] * n)
    edges += [(r * m + c, (r + 1) * m + c) for r in range(n - 1) for c in range(m)]
    if periodic and n > 2:
        edges += [(c, (n - 1) * m + c) for c in range(m)]
    return N, edges, i, o


def labelled(rec, name, make, n, edges, i, o, succ):
    """Default measurements, Pauli default, one measurement given, on the same graph."""
    inner = [v for v in range(n) if v not in o]
    variants = [({}, {v: "XY" for v in inner}),
                ({"default_measurement": "X"}, {v: "X" for v in inner}),
                ({"measurements": {inner[0]: ("XY", 0.3), inner[-1]: "Y"}}, {**{v: "XY" for v in inner}, inner[0]: ("XY", 0.3), inner[-1]: "Y"}),
                ({"measurements": {o[-1]: "X"}, "default_measurement": "Y"}, {**{v: "Y" for v in inner}, o[-1]: "X"})]
    for k, (kw, ments) in enumerate(variants):
        if n > 30 and k in (1, 3):
            continue
        case = {"template": name, "variant": k}
        rec.state((repr(name), k))
        with rec.case(case):
            real = {a: (lib.raw_ment(b) if isinstance(b, str) else {v: lib.raw_ment(x) for v, x in b.items()}) for a, b in kw.items()}
            c = quiet(make, **real)
            rec.op(len(c.graph))
            want = lib.model_view(n, edges, i, o, {v: ments.get(v) for v in range(n)})
            err = lib.diff(lib.view_of(c), want)
            if not err and list(c.trainable_nodes) != [v for v in c.measurements if lib.trainable_kind(ments.get(v))]:
                err = f"trainable nodes {c.trainable_nodes} are not in the order of the measurements"
            if not err:
                if c.flow is None:
                    err = "the template has no flow"
                elif any(c.flow(v) != succ[v] for v in inner):
                    err = "the flow does not run along the wires"
                else:
                    err = lib.order_errors(c)
            if err:
                rec.bad(case, err)
            rec.trace(case)
            rec.outcome((name[0], k))


# ------------------------------------------------------------------ composed templates (reference composition on plain dictionaries)


class Ref:
    """A circuit as plain data: kind of every node, edges, inputs, outputs."""

    def __init__(self, kinds, edges, i, o):
        self.kinds, self.edges, self.i, self.o = dict(kinds), {frozenset(e) for e in edges}, list(i), list(o)

    def join(self, other, along):
        """Identify outputs of self with inputs of other; the kind of the joined node is that of `other`."""
        off = max(self.kinds) + 1
        name = {v: v + off for v in other.kinds}
        back = {}
        for a, b in along:
            name[b] = a
            back[b] = a
        kinds = dict(self.kinds)
        for v, k in other.kinds.items():
            kinds[name[v]] = k
        edges = set(self.edges) | {frozenset(name[v] for v in e) for e in other.edges}
        pos = {a: other.i.index(b) for a, b in along}
        o = [name[other.o[pos[v]]] if v in pos else v for v in self.o]
        o += [name[w] for k, w in enumerate(other.o) if k not in pos.values()]
        i = self.i + [name[v] for v in other.i if v not in back]
        return Ref(kinds, edges, i, o)

    def hjoin(self, other):
        return self.join(other, list(zip(self.o, other.i)))

    def graph(self):
        g = nx.Graph()
        for v, k in self.kinds.items():
            g.add_node(v, tag=(k, self.i.index(v) if v in self.i else -1, self.o.index(v) if v in self.o else -1))
        g.add_edges_from(tuple(e) for e in self.edges)
        return g


def real_graph(c):
    g = nx.Graph()
    i, o = list(c.input_nodes), list(c.output_nodes)
    for v in c.graph.nodes:
        g.add_node(v, tag=(lib.spec_of(c[v]), i.index(v) if v in i else -1, o.index(v) if v in o else -1))
    g.add_edges_from(c.graph.edges)
    return g


def same(c, want):
    a, b = real_graph(c), want.graph()
    if len(a) != len(b) or a.number_of_edges() != b.number_of_edges():
        return f"{len(a)} nodes and {a.number_of_edges()} edges instead of {len(b)} and {b.number_of_edges()}"
    # colour refinement first, so that the matching is (nearly) forced
    col = {}
    for g in (a, b):
        lab = {v: repr(g.nodes[v]["tag"]) for v in g}
        for _ in range(8):
            lab = {v: lab_id((lab[v], tuple(sorted(lab[w] for w in g[v]))), col) for v in g}
        nx.set_node_attributes(g, lab, "col")
    if not nx.is_isomorphic(a, b, node_match=lambda x, y: x["col"] == y["col"] and x["tag"] == y["tag"]):
        return "the circuit is not the documented one (graph, roles or measurements differ)"
    return None


def lab_id(key, table):
    return f"c{table.setdefault(key, len(table)):06d}"


def muta_ref(w, layers, one_column):
    def column(wire):
        n, edges, i, o = wires([5] * w)
        edges = edges + [(5 * wire + 1, 5 * k + d) for k in range(w) if k != wire for d in (0, 2)]
        return Ref({v: None if v in o else ("M", "XY", None) for v in range(n)}, edges, i, o)

    big = None
    for _ in range(layers):
        for wire in range(1 if one_column else w):
            big = column(wire) if big is None else big.hjoin(column(wire))
    return big


def spturb_ref(nq, layers, periodic):
    tr, x, y = ("M", "XY", None), ("M", "X", 0), ("M", "Y", 0)

    def start():
        n, edges, i, o = wires([3] * nq)
        return Ref({v: None if v in o else (tr if v % 3 == 1 else x) for v in range(n)}, edges, i, o)

    def block(second):
        n, edges, _, _ = wires([5, 2, 5])
        kinds = {v: x for v in range(n)}
        kinds.update({5: tr, 4: None, 11: None})
        if second:
            kinds.update({v: y for v in (1, 3, 8, 10)})
        return Ref(kinds, edges + [(2, 6), (9, 6)], [0, 7], [4, 11])

    c = None
    for _ in range(layers):
        c = start() if c is None else c.hjoin(start())
        for second in (False, True):
            for k in range(nq if periodic else nq - 2):
                c = c.join(block(second), [(c.o[k], 0), (c.o[(k + 2) % nq], 7)])
    return c


def composed(rec, name, make, want, flow):
    case = {"template": name}
    rec.state(repr(name))
    with rec.case(case, limit=400):
        c = quiet(make)
        rec.op(len(c.graph))
        err = same(c, want)
        if not err and flow and c.flow is None:
            err = "the template has no flow"
        if not err and not flow:
            rec.note("without_flow", c.flow is None)
        if err:
            rec.bad(case, err)
        rec.outcome(repr(name))
        rec.trace(case)


def explore(shard, rec):
    T = mp.templates
    kind = shard[0]
    if kind == "linear":
        n = shard[1]
        N, edges, i, o = wires([n])
        labelled(rec, ("linear_cluster", n), lambda **k: T.linear_cluster(n, **k), N, edges, i, o, {v: v + 1 for v in range(n - 1)})
    elif kind in ("wires", "wiresof"):
        for ws in itertools.product(range(2, shard[2] + 1) if kind == "wires" else shard[2], repeat=shard[1]):
            N, edges, i, o = wires(ws)
            labelled(rec, ("many_wires", ws), lambda **k: T.many_wires(list(ws), **k), N, edges, i, o, {v: v + 1 for v in range(N) if v not in o})
    elif kind == "grid":
        _, n, m, p = shard
        N, edges, i, o = grid(n, m, p)
        labelled(rec, ("grid_cluster", n, m, p), lambda **k: T.grid_cluster(n, m, periodic=p, **k), N, edges, i, o, {v: v + 1 for v in range(N) if v not in o})
    elif kind == "muta":
        _, w, l = shard
        for one, restrict in itertools.product((False, True), repeat=2):
            if w > 6 and not one:
                continue
            kw = {"one_column": one, "restrict_trainable": restrict}
            composed(rec, ("muta", w, l, one, restrict), lambda: T.muta(w, l, **kw), muta_ref(w, l, one), True)
            if not one and restrict:
                composed(rec, ("muta", w, l), lambda: T.muta(w, l), muta_ref(w, l, one), True)
            if not restrict:
                case = {"template": ("muta", w, l, one), "check": "trainable"}
                with rec.case(case):
                    c = quiet(T.muta, w, l, **kw)
                    rec.op()
                    if sorted(c.trainable_nodes) != sorted(c.outputc):
                        rec.bad(case, "without restriction every measured node is trainable")
    elif kind == "spturb":
        _, n, l, p = shard
        composed(rec, ("spturb", n, l, p), lambda: T.spturb(n, l, periodic=p), spturb_ref(n, l, p), False)
        if not p:
            composed(rec, ("spturb", n, l), lambda: T.spturb(n, l), spturb_ref(n, l, p), False)
    else:
        P = mp.PauliOp
        calls = [("many_wires", [1]), ("many_wires", [0]), ("many_wires", [3, 1]), ("many_wires", [2, -1]), ("many_wires", [2.5]), ("many_wires", ["3"]), ("many_wires", [3, None])]
        for name, arg in calls:
            refuse(rec, (name, arg), lambda: getattr(T, name)(arg))
        for n in (-1, 0, 1, 2, 3):
            refuse(rec, ("spturb", n), lambda: T.spturb(n, 1))
        for txt in ("X;Z", "XX;ZZ;YY"):
            refuse(rec, ("from_pauli", txt), lambda: T.from_pauli(P(txt)))


def refuse(rec, name, fn):
    case = {"template": name, "expect": "ValueError"}
    rec.state(("invalid", repr(name)))
    with rec.case(case):
        bad, e = raises(fn)
        rec.op()
        rec.note("refused")
        if not bad:
            rec.bad(case, "an invalid argument is accepted")
        elif not isinstance(e, ValueError):
            rec.bad(case, f"refused with {type(e).__name__} instead of ValueError")
