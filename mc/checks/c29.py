"""C29  A drawing shows the circuit as it is, and drawing never changes it."""
import itertools

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import rgb2hex
import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C29"
ASSUMPTIONS = [
    "what is drawn is read back from the matplotlib figure: node positions and colours, edge segments, number of flow arrows, label texts; coordinates and colours themselves are free, except that each wire runs from left to right on its own row and each role has one colour",
    "nodes are identified by the drawing that labels them with their indices",
]
LABELS = ("index", "indices", "plane", "planes", "arrow", "arrows", "angle", "angles")
ARROWS = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$", "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$", "XYZ": r"$\nwarrow \nearrow$", "": ""}
KINDS = ["XY", ("XY", 0.12345), "X", "YZ", "Z", "XZ", "Y", ("XZ", -1.5), "XYZ"]


def BOUNDS(tier):
    t = tier == "thorough"
    return (f"every open graph class with causal flow n<=3 and {'n=4' if t else 'connected n=4'} x 3 assignments of measurements (outputs measured or not), each with another node insertion order x {len(LABELS)} labels, 3 styles, flow shown or not, given wires, controls, Pauli labels; "
            "circuits without flow n<=3; graph states n<=4; templates; eight larger circuits (up to 8 wires, wires of up to 14 nodes, 18 nodes) x 3 assignments x 3 orders of given wires; two-angle measurements, wires with gaps, figure size and transparency; every ordered pair of drawings with different options (the second one looks as asked for, and as it does after any other); all listed invalid options")


def shards(tier):
    out = [("flow", n, k, m) for n, m in ((2, 1), (3, 4), (4, 32)) for k in range(m)]
    return out + [("noflow", n) for n in (2, 3)] + [("state", n) for n in (1, 2, 3, 4)] + [("control", k) for k in range(4)] + [("templates", k) for k in range(5)] + [("larger", k) for k in range(8)] + [("invalid",), ("empty",), ("options",)] + [("session", k) for k in range(len(ASKED))]


def explore(shard, rec):
    globals()["do_" + shard[0]](rec, *shard[1:])


def key(p):
    return tuple(round(float(x), 3) for x in p)


def read(fig, ax):
    """What the figure shows."""
    nodes, colors = {}, {}
    for coll in ax.collections:
        if isinstance(coll, PathCollection):
            offs = np.asarray(coll.get_offsets())
            fc = coll.get_facecolor()
            for k, p in enumerate(offs):
                nodes[key(p)] = nodes.get(key(p), 0) + 1
                colors.setdefault(key(p), set()).add(rgb2hex(fc[k if len(fc) == len(offs) else 0]))
    segs = set()
    dashed = set()
    for coll in ax.collections:
        if isinstance(coll, LineCollection):
            ls = coll.get_linestyle()
            for s in coll.get_segments():
                (dashed if ls and ls[0][1] is not None else segs).add(frozenset((key(s[0]), key(s[-1]))))
    texts = {}
    for t in ax.texts:
        texts.setdefault(key(t.get_position()), set()).add(t.get_text())
    return {"nodes": nodes, "colors": colors, "edges": segs, "dashed": dashed, "texts": texts, "arrows": len(ax.patches)}


def drawing(state, **kw):
    np.random.seed(7)  # free nodes are placed by a random layout
    fig, ax = quiet(mp.draw, state, **kw)
    try:
        return read(fig, ax)
    finally:
        plt.close(fig)


def labels_of(c, kinds, label, controlled=()):
    out = {}
    for v in c.graph.nodes():
        k = kinds[v]
        plane = "" if k is None else k if isinstance(k, str) else k[0]
        if label in ("index", "indices"):
            out[v] = str(v)
        elif v in controlled:
            out[v] = "Ctrl"
        elif label in ("plane", "planes"):
            out[v] = plane
        elif label in ("arrow", "arrows"):
            out[v] = ARROWS[plane]
        elif k is None:
            out[v] = ""
        elif k in ("X", "Y", "Z"):
            out[v] = "0"
        elif isinstance(k, tuple) and isinstance(k[1], tuple):
            out[v] = str(tuple(round(t, 3) for t in k[1]))
        else:
            out[v] = r"$\theta$" if isinstance(k, str) else str(round(k[1], 3))
    return out


def inspect(rec, case, c, kinds, controlled=(), conds=(), wires=True, **kw):
    """Draw with index labels, learn where every node is, and compare everything else."""
    before = lib.view_of(c)
    base = drawing(c, **kw)
    rec.op()
    where = {}
    for p, ts in base["texts"].items():
        for t in ts:
            if t in where:
                rec.bad(case, f"node {t} is drawn twice")
            where[t] = p
    nodes = list(c.graph.nodes())
    if sorted(where) != sorted(map(str, nodes)) or len(set(where.values())) != len(nodes) or set(base["nodes"]) != set(where.values()):
        rec.bad(case, f"nodes drawn: {sorted(where)} at {len(base['nodes'])} places, the circuit has {sorted(nodes)}")
        return None
    pos = {v: where[str(v)] for v in nodes}
    want = {frozenset((pos[u], pos[v])) for u, v in c.graph.edges()}
    if base["edges"] != want:
        rec.bad(case, f"{len(base['edges'])} edges drawn, or the wrong ones; the circuit has {len(want)}")
    if base["dashed"] != {frozenset((pos[u], pos[v])) for u, v in conds}:
        rec.bad(case, f"controls drawn: {len(base['dashed'])}, the circuit has {list(conds)}")
    if c.flow is not None:
        n_arrows = len(c.outputc) if kw.get("show_flow", True) else 0
        if base["arrows"] != n_arrows:
            rec.bad(case, f"{base['arrows']} flow arrows drawn, should be {n_arrows}")
        if wires:
            for k, v in enumerate(c.input_nodes):
                row = pos[v][1]
                while v not in c.output_nodes:
                    f = c.flow(v)
                    if pos[f][0] <= pos[v][0] or pos[f][1] != row:
                        rec.bad(case, f"the wire of input {k} does not run from left to right at {v} -> {f}")
                        break
                    v = f
            rows = [pos[v][1] for v in c.input_nodes]
            if len(set(rows)) != len(rows) or rows != sorted(rows, reverse=True):
                rec.bad(case, "wires are not one below the other in the order of the inputs")
    role = {}
    for v in nodes:
        r = "controlled" if v in controlled else "output" if v in c.quantum_output_nodes else "trainable" if v in c.trainable_nodes else "fixed"
        role[v] = r
    col = {}
    for v in nodes:
        cs = base["colors"][pos[v]]
        if len(cs) != 1:
            rec.bad(case, f"node {v} has several colours {cs}")
        col.setdefault(role[v], set()).update(cs)
    if kw.get("style", "default") == "default":
        if any(len(x) != 1 for x in col.values()) or len(set().union(*col.values())) != len(col):
            rec.bad(case, f"roles are not told apart by colour: { {k: sorted(x) for k, x in col.items()} }")
    d = lib.diff(lib.view_of(c), before)
    if d:
        rec.bad(case, f"drawing changed the circuit: {d}")
    return pos


def check_labels(rec, case, c, kinds, pos, controlled=(), labels=LABELS):
    fixed = c.flow is not None
    for label in labels:
        cs = {**case, "label": label}
        with rec.case(cs):
            got = drawing(c, label=label)
            rec.op()
            want = labels_of(c, kinds, label, controlled)
            if fixed:
                bad = [(v, got["texts"].get(pos[v]), want[v]) for v in want if got["texts"].get(pos[v]) not in ({want[v]}, {want[v], ""} if want[v] == "" else {want[v]}) and not (want[v] == "" and pos[v] not in got["texts"])]
                if bad:
                    rec.bad(cs, f"node {bad[0][0]} is labelled {bad[0][1]}, should be {bad[0][2]!r}")
            else:
                g = sorted(t for ts in got["texts"].values() for t in ts if t)
                if g != sorted(x for x in want.values() if x):
                    rec.bad(cs, f"labels {g}")
            rec.trace(cs)


def styles(rec, case, c, pos):
    base = drawing(c)
    for style in ("black_and_white", "blue_inputs"):
        cs = {**case, "style": style}
        with rec.case(cs):
            got = drawing(c, style=style)
            rec.op()
            for v, p in pos.items():
                col = got["colors"].get(p)
                if style == "black_and_white":
                    want = {"#ffffff"}
                elif v in c.input_nodes:
                    want = None
                else:
                    want = base["colors"][p]
                if want is not None and col != want:
                    rec.bad(cs, f"node {v} has colour {col}")
            if style == "blue_inputs" and len(set().union(*[got["colors"][pos[v]] for v in c.input_nodes])) != 1:
                rec.bad(cs, "inputs have several colours")
            if got["edges"] != base["edges"] or got["arrows"] != base["arrows"]:
                rec.bad(cs, "the style changes the edges")
            rec.trace(cs)


def do_flow(rec, n, k, m):
    classes = [x for x in ref.open_graph_classes(n, connected=n == 4) if len(x[1]) == len(x[2]) and ref.has_causal_flow(n, *x)]
    for idx, (edges, i, o) in enumerate(classes):
        if idx % m != k:
            continue
        for a in range(3):
            kinds = {v: (None if v in o and (a != 2 or v % 2) else KINDS[(v * (a + 1) + a + idx) % (len(KINDS) - 1)] if a else "XY") for v in range(n)}
            il = i[::-1] if a == 1 else i
            ol = o[::-1] if a == 2 else o
            case = {"n": n, "edges": list(map(list, edges)), "inputs": list(il), "outputs": list(ol), "kinds": [str(kinds[v]) for v in range(n)]}
            rec.state((n, edges, i, o, a))
            with rec.case(case):
                nodes = [range(n), range(n)[::-1], list(range(1, n)) + [0]][a]  # the order in which the nodes were added
                c = lib.circuit(n, edges, il, ol, nodes=list(nodes), measurements={v: lib.raw_ment(x) for v, x in kinds.items()})
                pos = inspect(rec, case, c, kinds)
                if pos is None:
                    continue
                inspect(rec, {**case, "show_flow": False}, c, kinds, show_flow=False)
                check_labels(rec, case, c, kinds, pos, labels=LABELS if n < 4 else LABELS[idx % 2::2])
                styles(rec, case, c, pos)
                word = ("XYZI" * n)[:n]
                op = mp.PauliOp(word)
                got = drawing(c, pauliop=op)
                want = {v: word[x] for x, v in enumerate(c.graph.nodes())}
                if any(got["texts"].get(pos[v]) != {want[v]} for v in pos):
                    rec.bad({**case, "pauliop": word}, "Pauli labels are at the wrong nodes")
                rec.trace(case)
                rec.outcome((len(edges), tuple(sorted(pos.values()))))


def do_noflow(rec, n):
    for edges, i, o in ref.open_graph_classes(n):
        if not edges or (len(i) == len(o) and ref.has_causal_flow(n, edges, i, o)) or len(i) != len(o):
            continue
        case = {"n": n, "edges": list(map(list, edges)), "inputs": list(i), "outputs": list(o)}
        rec.state((n, edges, i, o))
        with rec.case(case):
            c = lib.circuit(n, edges, i, o)
            kinds = {v: None if v in o else "XY" for v in range(n)}
            pos = inspect(rec, case, c, kinds)
            if pos is not None:
                check_labels(rec, case, c, kinds, pos)
                if not set(i) & set(o):
                    ins, outs = [pos[v] for v in c.input_nodes], [pos[v] for v in c.output_nodes]
                    for what, col in (("inputs", ins), ("outputs", outs)):
                        if len({x for x, _ in col}) > 1 or [y for _, y in col] != sorted({y for _, y in col}, reverse=True):
                            rec.bad(case, f"the {what} are not one below the other in their order: {col}")
                    if max(x for x, _ in ins) >= min(x for x, _ in outs):
                        rec.bad(case, "the inputs are not to the left of the outputs")
            rec.trace(case)


def do_state(rec, n):
    for edges in ref.all_edge_sets(n):
        case = {"graph state": list(map(list, edges)), "n": n}
        rec.state((n, edges))
        with rec.case(case):
            g = lib.gstate(n, edges, names=[f"a{v}" for v in range(n)])
            got = drawing(g)
            rec.op()
            ts = sorted(t for x in got["texts"].values() for t in x)
            if ts != [f"a{v}" for v in range(n)] or len(got["edges"]) != len(edges) or len(got["nodes"]) != n:
                rec.bad(case, f"drawn nodes {ts}, {len(got['edges'])} edges")
            if list(g.nodes()) != [f"a{v}" for v in range(n)] or len(g.edges()) != len(edges):
                rec.bad(case, "drawing changed the graph state")
            rec.trace(case)


def do_control(rec, k):
    edges = ((0, 1), (1, 2), (2, 3), (3, 4))
    node = (1, 2, 3, 3)[k]
    for cond, deps in ((lambda c: c[0].outcome, {0}), (lambda c: ~c[0].outcome, {0}), (lambda c: c[0].outcome ^ c[node - 1].outcome, {0, node - 1}), (lambda c: True, set()), (lambda c: False, set())):
        case = {"controlled": node, "depends on": sorted(deps), "k": k}
        rec.state((k, tuple(deps), len(deps)))
        with rec.case(case):
            c = lib.circuit(5, edges, (0,), (4,))
            c[node] = mp.ControlMent(quiet(cond, c), 0.2, "XY", 0, "Y")
            kinds = {v: "XY" if v < 4 else None for v in range(5)}
            pos = inspect(rec, case, c, kinds, controlled=[node], conds={(node, x) for x in deps})
            if pos is not None:
                check_labels(rec, case, c, kinds, pos, controlled=[node])
                hidden = drawing(c, show_controls=False)
                if hidden["dashed"]:
                    rec.bad(case, "controls are drawn although they are hidden")
            rec.trace(case)


def do_templates(rec, k):
    name, make = [
        ("grid_cluster(2,3)", lambda: mp.templates.grid_cluster(2, 3)), ("many_wires", lambda: mp.templates.many_wires([2, 4, 3])), ("muta(2,1)", lambda: mp.templates.muta(2, 1)),
        ("linear_cluster(7)", lambda: mp.templates.linear_cluster(7)), ("grid_cluster(3,3,periodic)", lambda: mp.templates.grid_cluster(3, 3, periodic=True)),
    ][k]
    case = {"template": name}
    rec.state(name)
    with rec.case(case):
        c = quiet(make)
        kinds = {}
        for v in c.graph.nodes():
            m = c[v]
            kinds[v] = None if m is None else m.plane if m.angle is None or m.plane in "XYZ" else (m.plane, m.angle)
        pos = inspect(rec, case, c, kinds)
        if pos is not None:
            check_labels(rec, case, c, kinds, pos)
            styles(rec, case, c, pos)
        if c.flow is not None:
            wires = []
            for v in c.input_nodes[::-1]:
                w = [v]
                while w[-1] not in c.output_nodes:
                    w.append(c.flow(w[-1]))
                wires.append(tuple(w))
            given = [tuple(w) for w in wires]
            p2 = inspect(rec, {**case, "wires": "given in reverse"}, c, kinds, wires=False, fix_wires=given)
            if p2 is not None:
                for w in wires:
                    if any(p2[b][0] <= p2[a][0] or p2[a][1] != p2[b][1] for a, b in zip(w, w[1:])):
                        rec.bad({**case, "wires": list(map(list, wires))}, "a given wire is not drawn on its row")
            if given != wires:
                rec.bad(case, "the caller's wires were changed")
        rec.trace(case)


def larger(k):
    """Many wires and long wires: (n, edges, inputs, outputs)."""
    if k == 0:
        return big.wires([2] * 8)
    if k == 1:
        return big.wires([3, 1, 2, 4, 1, 2])
    if k == 2:
        return big.wires([14])
    if k == 3:
        return big.grid(5, 3)
    if k == 4:
        return big.hub(6, 2, 0, range(1, 6))
    if k == 5:
        return big.grid(3, 6)
    if k == 6:
        return big.ladder(7)
    n, edges, i, o = big.wires([2] * 7)
    return n, edges, i[3:] + i[:3], o[::-1]


def do_larger(rec, k):
    n, edges, i, o = larger(k)
    for a in range(3):
        kinds = {v: (None if v in o and (a != 2 or v % 2) else KINDS[(v * (a + 1) + a) % (len(KINDS) - 1)] if a else "XY") for v in range(n)}
        case = {"n": n, "edges": list(map(list, edges)), "inputs": list(i), "outputs": list(o), "kinds": [str(kinds[v]) for v in range(n)]}
        rec.state((k, a))
        with rec.case(case):
            nodes = [range(n), range(n)[::-1], list(range(1, n, 2)) + list(range(0, n, 2))][a]
            c = lib.circuit(n, edges, i, o, nodes=list(nodes), measurements={v: lib.raw_ment(x) for v, x in kinds.items()})
            pos = inspect(rec, case, c, kinds)
            if pos is None:
                continue
            inspect(rec, {**case, "show_flow": False}, c, kinds, show_flow=False)
            check_labels(rec, case, c, kinds, pos, labels=LABELS[a % 2::2])
            styles(rec, case, c, pos)
            word = ("XYZI" * n)[:n]
            got = drawing(c, pauliop=mp.PauliOp(word))
            want = {v: word[x] for x, v in enumerate(c.graph.nodes())}
            if any(got["texts"].get(pos[v]) != {want[v]} for v in pos):
                rec.bad({**case, "pauliop": word}, "Pauli labels are at the wrong nodes")
            given = []
            for v in c.input_nodes:
                w = [v]
                while w[-1] not in c.output_nodes:
                    w.append(c.flow(w[-1]))
                given.append(tuple(w))
            for order in (given, given[::-1], given[1:] + given[:1]):
                cs = {**case, "wires": list(map(list, order))}
                with rec.case(cs):
                    p2 = inspect(rec, cs, c, kinds, wires=False, fix_wires=list(order))
                    if p2 is not None:
                        if any(p2[y][0] <= p2[x][0] or p2[x][1] != p2[y][1] for w in order for x, y in zip(w, w[1:])):
                            rec.bad(cs, "a given wire is not drawn on its row")
                        rows = [p2[w[0]][1] for w in order]
                        if rows != sorted(set(rows), reverse=True):
                            rec.bad(cs, "the wires are not drawn one below the other in the order given")
                    rec.trace(cs)
            rec.trace(case)


def do_empty(rec):
    """Circuits in which every node is an input and an output."""
    for n in (1, 2):
        case = {"identity": n}
        rec.state(("id", n))
        with rec.case(case):
            c = lib.circuit(n, (), range(n), range(n))
            inspect(rec, case, c, {v: None for v in range(n)})
            rec.trace(case)


def do_options(rec):
    """Two-angle measurements, wires with gaps, size and transparency of the figure."""
    g = ((0, 1), (1, 2), (3, 4), (4, 5), (1, 4))
    for k, extra in enumerate(({}, {"XYZ": (0.12345, -2.0)}, {"XYZ": (1, 0.5)})):
        case = {"options": "two angles", "k": k}
        rec.state(("xyz", k))
        with rec.case(case):
            kinds = {0: "XY", 1: ("XYZ", extra["XYZ"]) if extra else "XYZ", 2: None, 3: ("XY", 0.0), 4: ("XY", -1), 5: None}
            c = lib.circuit(6, g, (0, 3), (2, 5), measurements={v: lib.raw_ment(x) for v, x in kinds.items()})
            pos = inspect(rec, case, c, kinds)
            if pos is not None:
                check_labels(rec, case, c, kinds, pos, labels=("angle", "angles", "plane", "index"))
            rec.trace(case)
    c = lib.circuit(6, g, (0, 3), (2, 5))
    for wires in ([(0, 1, 2), (3, "*", 4, 5)], [(0, "*", "*", 1, 2), (3, 4, 5)], [(3, 4, "*", 5), ("*", 0, 1, 2)], [("*", 3, 4, 5), (0, 1, "*", 2)]):
        case = {"wires": [list(w) for w in wires]}
        rec.state(str(wires))
        with rec.case(case):
            pos = inspect(rec, case, c, {}, wires=False, fix_wires=[tuple(w) for w in wires])
            if pos is not None:
                for w in wires:
                    cols = [(x, pos[v]) for x, v in enumerate(w) if v != "*"]
                    if len({p[1] for _, p in cols}) != 1 or any(b[0] <= a[0] for (_, a), (_, b) in zip(cols, cols[1:])):
                        rec.bad(case, f"the wire {w} is not drawn on its row from left to right")
                    step = {(b[0] - a[0]) / (y - x) for (x, a), (y, b) in zip(cols, cols[1:])}
                    if max(step) - min(step) > 1e-6:
                        rec.bad(case, f"the gaps of the wire {w} are not left free")
                rows = [pos[[v for v in w if v != "*"][0]][1] for w in wires]
                if rows != sorted(set(rows), reverse=True):
                    rec.bad(case, "the wires are not drawn one below the other in the order given")
            rec.trace(case)
    for state, kind in ((c, "circuit"), (lib.gstate(3, ((0, 1),)), "graph state")):
        for size in (None, (5, 2), (9, 9)):
            for tr in (None, True, False):
                case = {"draw": kind, "figsize": size, "transparent": tr}
                rec.state(str(case))
                with rec.case(case):
                    kw = {**({} if size is None else {"figsize": size}), **({} if tr is None else {"transparent": tr})}
                    keep = dict(kw)
                    fig, ax = quiet(mp.draw, state, **kw)
                    rec.op()
                    got = tuple(float(x) for x in fig.get_size_inches())
                    if size is not None and got != tuple(map(float, size)):
                        rec.bad(case, f"the figure has size {got}")
                    if tr is not None and any((p.get_alpha() == 0) != tr for p in (fig.patch, ax.patch)):
                        rec.bad(case, "the background is not as transparent as asked for")
                    if kw != keep:
                        rec.bad(case, "the caller's options were changed")
                    rec.trace(case)
                    plt.close(fig)


ASKED = [{}, {"font_size": 7}, {"font_size": 21}, {"node_size": 120}, {"node_size": 900}, {"edge_color": "red"}, {"edgecolors": "blue"}, {"font_weight": "bold"}, {"font_family": "serif"},
         {"edge_color_control": "green"}, {"label": "plane"}, {"style": "blue_inputs"}, {"show_flow": False}, {"show_controls": False}, {"figsize": (5, 2)}, {"transparent": False},
         {"with_labels": False}, {"pauliop": "XYZIXZ"}, {"style": "black_and_white", "font_size": 13, "label": "angle"}]


def looks(fig, ax):
    """Everything that options decide."""
    dots = [c for c in ax.collections if isinstance(c, PathCollection)]
    lines = [c for c in ax.collections if isinstance(c, LineCollection)]
    solid = [c for c in lines if c.get_linestyle()[0][1] is None]
    dashed = [c for c in lines if c.get_linestyle()[0][1] is not None]
    shown = [t for t in ax.texts if t.get_text()]
    return {
        "font_size": {t.get_fontsize() for t in shown}, "font_weight": {t.get_fontweight() for t in shown}, "font_family": {tuple(t.get_fontfamily()) for t in shown},
        "node_size": {float(x) for d in dots for x in d.get_sizes()}, "edgecolors": {rgb2hex(x) for d in dots for x in d.get_edgecolor()},
        "edge_color": {rgb2hex(x) for d in solid for x in d.get_edgecolor()}, "edge_color_control": {rgb2hex(x) for d in dashed for x in d.get_edgecolor()},
        "figsize": tuple(float(x) for x in fig.get_size_inches()), "transparent": (fig.patch.get_alpha(), ax.patch.get_alpha()),
    }


def do_session(rec, k):
    """One drawing after another: each one is as asked for, whatever was asked for before."""
    def circ():
        c = lib.circuit(6, ((0, 1), (1, 2), (3, 4), (4, 5), (1, 4)), (0, 3), (2, 5))
        c[1] = mp.ControlMent(c[0].outcome, 0.4, "XY", 0.9, "XY")
        return c

    def draw(kw):
        kw = {a: mp.PauliOp(b) if a == "pauliop" else b for a, b in kw.items()}
        np.random.seed(7)
        fig, ax = quiet(mp.draw, circ(), **kw)
        try:
            return {**read(fig, ax), **looks(fig, ax)}
        finally:
            plt.close(fig)

    want = draw(ASKED[k])
    for j, other in enumerate(ASKED):
        case = {"options": {a: str(b) for a, b in ASKED[k].items()}, "after": {a: str(b) for a, b in other.items()}}
        rec.state(("session", k, j))
        with rec.case(case):
            draw(other)
            got = draw(ASKED[k])
            rec.op(2)
            for a, b in ASKED[k].items():
                if a in ("font_size", "node_size", "font_weight", "font_family"):
                    ok = got[a] == {(b,) if a == "font_family" else b}
                elif a in ("edge_color", "edgecolors", "edge_color_control"):
                    ok = got[a] == {rgb2hex(b)}
                else:
                    continue
                if not ok:
                    rec.bad(case, f"{a} is {sorted(map(str, got[a]))}")
            d = [a for a in got if got[a] != want[a]]
            if d:
                rec.bad(case, f"the drawing depends on the one before: {d}")
            rec.trace(case)


def do_invalid(rec):
    c = mp.templates.linear_cluster(3)
    for kw in ({"label": "node"}, {"label": ""}, {"style": "colourful"}, {"style": ""}, {"pauliop": mp.PauliOp("XXX;ZZZ")}):
        case = {"options": {k: str(v) for k, v in kw.items()}}
        rec.state(str(kw))
        with rec.case(case):
            r, e = raises(mp.draw, c, **kw)
            plt.close("all")
            rec.op()
            rec.trace(case)
            if not r:
                rec.bad(case, "an invalid option is accepted")
