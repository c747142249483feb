"""C04  Building a circuit: roles survive relabelling, the caller's objects are never touched, bad input is refused."""
import itertools

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C04"
ASSUMPTIONS = ["node names of one graph are mutually comparable (they are sorted to be numbered)"]

NAMES = {
    "int": lambda n: list(range(n)),
    "rev": lambda n: list(range(n))[::-1],
    "gap": lambda n: [3 * ((v + 1) % n) + 10 for v in range(n)],
    "neg": lambda n: [(-1) ** v * (v + 1) for v in range(n)],
    "str": lambda n: [f"q{n - v}" for v in range(n)],
    "tup": lambda n: [(v % 2, -v) for v in range(n)],
}
KINDS = ["XY", ("XY", 0.3), "X", "Y", "Z", "XZ", ("YZ", -0.7)]


def BOUNDS(tier):
    return ("every open graph class n<=3 (all with |I|=|O|, with and without flow), n=4 classes with flow, x 6 node namings x insertion orders x "
            "input/output listing orders x relabelling on/off x measurement dictionaries (none, empty, partial, full incl. outputs, None entries) "
            "x default measurement; after construction the circuit is edited and the caller's graph, lists, dictionary and measurements compared, then these are changed by the caller and the circuit compared; "
            "larger circuits of up to 18 nodes with and without flow, flows of them handed in with one node changed; all listed kinds of invalid construction" + ("; n=4 all classes" if tier == "thorough" else ""))


def shards(tier):
    out = [("ok", 1, 0, 1, tier), ("ok", 2, 0, 1, tier)] + [("ok", 3, k, 8, tier) for k in range(8)] + [("ok", 4, k, 24, tier) for k in range(24)]
    out += [("bad", 3, 0, 1, tier), ("given", 3, 0, 1, tier), ("given", 4, 0, 1, tier)]
    out += [("larger", 0, k, 48, tier) for k in range(48)] + [("biggiven", 0, k, 16, tier) for k in range(16)]
    return out


def ment_choices(n, i, o):
    """node -> kind dictionaries given by the caller."""
    yield None
    yield {}
    full = {v: KINDS[v % len(KINDS)] for v in range(n)}
    yield full
    yield {v: (None if v in o else KINDS[(2 * v + 1) % len(KINDS)]) for v in range(n)}
    for v in range(n):
        yield {v: "Y"}
    yield {v: ("XY", 0.1 * v) for v in range(0, n, 2)}
    yield {v: None for v in range(n)}


def expected(n, o, ments, default):
    if ments is None:
        return {v: (None if v in o else default) for v in range(n)}
    return {v: ments[v] if v in ments else (None if v in o else default) for v in range(n)}


def build_case(rec, n, edges, i, o, naming, rev, ments, default, relabel, flow_exists):
    names = NAMES[naming](n)
    rank = {x: k for k, x in enumerate(sorted(names))}
    case = {"n": n, "edges": edges, "in": i, "out": o, "naming": naming, "rev": rev,
            "ments": None if ments is None else sorted(ments.items()), "default": default, "relabel": relabel}
    rec.state(repr(case))
    with rec.case(case):
        g = lib.gstate(n, edges, range(n)[::-1] if rev else range(n), names)
        ins, outs = [names[v] for v in i], [names[v] for v in o]
        given = None if ments is None else {names[v]: lib.raw_ment(k) for v, k in (reversed(ments.items()) if rev else ments.items())}
        shared = mp.Ment(0.25, "XY") if default == ("XY", 0.25) else lib.raw_ment(default)
        snap = (list(g.nodes), sorted(map(sorted, g.edges)), list(ins), list(outs), None if given is None else list(given.items()))
        kw = {} if given is None else {"measurements": given}
        c = quiet(mp.MBQCircuit, g, input_nodes=ins, output_nodes=outs, default_measurement=shared, relabel_indices=relabel, **kw)
        rec.op()
        lab = (lambda v: rank[names[v]]) if relabel else (lambda v: names[v])
        want = expected(n, o, ments, default)
        got = {
            "nodes": sorted(c.graph.nodes), "edges": sorted(tuple(sorted(e)) for e in c.graph.edges), "in": list(c.input_nodes), "out": list(c.output_nodes),
            "outputc": sorted(c.outputc), "inputc": sorted(c.inputc), "len": len(c),
            "ments": {v: lib.spec_of(c[lab(v)]) for v in range(n)},
            "mkeys": sorted(c.measurements),
            "trainable": sorted(c.trainable_nodes),
            "planes": {v: c.planes[lab(v)] for v in range(n)},
            "qout": list(c.quantum_output_nodes), "cout": sorted(c.classical_output_nodes), "controlled": list(c.controlled_nodes),
            "has_flow": c.flow is not None,
        }
        exp = {
            "nodes": sorted(lab(v) for v in range(n)), "edges": sorted(tuple(sorted((lab(u), lab(v)))) for u, v in edges),
            "in": [lab(v) for v in i], "out": [lab(v) for v in o],
            "outputc": sorted(lab(v) for v in range(n) if v not in o), "inputc": sorted(lab(v) for v in range(n) if v not in i), "len": n,
            "ments": {v: lib.kind_spec(want[v]) for v in range(n)},
            "mkeys": sorted(lab(v) for v in range(n)),
            "trainable": sorted(lab(v) for v in range(n) if lib.trainable_kind(want[v])),
            "planes": {v: "" if want[v] is None else (want[v] if isinstance(want[v], str) else want[v][0]) for v in range(n)},
            "qout": [lab(v) for v in o if want[v] is None], "cout": sorted(lab(v) for v in o if want[v] is not None), "controlled": [],
            "has_flow": flow_exists,
        }
        err = lib.diff(got, exp)
        if err:
            rec.bad(case, err)
        rec.outcome((flow_exists, relabel, len(exp["trainable"]), len(exp["cout"])))
        rec.note("with_flow" if flow_exists else "without_flow")
        err = lib.order_errors(c)
        if err:
            rec.bad(case, err)
        # edits of the circuit stay inside the circuit; edits of the caller's measurements stay outside
        a = lab(0)
        quiet(c.__setitem__, a, mp.Ment("Y"))
        if n > 1:
            quiet(c.__delitem__, lab(n - 1))
        quiet(setattr, c, "measurements", {lab(n // 2): mp.Ment(1.5)})
        free = next(((u, v) for u in range(n) for v in range(u + 1, n) if (u, v) not in edges and (v, u) not in edges), None)
        if free:
            raises(c.add_edge, lab(free[0]), lab(free[1]))
        rec.op(4)
        now = (list(g.nodes), sorted(map(sorted, g.edges)), list(ins), list(outs), None if given is None else list(given.items()))
        if now[:4] != snap[:4]:
            rec.bad(case, f"the caller's graph or node lists changed: {snap[:4]} -> {now[:4]}")
        if given is not None:
            same = len(now[4]) == len(snap[4]) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(now[4], snap[4]))
            if not same or any(lib.spec_of(m) != lib.kind_spec(ments[names.index(k)]) for k, m in given.items()):
                rec.bad(case, "the caller's measurements changed")
            d = quiet(mp.MBQCircuit, g, input_nodes=ins, output_nodes=outs, relabel_indices=relabel, measurements=given)
            before = {v: lib.spec_of(d[lab(v)]) for v in range(n)}
            for m in given.values():
                if m is not None and m.plane in ("XY", "XZ", "YZ"):
                    m.set_angle(2.5)
            given.clear()
            if {v: lib.spec_of(d[lab(v)]) for v in range(n)} != before:
                rec.bad(case, "changing the caller's measurements afterwards changes the circuit")
            rec.op(2)
        # what the caller does with the graph and the lists afterwards does not reach the circuit
        mine_default = lib.raw_ment(default)
        kept = quiet(mp.MBQCircuit, g, input_nodes=ins, output_nodes=outs, relabel_indices=relabel, default_measurement=mine_default)
        order = list(kept.measurement_order) if kept.flow is not None else None
        ordered = quiet(mp.MBQCircuit, g, input_nodes=ins, output_nodes=outs, relabel_indices=relabel,
                        **({} if order is None else {"measurement_order": given_order(order, names, rank, relabel)}))
        mine = None if order is None else list(order)
        if mine is not None:
            ordered.measurement_order = mine
        train = list(kept.trainable_nodes)
        ordered.trainable_nodes = train
        before = [view(x) for x in (kept, ordered)]
        for lst in (ins, outs, train) + (() if mine is None else (mine,)):
            lst.reverse()
            lst.append(names[0])
        g.add_node("another")
        g.add_edges_from([("another", x) for x in names])
        if n > 1:
            g.remove_node(names[-1])
        rec.op(4)
        if [view(x) for x in (kept, ordered)] != before:
            rec.bad(case, f"changing the caller's graph or lists afterwards changes the circuit: {before} -> {[view(x) for x in (kept, ordered)]}")
        if mine_default.plane == "XY":
            mine_default.set_angle(2.5 if mine_default.angle is None else None)
            quiet(setattr, kept, "measurements", {})
            got = {v: lib.spec_of(kept[lab(v)]) for v in range(n)}
            if got != {v: None if v in o else lib.kind_spec(default) for v in range(n)}:
                rec.bad(case, f"changing the caller's default measurement afterwards changes what the circuit uses by default: {got}")
        rec.trace(case)


def given_order(order, names, rank, relabel):
    """A measurement order of the circuit in the names of the caller."""
    back = {k: x for x, k in rank.items()}
    return [back[v] for v in order] if relabel else list(order)


def view(c):
    return (sorted(map(repr, c.graph.nodes)), sorted(sorted(map(repr, e)) for e in c.graph.edges), list(c.input_nodes), list(c.output_nodes), list(c.gflow.input_nodes), list(c.gflow.output_nodes),
            list(c.trainable_nodes), None if c.flow is None else list(c.measurement_order), None if c.gflow.layers is None else [sorted(x) for x in c.gflow.layers])


def invalid(rec):
    """Everything that must be refused (at n=3, wire 0-1-2)."""
    edges = [(0, 1), (1, 2)]
    cases = []
    for bad in ([9], [0, 9], [-1], ["a"]):
        cases.append(("input", bad, dict(input_nodes=bad, output_nodes=[2][: len(bad)])))
        cases.append(("output", bad, dict(input_nodes=[0], output_nodes=bad)))
    for m in ({9: mp.Ment("X")}, {0: mp.Ment("X"), 7: None}, {"a": mp.Ment("X")}):
        cases.append(("measurement key", list(m), dict(input_nodes=[0], output_nodes=[2], measurements=m)))
    for v in ("X", 0.3, 1, object, mp.Ment):
        cases.append(("measurement value", repr(v), dict(input_nodes=[0], output_nodes=[2], measurements={1: v})))
        cases.append(("default", repr(v), dict(input_nodes=[0], output_nodes=[2], default_measurement=v)))
    for what, val, kw in cases:
        for relabel in (True, False):
            case = {"invalid": what, "value": repr(val), "relabel": relabel}
            rec.state(repr(case))
            with rec.case(case):
                bad, e = raises(mp.MBQCircuit, lib.gstate(3, edges), relabel_indices=relabel, **kw)
                rec.op()
                rec.note("invalid")
                if not bad:
                    rec.bad(case, f"a circuit with an invalid {what} was built")
                rec.trace()


def given_flow(rec, n):
    """A flow and order handed in (in the caller's node names) is used if it is one and refused if it is not."""
    for edges, i, o in ref.open_graph_classes(n):
        a = ref.adj(n, edges)
        given_choices(rec, n, edges, i, o, lambda meas: itertools.product(*[sorted(a[v]) or [v] for v in meas]))


def bigger(tier):
    """Open graphs with and without flow, up to 18 nodes."""
    for name, n, edges, i, o in big.bases(tier):
        if n <= 18:
            yield n, edges, i, o
            yield n, tuple(sorted(set(edges) ^ {(n - 2, n - 1)})), i, o
            yield n, tuple(sorted(set(edges) ^ {(0, n - 1)})), i, o


def biggiven(rec, k, m, tier):
    idx = -1
    for n, edges, i, o in bigger(tier):
        a = ref.adj(n, edges)
        got = big.causal(n, edges, i, o)
        if got is None:
            continue
        idx += 1
        if idx % m == k:
            f = got[0]
            given_choices(rec, n, edges, i, o, lambda meas: [tuple(f[v] for v in meas)] + [tuple(y if u == v else f[u] for u in meas) for v in meas for y in sorted(a[v]) if y != f[v]])


def given_choices(rec, n, edges, i, o, options):
    a = ref.adj(n, edges)
    meas = [v for v in range(n) if v not in o]
    for naming in ("int", "gap", "str"):
        names = NAMES[naming](n)
        inv = {x: v for v, x in enumerate(names)}
        rank = {x: k for k, x in enumerate(sorted(names))}
        for choice in options(meas):
            f = dict(zip(meas, choice))
            succ = ref.flow_succ(n, edges, f) if all(f[v] in a[v] for v in meas) else None
            valid = (succ is not None and all(f[v] not in i for v in meas) and len(set(choice)) == len(choice)
                     and ref.acyclic(range(n), succ))
            for po_kind in ("exact", "empty"):
                if succ is not None and ref.acyclic(range(n), succ):
                    clo = lib.closure(range(n), [(u, w) for u in succ for w in succ[u]])
                else:
                    clo = set()
                rel = clo if po_kind == "exact" else set()
                ok = valid and (po_kind == "exact" or not meas)
                case = {"n": n, "edges": edges, "in": i, "out": o, "naming": naming, "flow": sorted(f.items()), "order": po_kind}
                rec.state(repr(case))
                with rec.case(case):
                    g = lib.gstate(n, edges, names=names)
                    bad, c = raises(mp.MBQCircuit, g, [names[v] for v in i], [names[v] for v in o],
                                    flow=lambda x: names[f[inv[x]]], partial_order=lambda x, y: (inv[x], inv[y]) in rel)
                    rec.op()
                    rec.note("given_ok" if ok else "given_invalid")
                    if ok and bad:
                        rec.bad(case, f"a valid flow is refused: {c!r}")
                    elif not ok and not bad:
                        rec.bad(case, "something that is not a flow is accepted as one")
                    elif not bad:
                        if any(c.flow(rank[names[v]]) != rank[names[f[v]]] for v in meas):
                            rec.bad(case, "the given flow is not the one in use")
                        err = lib.order_errors(c)
                        if err:
                            rec.bad(case, err)
                    rec.trace()


def explore(shard, rec):
    what, n, k, m, tier = shard
    if what == "bad":
        return invalid(rec)
    if what == "given":
        return given_flow(rec, n)
    if what == "biggiven":
        return biggiven(rec, k, m, tier)
    if what == "larger":
        idx = -1
        for n, edges, i, o in bigger(tier):
            has = big.causal(n, edges, i, o) is not None
            for num, ments in enumerate(ment_choices(n, i, o)):
                if 4 <= num < n + 4 and num % 5:
                    continue
                idx += 1
                if idx % m != k:
                    continue
                for naming in NAMES:
                    for rev in (False, True):
                        ii, oo = (i[::-1], o[1:] + o[:1]) if rev else (i, o)
                        build_case(rec, n, edges, ii, oo, naming, rev, ments, ("XY", ("XY", 0.25), "X")[(num + len(naming)) % 3], (num + rev) % 2 == 0, has)
        return
    idx = -1
    for edges, i, o in ref.open_graph_classes(n, nonempty=False):
        has = ref.has_causal_flow(n, edges, i, o)
        if n == 4 and not has and tier == "quick":
            continue
        idx += 1
        if idx % m != k:
            continue
        for num, ments in enumerate(ment_choices(n, i, o)):
            for naming in NAMES:
                for rev in (False, True):
                    ii, oo = (i[::-1], o[1:] + o[:1]) if rev else (i, o)
                    relabel = (num + rev) % 2 == 0
                    default = ("XY", ("XY", 0.25), "X")[(num + len(naming)) % 3]
                    build_case(rec, n, edges, ii, oo, naming, rev, ments, default, relabel, has)
                    if n <= 3:
                        build_case(rec, n, edges, ii, oo, naming, rev, ments, default, not relabel, has)
