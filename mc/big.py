"""Larger instances (n = 7..40), where searching straight from the definition is out of reach.

The references below are polynomial; check C01 compares them with the brute-force ones on every small open graph."""
import itertools

from mc import ref


def wires(lengths):
    """Separate wires; inputs and outputs are their ends."""
    edges, i, o, v = [], [], [], 0
    for m in lengths:
        edges += [(k, k + 1) for k in range(v, v + m - 1)]
        i.append(v)
        o.append(v + m - 1)
        v += m
    return v, tuple(edges), tuple(i), tuple(o)


def grid(r, c):
    edges = [(x * c + y, x * c + y + 1) for x in range(r) for y in range(c - 1)]
    edges += [(x * c + y, x * c + c + y) for x in range(r - 1) for y in range(c)]
    return r * c, tuple(sorted(edges)), tuple(x * c for x in range(r)), tuple(x * c + c - 1 for x in range(r))


def hub(k, length, node, joined):
    """k wires of the given length; the last node of wire 0 joined to position `node` of the wires in `joined`."""
    n, edges, i, o = wires([length] * k)
    return n, tuple(sorted(set(edges) | {tuple(sorted((o[0], i[w] + node))) for w in joined})), i, o


def ladder(k):
    """Two wires of k nodes with a rung between v and the next of the other wire: deep orders."""
    n, edges, i, o = wires([k, k])
    return n, tuple(sorted(set(edges) | {(v, k + v + 1) for v in range(k - 1)})), i, o


def bases(tier="quick"):
    """Names and open graphs that have a causal flow or come close to it."""
    out = [("wires 3+3+3", *wires([3, 3, 3])), ("wires 2x6", *wires([2] * 6)), ("wires 5+2+4", *wires([5, 2, 4])), ("wire 12", *wires([12])),
           ("grid 2x5", *grid(2, 5)), ("grid 3x4", *grid(3, 4)), ("grid 4x3", *grid(4, 3)), ("ladder 6", *ladder(6))]
    for k in (4, 6, 9, 10):
        for length in (2, 3):
            out.append((f"hub {k}x{length}", *hub(k, length, length - 2, range(1, k))))
            out.append((f"hub {k}x{length} half", *hub(k, length, 0, range(1, k, 2))))
    if tier == "thorough":
        out += [("grid 4x6", *grid(4, 6)), ("grid 6x4", *grid(6, 4)), ("wires 8x3", *wires([3] * 8)), ("ladder 12", *ladder(12)), ("hub 17x2", *hub(17, 2, 0, range(1, 17)))]
    return out


def nearby(n, edges):
    """The graph itself, and every graph that differs from it in one edge."""
    yield edges
    for p in itertools.combinations(range(n), 2):
        yield tuple(sorted(set(edges) ^ {p}))


def causal(n, edges, inputs, outputs):
    """(f, layers) of the causal flow measured as late as possible, or None. Layer 0: outputs."""
    a = ref.adj(n, edges)
    lay = {v: 0 for v in outputs}
    f = {}
    free = set(outputs) - set(inputs)  # may still correct a node
    k = 0
    while len(lay) < n:
        k += 1
        got = {}
        for v in sorted(free):
            rest = [u for u in a[v] if u not in lay]
            if len(rest) == 1:
                got.setdefault(rest[0], v)
        if not got:
            return None
        for u, v in got.items():
            f[u], lay[u] = v, k
            free.discard(v)
            if u not in inputs:
                free.add(u)
    return f, lay


def gflow_layers(n, edges, inputs, outputs):
    """The maximally delayed layers of a generalised flow (all XY), or None."""
    a = ref.adj(n, edges)
    lay = {v: 0 for v in outputs}
    k = 0
    while len(lay) < n:
        k += 1
        basis = []
        for w in sorted(set(lay) - set(inputs)):
            x = sum(1 << u for u in a[w] if u not in lay)
            for b in basis:
                x = min(x, x ^ b)
            if x:
                basis = [min(b, b ^ x) if (b ^ x) < b else b for b in basis] + [x]
                basis.sort(reverse=True)
        new = []
        for u in range(n):
            if u in lay:
                continue
            x = 1 << u
            for b in basis:
                x = min(x, x ^ b)
            if x == 0:
                new.append(u)
        if not new:
            return None
        lay.update({u: k for u in new})
    return lay


def one_moves(order):
    """The order and every order that differs from it by moving one element."""
    yield list(order)
    for a in range(len(order)):
        for b in range(len(order)):
            if a != b:
                rest = list(order[:a]) + list(order[a + 1:])
                yield rest[:b] + [order[a]] + rest[b:]


def circulant(q, mask, layers=1):
    """q inputs joined to q outputs through `layers` bipartite graphs, node u to the nodes u + b for the bits b of mask."""
    edges = [(x * q + u, (x + 1) * q + (u + b) % q) for x in range(layers) for u in range(q) for b in range(q) if mask >> b & 1]
    n = (layers + 1) * q
    return n, tuple(sorted(edges)), tuple(range(q)), tuple(range(n - q, n))


def gflow_families(tier="quick"):
    """Open graphs, most of them without causal flow: circulant layers, and what differs from them in one edge."""
    for q in (5, 6, 7, 8) if tier == "quick" else (5, 6, 7, 8, 9, 10):
        for mask in range(1, 1 << q, 2):
            n, edges, i, o = circulant(q, mask)
            yield f"circulant {q}/{mask}", n, edges, i, o
            if mask in (7, 11, 19) or (q == 5 and mask < 16):
                for e in big_toggles(n, edges):
                    yield f"near circulant {q}/{mask}", n, e, i, o
    for q in (3, 4, 5):
        for mask in range(1, 1 << q, 2):
            for layers in (2, 3):
                yield (f"layers {q}/{mask}", *circulant(q, mask, layers))


def big_toggles(n, edges):
    return itertools.islice(nearby(n, edges), 1, None)
