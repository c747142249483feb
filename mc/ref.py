"""Reference models: deliberately boring, written from the definitions, sharing no code with mentpy."""
import functools
import itertools

import numpy as np

# ------------------------------------------------------------------ graphs


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def all_edge_sets(n):
    """Every labelled graph on 0..n-1, as a tuple of edges, fewest edges first."""
    ps = pairs(n)
    for k in range(len(ps) + 1):
        yield from itertools.combinations(ps, k)


def adj(n, edges):
    a = [set() for _ in range(n)]
    for u, v in edges:
        a[u].add(v)
        a[v].add(u)
    return a


@functools.lru_cache(None)
def _perms(n):
    return list(itertools.permutations(range(n)))


def io_sets(n, k=None, disjoint=False):
    """All (I, O) pairs of equally many nodes, as ascending tuples."""
    ks = [k] if k is not None else range(0, n + 1)
    for kk in ks:
        for i in itertools.combinations(range(n), kk):
            for o in itertools.combinations(range(n), kk):
                if disjoint and set(i) & set(o):
                    continue
                yield i, o


def _invariant(n, edges, i, o):
    a = adj(n, edges)
    lab = [(len(a[v]), v in i, v in o) for v in range(n)]
    lab2 = sorted((lab[v], tuple(sorted(lab[w] for w in a[v]))) for v in range(n))
    return tuple(lab2)


def open_graph_classes(n, disjoint=False, connected=False, nonempty=True):
    """One representative (edges, I, O) per isomorphism class of open graphs on n nodes with |I|=|O|.

    Canonical form by brute force over permutations, so two members of a class really are the same
    circuit up to renaming the nodes.
    """
    seen = set()
    for edges in graph_classes(n):
        if connected and not is_connected(n, edges):
            continue
        auts = [p for p in _perms(n) if _apply(p, edges) == tuple(sorted(edges))]
        for i, o in io_sets(n, disjoint=disjoint):
            if nonempty and not i:
                continue
            key = min((tuple(sorted(p[x] for x in i)), tuple(sorted(p[x] for x in o))) for p in auts)
            if (edges, key) in seen:
                continue
            seen.add((edges, key))
            yield edges, i, o


def _apply(p, edges):
    return tuple(sorted((min(p[u], p[v]), max(p[u], p[v])) for u, v in edges))


def canonical_graph(n, edges):
    return min(_apply(p, edges) for p in _perms(n))


@functools.lru_cache(None)
def graph_classes(n):
    """Isomorphism classes of graphs on n nodes (representatives as sorted edge tuples)."""
    seen, out = set(), []
    for edges in all_edge_sets(n):
        e = tuple(sorted(edges))
        if e in seen:
            continue
        out.append(e)
        for p in _perms(n):
            seen.add(_apply(p, e))
    return tuple(out)


def is_connected(n, edges):
    if n == 0:
        return True
    a = adj(n, edges)
    todo, done = [0], {0}
    while todo:
        for w in a[todo.pop()]:
            if w not in done:
                done.add(w)
                todo.append(w)
    return len(done) == n


# ------------------------------------------------------------------ causal flow, from the definition


def acyclic(nodes, succ):
    """Kahn."""
    indeg = {v: 0 for v in nodes}
    for v in nodes:
        for w in succ[v]:
            indeg[w] += 1
    todo = [v for v in nodes if indeg[v] == 0]
    cnt = 0
    while todo:
        v = todo.pop()
        cnt += 1
        for w in succ[v]:
            indeg[w] -= 1
            if indeg[w] == 0:
                todo.append(w)
    return cnt == len(nodes)


def flow_succ(n, edges, f):
    """u -> everything that has to come after u for the flow f: f(u) and the other neighbours of f(u)."""
    a = adj(n, edges)
    succ = {v: set() for v in range(n)}
    for u, fu in f.items():
        succ[u].add(fu)
        succ[u] |= a[fu] - {u}
    return succ


def causal_flows(n, edges, inputs, outputs):
    """All causal flows: f: V\\O -> V\\I with f(u)~u and an acyclic successor relation.

    f is injective automatically (f(u)=f(v) makes u and v precede each other); not assumed here.
    """
    a = adj(n, edges)
    meas = [v for v in range(n) if v not in outputs]
    opts = [[w for w in sorted(a[v]) if w not in inputs] for v in meas]
    for choice in itertools.product(*opts):
        if len(set(choice)) != len(choice):
            continue
        f = dict(zip(meas, choice))
        if acyclic(range(n), flow_succ(n, edges, f)):
            yield f


def has_causal_flow(n, edges, inputs, outputs):
    return next(causal_flows(n, edges, inputs, outputs), None) is not None


def longest_chain(n, succ, order=None):
    """Number of edges on a longest chain of the (acyclic) relation."""

    @functools.lru_cache(None)
    def d(v):
        return max((1 + d(w) for w in succ[v]), default=0)

    return max((d(v) for v in range(n)), default=0)


# ------------------------------------------------------------------ generalised flow (all XY), from the definition


def odd_neighbourhood(a, s):
    out = set()
    for v in s:
        out ^= a[v]
    return out


def gflow_exists_for_layers(n, edges, inputs, outputs, layer):
    """layer: node -> integer, bigger = measured earlier.  A correction set g(u) must lie strictly later,
    avoid inputs, have u in its odd neighbourhood and no other node that is not strictly later."""
    a = adj(n, edges)
    for u in range(n):
        if u in outputs:
            continue
        later = {w for w in range(n) if layer[w] < layer[u]}
        cand = sorted(later - set(inputs))
        ok = False
        for r in range(1, len(cand) + 1):
            for s in itertools.combinations(cand, r):
                odd = odd_neighbourhood(a, s)
                if u in odd and odd - {u} <= later:
                    ok = True
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def has_gflow(n, edges, inputs, outputs):
    """Search over all measurement orders (a gflow exists iff one exists for some total order)."""
    a = adj(n, edges)
    non = [v for v in range(n) if v not in outputs]

    @functools.lru_cache(None)
    def rec(done):
        if len(done) == len(non):
            return True
        later = set(outputs) | set(done)
        for u in non:
            if u in done:
                continue
            cand = sorted(later - set(inputs))
            for r in range(1, len(cand) + 1):
                for s in itertools.combinations(cand, r):
                    odd = odd_neighbourhood(a, s)
                    if u in odd and odd - {u} <= later:
                        if rec(done | frozenset([u])):
                            return True
                        break
                else:
                    continue
                break
        return False

    return rec(frozenset())


def delayed_layers(n, edges, inputs, outputs):
    """The maximally delayed gflow layering: every node goes into the first layer in which some subset of the
    nodes done so far corrects it. None if there is no gflow. Its depth is the least any gflow has."""
    a = adj(n, edges)
    lay = {v: 0 for v in outputs}
    k = 0
    while len(lay) < n:
        k += 1
        done = set(lay)
        cand = sorted(done - set(inputs))
        fixed = {}  # u -> corrected by the outputs so far
        for s in itertools.chain.from_iterable(itertools.combinations(cand, r) for r in range(1, len(cand) + 1)):
            rest = odd_neighbourhood(a, s) - done
            if len(rest) == 1:
                fixed[rest.pop()] = k
        if not fixed:
            return None
        lay.update(fixed)
    return lay


# ------------------------------------------------------------------ dense quantum reference

X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
I2 = np.eye(2, dtype=complex)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
PLUS = np.array([1, 1], dtype=complex) / np.sqrt(2)


def observable(plane, angle):
    if plane == "X":
        return X
    if plane == "Y":
        return Y
    if plane == "Z":
        return Z
    if plane == "XYZ":
        a, b = angle
        return np.cos(a) * np.cos(b) * X + np.sin(a) * np.cos(b) * Y + np.sin(b) * Z
    c, s = np.cos(angle), np.sin(angle)
    if plane == "XY":
        return c * X + s * Y
    if plane == "XZ":
        return c * X + s * Z
    if plane == "YZ":
        return c * Y + s * Z
    raise ValueError(plane)


def eigvec(plane, angle, outcome):
    """Unit eigenvector of the observable for eigenvalue (-1)**outcome."""
    o = observable(plane, angle)
    p = (I2 + (-1) ** outcome * o) / 2
    col = p[:, 0] if np.linalg.norm(p[:, 0]) >= np.linalg.norm(p[:, 1]) else p[:, 1]
    return col / np.linalg.norm(col)


def apply1(state, m, k, n):
    """Apply a (d x 2) matrix to qubit k of an n-qubit tensor [2]*n (+ trailing axes)."""
    t = np.tensordot(m, state, axes=([1], [k]))
    return np.moveaxis(t, 0, k)


def cz_phase(t, i, j):
    """CZ on axes i and j of a tensor, returns a new tensor."""
    t = t.copy()
    idx = [slice(None)] * t.ndim
    idx[i] = 1
    idx[j] = 1
    t[tuple(idx)] *= -1
    return t


def open_graph_tensor(n, edges, inputs):
    """Tensor with axes (node 0..n-1, then one axis per input): the map input state -> graph resource."""
    t = np.ones((), dtype=complex)
    k = len(inputs)
    t = np.ones([1] * (n + k), dtype=complex)
    full = np.ones([2] * n + [2] * k, dtype=complex)
    for v in range(n):
        if v in inputs:
            q = n + list(inputs).index(v)
            idx = np.indices([2, 2])
            delta = (idx[0] == idx[1]).astype(complex)
            shape = [1] * (n + k)
            shape[v] = 2
            shape[q] = 2
            full = full * delta.reshape(shape)
        else:
            full = full / np.sqrt(2)
    for u, v in edges:
        full = cz_phase(full, u, v)
    return full


def branch_map(n, edges, inputs, outputs, ments, outcomes=None):
    """Linear map C^(2^|I|) -> C^(2^|O|) of the pattern for the given outcomes (default: all 0).

    ments: node -> (plane, angle) for every measured node.  Rows are ordered by `outputs`, columns by `inputs`.
    Built by contracting node after node, so it is exact for any graph of moderate width.
    """
    outcomes = outcomes or {}
    # live axes: list of ('n', v) and ('i', j)
    t = np.ones((), dtype=complex)
    axes = []
    a = adj(n, edges)
    pending = {frozenset(e) for e in edges}
    created = set()

    def create(v):
        nonlocal t, axes
        if v in created:
            return
        created.add(v)
        if v in inputs:
            t = np.multiply.outer(t, np.eye(2, dtype=complex))
            axes += [("n", v), ("i", list(inputs).index(v))]
        else:
            t = np.multiply.outer(t, PLUS)
            axes += [("n", v)]

    order = sorted((v for v in range(n) if v in ments), key=lambda v: v)
    # greedy: measure the node that needs the fewest new nodes
    todo = set(order)
    while todo:
        v = min(todo, key=lambda x: (len((a[x] | {x}) - created), x))
        create(v)
        for w in sorted(a[v]):
            create(w)
        for w in sorted(a[v]):
            e = frozenset((v, w))
            if e in pending:
                pending.discard(e)
                t = cz_phase(t, axes.index(("n", v)), axes.index(("n", w)))
        plane, angle = ments[v]
        vec = eigvec(plane, angle, outcomes.get(v, 0))
        k = axes.index(("n", v))
        t = np.tensordot(vec.conj(), t, axes=([0], [k]))
        axes.pop(k)
        todo.discard(v)
    for v in range(n):
        create(v)
    for e in sorted(map(sorted, pending)):
        t = cz_phase(t, axes.index(("n", e[0])), axes.index(("n", e[1])))
    perm = [axes.index(("n", v)) for v in outputs] + [axes.index(("i", j)) for j in range(len(inputs))]
    if len(perm) != len(axes):
        raise ValueError("unmeasured node that is not an output")
    t = np.transpose(t, perm)
    return t.reshape(2 ** len(outputs), 2 ** len(inputs))


def dm(psi):
    return np.outer(psi, psi.conj())


def normalised_dm(m, psi):
    v = m @ psi
    nrm = np.vdot(v, v).real
    return np.outer(v, v.conj()) / nrm, nrm


def proportional(a, b, tol=1e-7):
    """a ∝ b as nonzero arrays (up to one complex factor)."""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-12 or nb < 1e-12:
        return na < 1e-12 and nb < 1e-12
    return bool(np.linalg.norm(b / nb - (np.vdot(a, b) / (na * nb)) * a / na) <= tol)  # the part of b orthogonal to a


def kron(*ms):
    return functools.reduce(np.kron, ms, np.eye(1, dtype=complex))


def kron_states(vs):
    return functools.reduce(np.kron, vs, np.ones(1, dtype=complex))


CARD = {
    "0": np.array([1, 0], dtype=complex),
    "1": np.array([0, 1], dtype=complex),
    "+": np.array([1, 1], dtype=complex) / np.sqrt(2),
    "i": np.array([1, 1j], dtype=complex) / np.sqrt(2),
    "-": np.array([1, -1], dtype=complex) / np.sqrt(2),
    "j": np.array([1, -1j], dtype=complex) / np.sqrt(2),
    "t": np.array([np.cos(0.35), np.exp(0.4j) * np.sin(0.35)]),  # P(1) = 0.12
    "u": np.array([np.cos(1.03), np.exp(-1.1j) * np.sin(1.03)]),  # P(1) = 0.74
}


def product_inputs(k, letters="01+-ij"):
    for s in itertools.product(letters, repeat=k):
        yield "".join(s), kron_states([CARD[c] for c in s])


def tomography_inputs(k):
    """Product states whose projectors span all operators on k qubits (plus nothing else needed: maps are linear)."""
    for s in itertools.product("01+i", repeat=k):
        yield "".join(s), kron_states([CARD[c] for c in s])


def pauli_matrix(txt):
    return kron(*[PAULI[c] for c in txt])


# ------------------------------------------------------------------ GF(2)


def gf2_rank(rows):
    """rows: iterable of ints (bit masks)."""
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)
