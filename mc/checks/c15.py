"""C15  The Pauli template implements the Pauli rotation of its measurement angle."""
import itertools

import numpy as np

import mentpy as mp
from mc import lib, ref
from mc.core import quiet

ID = "C15"
ASSUMPTIONS = [
    "exp(-i phi P) with phi = +-theta/2 for the measured angle theta (the sign may depend on P, but neither on theta nor on the input)",
    "both sides are trigonometric polynomials of degree 1 in theta/2, so agreement on five angles is agreement on all",
    "the circuits have no causal flow, so the simulator runs them with an explicit schedule on the all-zero branch",
]
ANGLES = (0.0, 2 * np.pi / 3, 4 * np.pi / 3, 0.71731, -2.11377)


def longer():
    """Longer strings: one letter somewhere, one letter everywhere, and every rotation of mixed words."""
    out = []
    for n in (6, 7, 8):
        for k in range(n):
            out += ["I" * k + c + "I" * (n - k - 1) for c in "XYZ"]
            word = ("XYZIZYX" * 2)[:n]
            out += [word[k:] + word[:k], ("YYIXZ" * 2)[k % 5:][:n]]
        out += [c * n for c in "XYZI"]
    return sorted(set(out), key=lambda w: (len(w), w))


def BOUNDS(tier):
    return ("every Pauli string on " + ("1..6" if tier == "thorough" else "1..5") + f" qubits and {len(longer())} on 6..8 x 5 angles: map contracted from the circuit the code returns; "
            "all 15 non-identity two-qubit and 3 one-qubit strings simulated on the density-matrix backend x tomographic inputs x 3 angles; strings given as text, list and matrix")


def shards(tier):
    words = ["".join(s) for n in range(1, 7 if tier == "thorough" else 6) for s in itertools.product("IXYZ", repeat=n)]
    words += [w for w in longer() if w not in set(words)]
    m = 256 if tier == "thorough" else 64
    out = [("map", tuple(words[k::m])) for k in range(m)]
    out += [("sim", ("".join(s),)) for n in (1, 2) for s in itertools.product("IXYZ", repeat=n)]
    return out


def rotation(txt, phi):
    p = ref.pauli_matrix(txt)
    return np.cos(phi) * np.eye(len(p)) - 1j * np.sin(phi) * p


def explore(shard, rec):
    for txt in shard[1]:
        one(rec, shard[0], txt)


def one(rec, kind, txt):
    n = len(txt)
    if kind == "map":
        bits = np.array([[int(c in "XY") for c in txt] + [int(c in "ZY") for c in txt]])
        forms = {"text": txt, "list": [txt], "matrix": bits}
        for form, arg in forms.items() if n <= 2 else [("text", txt)]:
            case = {"pauli": txt, "given_as": form}
            with rec.case(case):
                c = quiet(mp.templates.from_pauli, mp.PauliOp(arg))
                rec.op()
                nodes = sorted(c.graph.nodes)
                edges = [tuple(sorted(e)) for e in c.graph.edges]
                if nodes != list(range(len(nodes))) or len(c.input_nodes) != n or len(c.output_nodes) != n:
                    rec.bad(case, "wrong number of input or output nodes")
                    continue
                if len(c.trainable_nodes) != 1:
                    rec.bad(case, f"one angle expected, trainable nodes are {c.trainable_nodes}")
                    continue
                ok = {1: True, -1: True}
                for th in ANGLES:
                    ments = {v: (c[v].plane, c[v].angle if c[v].angle is not None else th) for v in nodes if v not in c.output_nodes}
                    m = ref.branch_map(len(nodes), edges, list(c.input_nodes), list(c.output_nodes), ments)
                    rec.state((txt, form, th))
                    rec.op()
                    for s in ok:
                        ok[s] = ok[s] and ref.proportional(m, rotation(txt, s * th / 2)) and np.linalg.norm(m) > 1e-9
                rec.outcome((txt, ok[1], ok[-1]))
                rec.trace(case)
                if not any(ok.values()):
                    rec.bad(case, "the circuit does not implement exp(-i phi P) with phi = +-theta/2")
    else:
        for th in (0.0, 0.71731, -2.11377):
            ok = {1: True, -1: True}
            case = {"pauli": txt, "angle": th, "via": "numpy-dm"}
            with rec.case(case):
                for name, psi in ref.tomography_inputs(n):
                    c = quiet(mp.templates.from_pauli, mp.PauliOp(txt))
                    anc = [v for v in c.graph.nodes if v not in c.input_nodes and v not in c.output_nodes]
                    sched = list(c.input_nodes) + anc + list(c.output_nodes)
                    dm = quiet(quiet(mp.PatternSimulator, c, psi, backend="numpy-dm", schedule=sched, window_size=len(c.graph)).run, [th])
                    rec.op()
                    rec.state((txt, th, name))
                    for s in ok:
                        out = rotation(txt, s * th / 2) @ psi
                        ok[s] = ok[s] and lib.close(dm, ref.dm(out), 1e-6)
                rec.outcome((txt, th))
                rec.trace(case)
                if not any(ok.values()):
                    rec.bad(case, "the simulated circuit does not implement exp(-i phi P)")
