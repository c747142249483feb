"""C11  Outcomes: the final state is the post-measurement state of the outcomes that are reported, on every branch."""
import itertools

import numpy as np

import mentpy as mp
from mc import big, lib, ref
from mc.core import quiet, raises

ID = "C11"
ASSUMPTIONS = [
    "random outcomes are drawn through numpy.random / random module functions; the explorer scripts them and enumerates every branch of non-zero probability",
    "outcomes whose probability is strictly between 0 and 1e-3 are outside the explored angle/input grid (the simulators treat <1e-4 as impossible)",
]


def BOUNDS(tier):
    return ("all open graph classes n<=3 with at least one measured node (flow or not; n=4 connected classes with flow" + (", and without" if tier == "thorough" else "")
            + "), x every subset of measured outputs x every assignment of {X,Y,Z,XY,XZ,YZ} (dm) / {X,Y,XY} (sv) bases to the measured nodes with angles from "
            "{0.8, 0, pi/2, pi} x Pauli eigenstate and tilted inputs x every outcome branch; expectation mode of Z measurements; XYZ plane on one node; ten larger circuits (5 to 9 nodes) with one or two " + ("(or three) " if tier == "thorough" else "") + "Z measurements anywhere")


# circuits with flow (n, edges, inputs, outputs)
LARGER = [
    big.wires([5]), (5, ((0, 1), (1, 3), (2, 3), (3, 4)), (0, 2), (1, 4)), big.wires([3, 3]), big.grid(2, 3), big.grid(3, 2), big.wires([7]), big.wires([2, 3, 2]), big.grid(2, 4), big.grid(3, 3), big.hub(4, 2, 0, (1, 2, 3)),
]


def larger(rec, g, k, m, tier):
    """Z measurements of every one or two nodes (outputs too), X, Y and plane measurements elsewhere; every branch."""
    n, edges, i, o = LARGER[g]
    idx = -1
    for r in (1, 2) if tier != "thorough" or n > 7 else (1, 2, 3):
        for zs in itertools.combinations(range(n), r):
            meas = [v for v in range(n) if v not in o or v in zs]
            for backend in ("numpy-dm", "numpy-sv"):
                idx += 1
                if idx % m != k:
                    continue
                if backend == "numpy-sv":
                    planes = {v: "X" if v in zs else ("XY", "Y", "XY")[(v + idx) % 3] for v in meas}
                else:
                    planes = {v: "Z" if v in zs else ("XY", "X", "XZ", "Y", "YZ")[(v + idx) % 5] for v in meas}
                ments = {v: (p, ANG[0] + 0.37 * v if len(p) == 2 else 0.0) for v, p in planes.items()}
                label = ("t1u+", "j0it", "+-tu")[idx % 3][:len(i)]
                psi = ref.kron_states([dict(ref.product_inputs(1, "0t1+-uij"))[x] for x in label])
                one(rec, n, edges, i, o, ments, backend, psi, label, None, bool(idx % 2))


def shards(tier):
    out = [("all", 2, 0, 1, tier)] + [("all", 3, k, 40, tier) for k in range(40)] + [("flow", 4, k, 48, tier) for k in range(48)]
    out += [("exp", 3, k, 8, tier) for k in range(8)]
    out += [("larger", g, k, 8, tier) for g in range(len(LARGER)) for k in range(8)]
    return out


ANG = (0.8, 0.0, np.pi / 2, np.pi)


def kinds_for(planes):
    """plane letters -> kinds with angles; plane planes get angles round robin so every angle meets every plane."""
    out = []
    for j, p in enumerate(planes):
        out.append(p)
    return out


def cond_probs(n, edges, i, o, ments, psi, order, outcomes):
    """Conditional probability of each reported outcome given the previous ones."""
    probs = []
    prev = 1.0
    for k in range(1, len(order) + 1):
        sub = order[:k]
        # probability of outcomes on `sub` irrespective of the rest: keep the others as outputs
        rest = tuple(v for v in range(n) if v not in sub)
        m = ref.branch_map(n, edges, i, rest, {v: ments[v] for v in sub}, {v: outcomes[v] for v in sub})
        _, p = ref.normalised_dm(m, psi) if np.linalg.norm(m @ psi) > 1e-9 else (None, 0.0)
        probs.append(p / prev if prev > 1e-12 else 0.0)
        prev = p
    return probs


def smallest_odd(n, edges, i, ments, psi, order, outcomes):
    """True if on this path some conditional probability is within (0, 1e-3)."""
    for k in range(1, len(order) + 1):
        sub = order[:k]
        for b in (0, 1):
            oc = {**{v: outcomes[v] for v in sub[:-1]}, sub[-1]: b}
            p = cond_probs(n, edges, i, (), ments, psi, sub, oc)[-1]
            if 1e-9 < p < 1e-3:
                return True
    return False


def one(rec, n, edges, i, o, ments, backend, psi, label, schedule, trainable):
    """ments: node -> (plane, angle); measured nodes. All branches."""
    qo = tuple(v for v in o if v not in ments)
    case = {"n": n, "edges": edges, "in": i, "out": o, "ments": [(v, p, round(a, 4) if not isinstance(a, tuple) else a) for v, (p, a) in sorted(ments.items())],
            "backend": backend, "input": label, "schedule": schedule, "trainable": trainable}
    rec.state(repr(case))
    with rec.case(case):
        ms = {}
        for v in range(n):
            if v not in ments:
                ms[v] = None
            else:
                p, a = ments[v]
                ms[v] = mp.Ment(p) if p in ("X", "Y", "Z") or (trainable and p != "XYZ") else mp.Ment(a, p)
        kw = {} if schedule is None else {"schedule": list(schedule), "window_size": n}

        def body(script):
            c = lib.circuit(n, edges, i, o, measurements=dict(ms))
            s = lib.sim(c, backend, psi.copy(), **kw)
            ang = [ments[v][1] for v in c.trainable_nodes]
            r = np.asarray(quiet(s.run, ang))
            order = [v for v in (schedule or c.measurement_order) if v in ments]
            return r, dict(s.outcomes), order

        nbranch = 0
        unweighted = False
        reached = set()
        for script, (r, outs, order) in lib.all_scripts(body):
            rec.op(2 + len(order))
            nbranch += 1
            unweighted = unweighted or (bool(script.log) and not script.kind_weighted)
            if sorted(outs) != sorted(ments) or any(outs[v] not in (0, 1) for v in ments):
                rec.bad(case, f"outcomes {outs} are not one bit per measured node {sorted(ments)}")
                return
            outs = {v: int(b) for v, b in outs.items()}
            reached.add(tuple(outs[v] for v in order))
            m = ref.branch_map(n, edges, i, qo, ments, outs)
            nrm = np.linalg.norm(m @ psi)
            if nrm < 1e-6:
                if smallest_odd(n, edges, i, ments, psi, order, outs):
                    rec.note("skipped_tiny_probability")
                    continue
                rec.bad({**case, "outcomes": sorted(outs.items())}, "the reported outcomes are impossible")
                continue
            want, p = ref.normalised_dm(m, psi)
            if not lib.close(r, want):
                if smallest_odd(n, edges, i, ments, psi, order, outs):
                    rec.note("skipped_tiny_probability")
                    continue
                rec.bad({**case, "outcomes": sorted(outs.items())}, "the state is not the post-measurement state of the reported outcomes")
            rec.outcome((tuple(sorted(outs.items())),))
            rec.note("outcome_one" if any(outs.values()) else "all_zero")
            # Born weights of the scripted draws (two-way draws only, in measurement order)
            zs = [v for v in order if ments[v][0] == "Z"]
            if script.log and len(script.log) == len(zs) and all(len(w) == 2 for w, _ in script.log) and backend == "numpy-dm":
                probs = dict(zip(order, cond_probs(n, edges, i, o, ments, psi, order, outs)))
                for (w, kk), v in zip(script.log, zs):
                    if script.kind_weighted and abs(w[kk] - probs[v]) > 1e-6:
                        rec.bad({**case, "outcomes": sorted(outs.items())}, f"outcome {outs[v]} of node {v} drawn with probability {w[kk]:.6f}, Born rule gives {probs[v]:.6f}")
            rec.trace(case)
        rec.note("branches", nbranch)
        zs = [v for v in ments if ments[v][0] == "Z"]
        # no possible outcome of a Z measurement is left out
        for key in reached if backend == "numpy-dm" else ():
            for q, v in enumerate(order):
                other = key[:q] + (1 - key[q],)
                if v in zs and not any(r[: q + 1] == other for r in reached):
                    p = cond_probs(n, edges, i, o, ments, psi, order[: q + 1], dict(zip(order, other)))[-1]
                    if p > 1e-3:
                        rec.bad({**case, "node": v, "after": key[:q]}, f"outcome {other[-1]} of probability {p:.3f} is never reported")
        if unweighted and backend == "numpy-dm" and (n == 2 or (n == 3 and len(zs) == 1 and label in ("t0", "tt", "t"))) and zs:
            # outcomes drawn from uniform numbers: enumerate strata of every draw and compare the weights
            strata = 16 if len(zs) == 1 else 8
            weight = {}
            for script, (r, outs, order) in lib.all_scripts(body, [(q + 0.5) / strata for q in range(strata)]):
                rec.op(2 + len(order))
                key = tuple(int(outs[v]) for v in order)
                weight[key] = weight.get(key, 0.0) + float(np.prod([w[kk] for w, kk in script.log]))
            for key, w in weight.items():
                outs = dict(zip(order, key))
                probs = cond_probs(n, edges, i, o, ments, psi, order, outs)
                p = float(np.prod([q for v, q in zip(order, probs) if ments[v][0] == "Z"]))
                if abs(w - p) > len(zs) / strata:
                    rec.bad({**case, "outcomes": sorted(outs.items())}, f"reported with probability about {w:.3f}, Born rule gives {p:.3f}")
            rec.note("stratified_cases")


def expectation(rec, n, edges, i, o, k, m):
    """mode='exp' on the last measured node being a Z measurement: the outcome is the probability of 1."""
    meas = [v for v in range(n) if v not in o]
    idx = 0
    for z in meas:
        for label, psi in ref.product_inputs(len(i)):
            idx += 1
            if idx % m != k:
                continue
            case = {"n": n, "edges": edges, "in": i, "out": o, "exp_node": z, "input": label}
            rec.state(repr(case))
            with rec.case(case):
                order = [v for v in i] + [v for v in range(n) if v not in i]
                ments = {v: ("Z", 0.0) if v == z else ("XY", 0.8) for v in meas}
                c = lib.circuit(n, edges, i, o, measurements={v: (mp.Ment("Z") if v == z else mp.Ment(0.8, "XY")) if v in meas else None for v in range(n)})
                s = lib.sim(c, "numpy-dm", psi, schedule=order, window_size=n)
                r = np.asarray(quiet(s.run, [], mode="exp"))
                outs = dict(s.outcomes)
                rec.op(2)
                others = {v: int(outs[v]) for v in meas if v != z}
                tot, rho = 0.0, 0
                ps = []
                for b in (0, 1):
                    mm = ref.branch_map(n, edges, i, o, ments, {**others, z: b})
                    v = mm @ psi
                    rho = rho + np.outer(v, v.conj())
                before = [v for v in order if v in meas][: [v for v in order if v in meas].index(z)]
                rest = tuple(v for v in range(n) if v not in before and v != z)
                for b in (0, 1):
                    mm = ref.branch_map(n, edges, i, rest, {v: ments[v] for v in before + [z]}, {**{v: others[v] for v in before}, z: b})
                    ps.append(np.linalg.norm(mm @ psi) ** 2)
                if abs(outs[z] - ps[1] / sum(ps)) > 1e-6:
                    rec.bad(case, f"expectation outcome {outs[z]}, probability of 1 is {ps[1] / sum(ps)}")
                if np.trace(rho).real > 1e-6 and not lib.close(r, rho / np.trace(rho)):
                    rec.bad(case, "the state is not the average over the outcomes of the Z measurement")
                rec.outcome(round(float(outs[z]), 3))
                rec.trace(case)


def explore(shard, rec):
    kind, n, k, m, tier = shard
    if kind == "exp":
        for nn in (2, 3):
            for edges, i, o in ref.open_graph_classes(nn):
                if len(o) < nn:
                    expectation(rec, nn, edges, i, o, k, m)
        return
    if kind == "larger":
        return larger(rec, n, k, m, tier)
    idx = -1
    num = 0
    for edges, i, o in ref.open_graph_classes(n, connected=(n == 4)):
        flow = ref.has_causal_flow(n, edges, i, o)
        if n == 4 and (len(i) > 2 or (not flow and tier != "thorough")):
            continue
        for r in range(len(o) + 1):
            for cl in itertools.combinations(o, r):
                meas = [v for v in range(n) if v not in o or v in cl]
                if not meas:
                    continue
                idx += 1
                if idx % m != k:
                    continue
                for backend, letters in (("numpy-dm", ("X", "Y", "Z", "XY", "XZ", "YZ")), ("numpy-sv", ("X", "Y", "XY"))):
                    sched = None if flow else tuple(i) + tuple(v for v in range(n) if v not in i)
                    assigns = list(itertools.product(letters, repeat=len(meas)))
                    if n == 4 and tier != "thorough":
                        assigns = [a for a in assigns if len(set(a)) <= 2] if len(meas) < 4 else [a for a in assigns if len(set(a)) == 1]
                    for planes in assigns:
                        num += 1
                        if len(i) == 1:
                            labels = list(ref.product_inputs(1, "0t1+-uij"))
                        else:
                            labels = list(ref.product_inputs(len(i), "0+tj" if n < 4 else "t1-"))
                        if n == 3 and tier != "thorough":
                            labels = labels[num % 2::2]
                        if n == 4 and tier != "thorough":
                            labels = labels[num % len(labels)::3]
                        for q, (label, psi) in enumerate(labels):
                            ments = {v: (p, ANG[(j + num + q) % 4] if len(p) == 2 else 0.0) for j, (v, p) in enumerate(zip(meas, planes))}
                            one(rec, n, edges, i, o, ments, backend, psi, label, sched, bool((num + q) % 2))
                for v in meas:
                    ments = {w: ("XYZ", (0.6, 1.1)) if w == v else ("XY", 0.8) for w in meas}
                    label, psi = next(iter(ref.product_inputs(len(i), "+")))
                    one(rec, n, edges, i, o, ments, "numpy-dm", psi, label, None if flow else tuple(i) + tuple(x for x in range(n) if x not in i), False)
