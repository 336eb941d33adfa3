"""C24: learning-based probabilistic error cancellation weights the right circuits; random Clifford circuits are uniform."""
import itertools
import math
from collections import Counter

import numpy as np
from pytket.circuit import Circuit, Node, Op, OpType, Qubit
from pytket.passes import FullPeepholeOptimise, AutoRebase, DecomposeSwapsToCXs, DefaultMappingPass, NaivePlacementPass, SequencePass
from pytket.pauli import QubitPauliString
from pytket.predicates import CliffordCircuitPredicate
from pytket.tableau import UnitaryTableau
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import Exp, canon
from harness.props.c20 import FULL, LINE
from harness.props.c21 import SimBackend, recorder
from qermit import MitEx
from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ
from qermit.probabilistic_error_cancellation.pec_learning_based import (PECRebase, collate_results_task_gen, gen_run_with_quasi_prob, label_gates, learn_quasi_probs_task_gen,
                                                                        list_pauli_gates, random_commuting_clifford, str_to_pauli_op, substitute_pauli_but_one,
                                                                        wrap_frame_gates)

REG = Registry("C24", "A case is a batch of experiments corrected by learning-based probabilistic error cancellation on recording expectation objects (exact ones, "
               "and ones with a Pauli channel after every CX): an independent least-squares solve over the variants the reference derives predicts every "
               "value; or a circuit taken through rebasing, labelling, framing and substitution, or data through collation, learning and weighting; or "
               "thousands of random Clifford circuits whose images of Paulis are tested for uniformity. Distinct by circuit / batch.",
               assumptions=["cases whose training data is ill-conditioned (relative singular values between 1e-7 and 1e-3) are not decided",
                            "chi-square statistics are compared with thresholds exceeded with probability below e^-40 by a uniform sampler"])

NAMES = ["I", "X", "Y", "Z"]
PAIRS = [(a, b) for a in NAMES for b in NAMES if (a, b) != ("I", "I")]


class StateSim(SimBackend):
    _supports_state = True


def gates(c):
    assert all(a == b for a, b in c.implicit_qubit_permutation().items())
    return [g for g in c.get_commands() if g.op.type not in (OpType.noop, OpType.Barrier)]


def frames(c):
    return [tuple(g.qubits) for g in gates(c) if g.op.type == OpType.CX]


def order(fr):
    """Two-qubit gates per qubit: what any order of independent gates agrees on."""
    out = {}
    for k in fr:
        for q in k:
            out.setdefault(q, []).append(k)
    return out


def insert(c, k, pair):
    """The reference's variant: Paulis both before and after the k-th CX."""
    out = gens.blank(c.qubits)
    n = 0
    for g in gates(c):
        here = g.op.type == OpType.CX and n == k
        if g.op.type == OpType.CX:
            n += 1
        for _ in range(2 if here else 1):
            if here:
                for q, p in zip(g.qubits, pair):
                    if p != "I":
                        out.add_gate(OpType.from_name(p), [q])
            if _ == 0:
                out.add_gate(g.op, g.qubits)
    return out


def variants(c):
    return [c] + [insert(c, k, p) for k in range(len(frames(c))) for p in PAIRS]


class Channel:
    """A Pauli channel after every CX."""

    def __init__(self, rng, on):
        w = [rng.random() ** 3 for _ in PAIRS]
        scale = rng.choice([0.05, 0.2, 0.4]) / sum(w) if on else 0
        s = (1 - scale * sum(w)) * np.eye(16, dtype=complex)
        for x, (a, b) in zip(w, PAIRS):
            p = np.kron(sim.PAULI[a], sim.PAULI[b])
            s += scale * x * np.kron(p, p.conj())
        u = sim.op_unitary(Op.create(OpType.CX))
        self.cx = s @ np.kron(u, u.conj())
        self.memo = {}

    def __call__(self, c, s):
        key = str([str(g) for g in c.get_commands()]) + str(c.qubits)
        if key not in self.memo:
            if len(self.memo) > 2000:
                self.memo.clear()
            self.memo[key] = self.state(c)
        return float(np.trace(sim.pauli_matrix(s, c.qubits) @ self.memo[key]).real)

    def state(self, c):
        qs = {q: i for i, q in enumerate(c.qubits)}
        n = len(qs)
        v = np.zeros((1, 4 ** n), complex)
        v[0, 0] = 1
        for g in gates(c):
            at = [qs[q] for q in g.qubits]
            u = sim.op_unitary(g.op)
            w = self.cx if g.op.type == OpType.CX else np.kron(u, u.conj())
            v = sim.apply_u(v, w, at + [a + n for a in at], 2 * n)
        return v.reshape(2 ** n, 2 ** n)


def same_multiset(a, b):
    """Unitaries, up to phase and order."""
    if len(a) != len(b):
        return False
    x, y = np.array([u.flatten() for u in a]), np.array([u.flatten() for u in b])
    d = a[0].shape[0] if a else 1
    aa = np.abs(x.conj() @ x.T) / d > 1 - 1e-8
    ab = np.abs(x.conj() @ y.T) / d > 1 - 1e-8
    return bool((aa.sum(1) == ab.sum(1)).all() and (ab.sum(0) > 0).all())


def trainable(rng, n=None, max_frames=3, kind="any", symbols=()):
    """A circuit for which every string can be trained: random rotations on every qubit first and last."""
    while True:
        qs = gens.new_qubits(rng, n or rng.randint(2, 3))
        c = gens.blank(qs)
        for q in qs:
            c.add_gate(OpType.TK1, [round(rng.uniform(0.1, 0.4), 3) for _ in range(3)], [q])
        gens.add_gates(rng, c, qs, rng.randint(1, 4), kind)
        if rng.random() < 0.5:
            c.add_gate(rng.choice([OpType.CX, OpType.CZ, OpType.ZZMax]), rng.sample(qs, 2))
        for s in symbols:
            c.add_gate(rng.choice(gens.ROT1), s, [rng.choice(qs)])
        for q in qs:
            c.add_gate(OpType.TK1, [round(rng.uniform(0.1, 0.4), 3) for _ in range(3)], [q])
        d = c.copy()
        AutoRebase({OpType.CX, OpType.TK1}).apply(d)
        f = c.copy()  # two-qubit gates that compilation can remove leave nothing to train on
        FullPeepholeOptimise().apply(f)
        if f.n_2qb_gates() and d.n_gates_of_type(OpType.CX) <= max_frames:
            return c


@REG.facet(40, 400, needs={"values": 24, "training": 120, "targets": 20, "noisy": 12, "placed": 4, "symbolic": 4, "batches": 5, "reruns": 4})
def mitigation(rng, mon):
    ch, ideal = Channel(rng, rng.random() < 0.75), Channel(rng, False)
    exps = []
    for i in range(rng.choice([1, 1, 2])):
        syms = gens.symbols(rng, 1) if rng.random() < 0.35 else []
        c = trainable(rng, symbols=syms, max_frames=rng.choice([1, 2, 2, 3]))
        e = Exp(rng, circ=c, n_strings=rng.randint(1, 3), shots=1000 + 17 * i)
        e.qpo = QubitPauliOperator({s: round(0.5 + 0.3 * j + rng.random() * 0.2, 4) * rng.choice([1, -1]) for j, s in enumerate(e.qpo._dict)})
        if syms:
            e.syms, e.vals = syms, {syms[0]: round(rng.uniform(0, 2), 3)}
            mon.saw("symbolic")
        exps.append(e)
    placing = rng.choice([None, None, None, "place", "route"])
    p = {None: None, "place": NaivePlacementPass(FULL), "route": SequencePass([DefaultMappingPass(LINE), DecomposeSwapsToCXs(LINE)])}[placing]
    if placing:
        # pytket cannot place qubits whose names are those of nodes
        if any(q.reg_name in ("node", "dev") for e in exps for q in e.circ.qubits):
            raise SkipCase
        mon.saw("placed")
    shots_sim = rng.random() < 0.3
    sb, db = (ExactBackend(), ExactBackend(compile_pass=p)) if shots_sim else (StateSim(), ExactBackend(compile_pass=p))
    logs = {"sim": [], "dev": []}
    k = rng.choice([1, 3, 6, 10])
    kw = {"num_cliff": k}
    if rng.random() < 0.3:
        kw["seed"] = rng.randrange(1000)
    m = gen_PEC_learning_based_MitEx(db, sb, simulator_mitex=recorder(sb, logs["sim"], ideal, "sim"), device_mitex=recorder(db, logs["dev"], ch, "dev"), **kw)
    w = dict(num_cliff=k, placing=placing, exps=[e.describe() for e in exps])
    batches = [exps]
    if len(exps) > 1:
        mon.saw("batches")
    if rng.random() < 0.25:
        batches.append([rng.choice(exps)])
        mon.saw("reruns")
    for batch in batches:
        for l in logs.values():
            l.clear()
        objs = [e.experiment() for e in batch]
        out = m.run(objs)
        mon.check(len(out) == len(batch), "number of results", got=len(out), **w)
        mon.check(len(logs["sim"]) == sum(k * len(e.qpo._dict) for e in batch), "number of training circuits", got=len(logs["sim"]), **w)
        left = len(logs["dev"])
        for e, o, obj in zip(batch, out, objs):
            mon.check(obj.AnsatzCircuit.Circuit == e.circ, "the user's circuit was changed", **w)
            mon.check(set(o._dict) == set(e.qpo._dict), "strings returned", got=str(list(o._dict)), **w)
            vals = sorted(complex(v).real for v in e.qpo._dict.values())
            mine = [x for x in logs["dev"] if x[1] == e.shots and sorted(complex(v).real for v in x[2].values()) == vals]
            left -= len(mine)
            mon.check(mine, "the experiment's own variants were not measured", **w)
            strs = {round(complex(v).real, 4): s for s, v in mine[0][2].items()}
            name = {s: strs[round(complex(v).real, 4)] for s, v in e.qpo._dict.items()}
            mon.check(all({round(complex(v).real, 4): s for s, v in x[2].items()} == strs for x in mine), "variants differ in their observable", **w)
            # which of them is free of errors: the one preparing what the user's circuit prepares
            us = [sim.unitary(x[0]) for x in mine]
            ref = sim.unitary(e.concrete())
            if placing is None:
                mon.check(all(list(x[0].qubits) == list(e.circ.qubits) for x in mine), "qubits of a variant", **w)
                base = [i for i, u in enumerate(us) if sim.same_up_to_phase(u, ref)]
            else:
                want = {name[s]: x for s, (co, x) in e.expected().items()}
                base = [i for i, x in enumerate(mine) if all(abs(ideal(x[0], s) - v) < 1e-6 for s, v in want.items())]
            mon.check(base, "no variant is the user's circuit", **w)
            found = None
            for i in base:
                vs = [sim.unitary(v) for v in variants(mine[i][0])]
                if same_multiset(us, vs):
                    found = mine[i][0]
                    break
            mon.check(found is not None, "the variants measured are not the user's circuit with one pair of Paulis about each two-qubit gate", n=len(mine),
                      got=[gens.describe(x[0]) for x in mine[:3]], **w)
            mon.saw("targets", len(mine))
            fr = order(frames(found))
            for s, co in e.qpo._dict.items():
                t = name[s]
                train = [x for x in logs["sim"] if x[1] == e.shots and list(x[2]) == [t] and order(frames(x[0])) == fr]
                if sum(1 for x in batch if x.shots == e.shots) == 1:
                    mon.check(len(train) == k, "training circuits of a string: same two-qubit gates, string and shots", got=len(train), want=k,
                              logged=[(gens.describe(x[0]), x[1], str(x[2])) for x in logs["sim"]][:4], **w)
                noisy = [x for x in logs["dev"] if x[1] == e.shots and list(x[2]) == [t] and complex(x[2][t]) == 1]
                left -= len(noisy)
                rows, ys, all_v = [], [], []
                for x in train:
                    mon.saw("training")
                    y = ideal(x[0], t)
                    mon.check(CliffordCircuitPredicate().verify(x[0]), "a training circuit is not Clifford", got=gens.describe(x[0]), **w)
                    mon.check(list(x[0].qubits) == list(found.qubits), "qubits of a training circuit", got=str(x[0].qubits), **w)
                    mon.check(abs(abs(y) - 1) < 1e-7, "a training circuit's exact value is zero", got=y, circ=gens.describe(x[0]), string=str(t), **w)
                    vs = variants(x[0])
                    all_v += vs
                    rows.append([ch(v, t) for v in vs])
                    ys.append(y)
                mon.check(same_multiset([sim.unitary(x[0]) for x in noisy], [sim.unitary(v) for v in all_v]),
                          "the noisy circuits measured are not the training circuits' variants", got=len(noisy), want=len(all_v), **w)
                a = np.array(rows)
                sv = np.linalg.svd(a, compute_uv=False)
                if any(1e-7 < x / sv[0] < 1e-3 for x in sv):
                    mon.saw("ill_conditioned")
                    continue
                q = np.linalg.pinv(a, rcond=1e-5) @ np.array(ys)
                own = [ch(v, t) for v in variants(found)]
                want = complex(co).real * float(np.dot(q, own))
                mon.saw("values")
                if not np.allclose(ch.cx, ideal.cx):
                    mon.saw("noisy")
                mon.check(abs(complex(o._dict[s]) - want) < 1e-5 * max(1, abs(want)), "a value is not its own variants weighted by the quasi-probabilities learned from its own training",
                          string=str(s), got=str(o._dict[s]), want=want, one=e.describe(), **w)
                if np.allclose(ch.cx, ideal.cx):
                    resid = np.array(own) - np.linalg.pinv(a, rcond=1e-5) @ a @ np.array(own)
                    if np.max(np.abs(resid)) < 1e-9:
                        mon.saw("determined")
                        mon.check(abs(want - complex(co).real * e.expected()[s][1]) < 1e-6, "without noise the plain expectation is not returned", got=want, **w)
        mon.check(left == 0, "circuits were measured on the device which belong to no experiment", got=left, **w)
    mon.case(w, True, w)


@REG.facet(250, 3000, needs={"variants": 1000, "training": 50, "refused": 30})
def frames_and_computing(rng, mon):
    kind = rng.random()
    if kind < 0.2:
        mon.saw("refused")
        qs = gens.new_qubits(rng, 2)
        c = gens.blank(qs)
        c.add_gate(OpType.TK1, [0.1, 0.2, 0.3], [qs[0]])
        c.CX(*qs)
        bad = rng.choice([OpType.T, OpType.X, OpType.CZ, OpType.H, OpType.Z, OpType.S])
        c.add_gate(bad, qs if bad == OpType.CZ else [rng.choice(qs)])
        try:
            label_gates(c)
        except RuntimeError:
            mon.case(gens.describe(c), True, gens.describe(c))
            return
        mon.check(False, "a gate neither TK1 nor CX was labelled", circ=gens.describe(c))
    syms = gens.symbols(rng, 1) if rng.random() < 0.3 else None
    if rng.random() < 0.5:
        c = gens.circuit(rng, rng.randint(1, 4), rng.randint(1, 8), symbols=syms)
    else:
        c = trainable(rng, rng.randint(2, 3), 5, symbols=syms or ())
    keep = c.copy()
    vals = {s: round(rng.uniform(0, 2), 3) for s in c.free_symbols()}

    def u(x):
        x = x.copy()
        x.symbol_substitution(vals)
        return sim.unitary(x)

    def shape(x):
        # symbolic parameters may be written in other ways, the unitary compares their values
        return [(g.op.type, g.args) for g in x.get_commands()]

    w = dict(circ=gens.describe(c))
    r = PECRebase(c)
    mon.check(c == keep, "rebasing changes the circuit given", **w)
    mon.check({g.op.type for g in r.get_commands()} <= {OpType.TK1, OpType.CX}, "gates after rebasing", got=gens.describe(r), **w)
    mon.check(list(r.qubits) == list(c.qubits) and sim.same_up_to_phase(u(r), u(c)), "rebasing changes what is computed", got=gens.describe(r), **w)
    l = label_gates(r)
    mon.check(list(l.qubits) == list(r.qubits) and np.allclose(u(l), u(r)) and shape(l) == shape(r),
              "labelling changes a circuit", **w)
    fr = frames(r)
    tags = [g.opgroup for g in l.get_commands()]
    mon.check(len(set(tags)) == len(tags), "labels are not distinct", got=tags, **w)
    mon.check(all(("Frame" in g.opgroup) == (g.op.type == OpType.CX) and ("Computing" in g.opgroup) == (g.op.type == OpType.TK1) for g in l.get_commands()),
              "two-qubit gates are frame gates and the others computing gates", got=tags, **w)
    f = wrap_frame_gates(l)
    mon.check(np.allclose(u(f), u(r)), "framing changes what is computed", **w)
    mon.check(order(frames(f)) == order(fr), "framing changes the frame gates", **w)
    if fr:
        errs = list_pauli_gates(f)
        mon.check(len(errs) == 1 + 15 * len(fr), "number of errors", got=len(errs), want=1 + 15 * len(fr), **w)
        got = [u(substitute_pauli_but_one(f, x["opgroup"], [str_to_pauli_op(y) for y in x["op"]])) for x in errs]
        want = [u(x) for x in variants(r)]
        mon.saw("variants", len(got))
        mon.check(sim.same_up_to_phase(got[0], want[0]), "the first variant is not free of errors", **w)
        mon.check(same_multiset(got, want), "variants are not the circuit with one pair of Paulis about each two-qubit gate", **w)
        mon.check(np.allclose(u(f), u(r)), "the circuit was changed by making variants", **w)
    else:
        try:
            list_pauli_gates(f)
            mon.check(False, "a circuit without two-qubit gates is not refused", **w)
        except RuntimeError:
            mon.saw("refused")
    if not any("Computing" in t for t in tags):
        try:
            random_commuting_clifford(f, gens.pauli_string(rng, list(c.qubits)), StateSim())
            mon.check(False, "a circuit without computing gates is not refused", **w)
        except ValueError:
            mon.saw("refused")
    elif rng.random() < 0.6:
        s = gens.pauli_string(rng, list(c.qubits))
        try:
            t = random_commuting_clifford(f, s, StateSim(), max_count=200)
        except RuntimeError:
            mon.saw("no_training")
            mon.case(w, True, w)
            return
        mon.saw("training")
        mon.check(list(t.qubits) == list(c.qubits), "qubits of a training circuit", got=str(t.qubits), **w)
        mon.check(CliffordCircuitPredicate().verify(t), "a training circuit is not Clifford", got=gens.describe(t), **w)
        mon.check(order(frames(t)) == order(fr), "a training circuit has other two-qubit gates", got=gens.describe(t), **w)
        v = sim.expectation(t, s)
        mon.check(abs(abs(v) - 1) < 1e-7, "a training circuit's exact value is zero", got=v, string=str(s), **w)
        placed = Counter(g.opgroup for g in t.get_commands() if g.opgroup)
        mon.check(all(placed[x] == 1 for x in tags if "Frame" in x), "frame gates of a training circuit lost their labels", got=dict(placed), **w)
        if fr:
            e = rng.choice(errs)
            k = [g.opgroup for g in l.get_commands() if g.op.type == OpType.CX].index(e["opgroup"])
            x = sim.unitary(substitute_pauli_but_one(t, e["opgroup"], [str_to_pauli_op(y) for y in e["op"]]))
            # the same gate carries the error in the training circuit
            ks = [g.opgroup for g in t.get_commands() if g.op.type == OpType.CX]
            mon.check(sim.same_up_to_phase(x, sim.unitary(insert(t, ks.index(e["opgroup"]), e["op"]))) if tuple(e["op"]) != ("I", "I") else True,
                      "an error is not put about the gate it names", error=str(e), at=k, **w)
    mon.case(w, True, w)


@REG.facet(120, 3000, needs={"collated": 20, "learned": 20, "weighted": 20, "mismatched": 5})
def data(rng, mon):
    """Collation, learning and weighting on arbitrary data."""
    n_exp = rng.randint(1, 3)
    qs = gens.new_qubits(rng, 2)
    k = rng.choice([1, 2, 5, 12])
    spec = []  # per experiment: (strings, number of variants)
    for _ in range(n_exp):
        spec.append((list(gens.observable(rng, qs, rng.randint(1, 3))._dict), 1 + 15 * rng.randint(1, 2)))
    ideal, istruct, noisy, nstruct = [], [], [], []
    table = {}
    for i, (ss, nv) in enumerate(spec):
        for j, s in enumerate(ss):
            for t in range(k):
                y = rng.choice([1.0, -1.0])
                xs = [rng.uniform(-1, 1) for _ in range(nv)]
                table[i, j, t] = (y, xs)
                istruct.append({"experiment": i, "qps": j, "training_circuit": t})
                n = len(ideal)
                ideal.append(QubitPauliOperator({s: y}))
                for v, x in enumerate(xs):
                    nstruct.append({"experiment": n, "error": v})
                    noisy.append(QubitPauliOperator({s: x}))
    w = dict(k=k, spec=[([str(s) for s in ss], nv) for ss, nv in spec])
    if rng.random() < 0.15:
        mon.saw("mismatched")
        a, b, c, d = list(noisy), list(nstruct), list(ideal), list(istruct)
        rng.choice([a, b, c, d]).pop()
        try:
            collate_results_task_gen()([a, b, c, d])
        except RuntimeError:
            mon.case(w, True, w)
            return
        mon.check(False, "results which do not match their structure are not refused", **w)
    (col,) = collate_results_task_gen()([noisy, nstruct, ideal, istruct])
    mon.saw("collated")
    mon.check([[len(x) for x in e] for e in col] == [[k] * len(ss) for ss, _ in spec], "shape of collated results", **w)
    for i, (ss, nv) in enumerate(spec):
        for j, s in enumerate(ss):
            for t in range(k):
                y, xs = table[i, j, t]
                got = [(complex(a._dict[s]).real, complex(b._dict[s]).real) for a, b in col[i][j][t]]
                mon.check(np.allclose(got, [(x, y) for x in xs]), "collated pairs are not those of the experiment, string and training circuit", at=(i, j, t), **w)
    (q,) = learn_quasi_probs_task_gen(k)([col])
    mon.check([len(x) for x in q] == [len(ss) for ss, _ in spec], "shape of quasi-probabilities", **w)
    ok = True
    for i, (ss, nv) in enumerate(spec):
        for j in range(len(ss)):
            a = np.array([table[i, j, t][1] for t in range(k)])
            y = np.array([table[i, j, t][0] for t in range(k)])
            sv = np.linalg.svd(a, compute_uv=False)
            if sv[-1] / sv[0] < 2e-3:
                ok = False
                continue
            mon.saw("learned")
            want = np.linalg.pinv(a, rcond=1e-6) @ y
            mon.check(len(q[i][j]) == nv and np.allclose(q[i][j], want, atol=1e-6), "quasi-probabilities are not the least-squares solution of their own training data",
                      got=[float(x) for x in q[i][j]][:4], want=list(want[:4]), **w)
            if k <= nv:
                mon.check(np.allclose(a @ np.array(q[i][j]), y, atol=1e-6), "quasi-probabilities do not reproduce exactly soluble training data", **w)
    res, struct, vals = [], [], {}
    for i, (ss, nv) in enumerate(spec):
        for v in range(nv):
            d = {}
            for s in ss:
                d[s] = vals[i, s, v] = rng.uniform(-2, 2)
            res.append(QubitPauliOperator(d))
            struct.append({"experiment": i, "error": v})
    (out,) = gen_run_with_quasi_prob()([q, res, struct])
    mon.saw("weighted")
    mon.check(len(out) == n_exp, "number of results", **w)
    for i, (ss, nv) in enumerate(spec):
        mon.check(set(out[i]._dict) == set(ss), "strings returned", **w)
        for j, s in enumerate(ss):
            want = sum(q[i][j][v] * vals[i, s, v] for v in range(nv))
            mon.check(abs(complex(out[i]._dict[s]) - want) < 1e-7 * max(1, abs(want)), "a value is not the weighted sum of its own variants", at=(i, j), **w)
    mon.case((w, rng.random()), True, w)


def chi(mon, name, counts, cells, total, **w):
    e = total / cells
    mon.saw("statistics")
    mon.check(len(counts) <= cells, "more outcomes than there are", name=name, **w)
    x = sum((v - e) ** 2 / e for v in counts.values()) + e * (cells - len(counts))
    k, t = cells - 1, 40
    mon.check(x <= k + 2 * math.sqrt(k * t) + 2 * t, "random Clifford circuits are not uniform", name=name, statistic=x, cells=cells, seen=len(counts), **w)


@REG.facet(12, 60, needs={"samples": 30000, "statistics": 30})
def uniform(rng, mon):
    n = rng.choice([1, 2, 2, 3, 3])
    N = {1: 3000, 2: 6000, 3: 9000}[n]
    seeded = rng.random() < 0.3
    base = rng.getrandbits(20)
    images, pairs = {}, {}
    for i in range(N):
        c = random_clifford_circ(n, seed=base + i) if seeded else random_clifford_circ(n)
        if i < 20:
            mon.check(c.n_qubits == n and list(c.qubits) == [Qubit(j) for j in range(n)] and CliffordCircuitPredicate().verify(c) and not c.n_bits,
                      "not a Clifford circuit on the qubits asked for", got=gens.describe(c))
        mon.saw("samples")
        t = UnitaryTableau(c)
        rows = {}
        for q in range(n):
            for nm, r in (("z", t.get_zrow(Qubit(q))), ("x", t.get_xrow(Qubit(q)))):
                rows[nm, q] = r
                images.setdefault((nm, q), Counter())[(canon(r.string), str(r.coeff))] += 1
        a, b = canon(rows["z", 0].string), canon(rows["x" if n == 1 else "z", n - 1].string)
        pairs.setdefault("first", Counter())[a, b] += 1
        pairs.setdefault("last", Counter())[canon(rows["x", n - 1].string), canon(rows["z", n - 1].string)] += 1
    d = 4 ** n - 1
    for k, v in images.items():
        chi(mon, str(k), v, 2 * d, N, n=n)
    # pairs of images: anticommuting (x, z of a qubit), commuting otherwise
    anti, com = d * 4 ** n // 2, d * (4 ** n // 2 - 2)
    if N / anti >= 4:
        chi(mon, "last", pairs["last"], anti, N, n=n)
    if N / max(com, 1) >= 4:
        chi(mon, "first", pairs["first"], com if n > 1 else anti, N, n=n)
    mon.case((n, base, seeded), True, (n, base))


@REG.facet(60, 600, needs={"seeds": 60, "states": 60, "pec_seeds": 2})
def seeding(rng, mon):
    n, s = rng.randint(1, 5), rng.randrange(2 ** 31)
    a, b = random_clifford_circ(n, seed=s), random_clifford_circ(n, seed=s)
    mon.saw("seeds")
    mon.check(a == b, "the same seed gives another circuit", n=n, seed=s)
    # without a seed, numbers already seeded by the user are used
    np.random.seed(s % 1000)
    a = [random_clifford_circ(n) for _ in range(3)]
    np.random.seed(s % 1000)
    b = [random_clifford_circ(n) for _ in range(3)]
    mon.saw("states")
    mon.check(a == b, "a seeded sequence is not reproduced", n=n)
    if n > 2:
        mon.check(not (a[0] == a[1] and a[1] == a[2]), "the same circuit is drawn again and again", n=n)
    if rng.random() < 0.25:
        # a seed given when generating the mitigation fixes what is trained on
        c = trainable(rng, 2, 2)
        e = Exp(rng, circ=c, n_strings=1, shots=100)
        logs = []
        for _ in range(2):
            log, dev = [], []
            np.random.seed(None)
            db, sb = ExactBackend(), StateSim()
            ideal = Channel(rng, False)
            m = gen_PEC_learning_based_MitEx(db, sb, simulator_mitex=recorder(sb, log, ideal, "sim"), device_mitex=recorder(db, dev, ideal, "dev"), num_cliff=4, seed=s)
            m.run([e.experiment()])
            logs.append([[str(g) for g in x[0].get_commands()] for x in log])
        mon.saw("pec_seeds")
        mon.check(logs[0] == logs[1], "the same seed trains on other circuits", exp=e.describe())
    mon.case((n, s), True, (n, s))
