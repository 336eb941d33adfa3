"""C21: Clifford-data regression learns from the right data and corrects each string with it."""
import hashlib
import math
import warnings
from collections import Counter
from typing import List, Tuple

import numpy as np
from pytket.circuit import OpType
from pytket.passes import AutoRebase
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import Exp, canon
from qermit import MitEx, MitTask, ObservableExperiment, TaskGraph
from qermit.clifford_noise_characterisation import gen_CDR_MitEx
from qermit.clifford_noise_characterisation.ccl import gen_state_circuits, sample_weighted_clifford_angle
from qermit.clifford_noise_characterisation.cdr_post import _PolyCDRCorrect, cdr_quality_check_task_gen

REG = Registry("C21", "A case generates training circuits of a random circuit and aligns them with a reference rebase, or runs a batch through the "
               "regression with inner expectation objects that record what they are given and answer with arbitrary values per circuit and "
               "string (the reference regresses those), or on exact backends with damped expectations. Distinct by circuits and settings.",
               assumptions=["angles within rounding of a Clifford angle are left out", "fits of training data without enough distinct values are not decided"])

SHOTS = 10 ** 8
CLIFF = {0, 0.5, 1.0, 1.5, 2, 2.5, 3, 3.5}


def reference(c):
    d = c.copy()
    d.replace_implicit_wire_swaps()
    AutoRebase({OpType.CX, OpType.Rz, OpType.H}).apply(d)
    return d


def plain(c):
    return [g for g in c.get_commands() if g.op.type != OpType.Barrier]


def near_clifford(x):
    return any(abs(x - a) < 1e-9 for a in [*CLIFF, 4])


def per_qubit(c):
    """Gates (barriers aside) along every qubit: independent of the order commands are listed in."""
    out = {q: [] for q in c.qubits}
    for i, g in enumerate(plain(c)):
        for q in g.qubits:
            out[q].append((g.op.type, tuple(g.qubits), g.op.params))
    return out


def skeleton(c):
    return {q: [(t, a) for t, a, _ in l] for q, l in per_qubit(c).items()}


def angles(c):
    """Angles of Rz gates by (qubit, position)."""
    return {(q, i): float(p[0]) for q, l in per_qubit(c).items() for i, (t, a, p) in enumerate(l) if t == OpType.Rz}


def circuit(rng, n=None, rotations=None):
    qs = gens.new_qubits(rng, n or rng.randint(1, 4))
    c = gens.blank(qs)
    k = rng.choice([0, 1, 1, 2, 3, 5, 8]) if rotations is None else rotations
    todo = ["r"] * k + ["c"] * rng.randint(0, 8)
    rng.shuffle(todo)
    for t in todo:
        if t == "r":
            o = rng.choice([OpType.Rz, OpType.Rx, OpType.Ry, OpType.Rz, OpType.T])
            q = [rng.choice(qs)]
            if rng.random() < 0.1:
                gens.zoo_gate(rng, c, qs)
            elif o == OpType.T:
                c.add_gate(o, q)
            else:
                c.add_gate(o, round(rng.uniform(0, 4), 3), q)
        elif len(qs) > 1 and rng.random() < 0.5:
            c.add_gate(rng.choice([OpType.CX, OpType.CZ, OpType.SWAP, OpType.CY]), rng.sample(qs, 2))
        else:
            c.add_gate(rng.choice(gens.CLIFF1), [rng.choice(qs)])
    if rng.random() < 0.2:
        c.replace_SWAPs()
    if rng.random() < 0.15:
        c.add_barrier(qs)
    return c


def non_cliffords(ref):
    a = angles(ref)
    if any(near_clifford(x) and x not in CLIFF for x in a.values()):
        raise SkipCase  # rounding decides whether the gate counts as Clifford
    return {k: x for k, x in a.items() if x not in CLIFF}


def check_training(mon, ref, t, n_keep, **w):
    mon.check(list(t.qubits) == list(ref.qubits), "qubits of a training circuit", got=str(t.qubits), **w)
    mon.check(all(k == v for k, v in t.implicit_qubit_permutation().items()) and skeleton(t) == skeleton(ref),
              "a training circuit has other gates than the experiment's", got=gens.describe(t), **w)
    nc = non_cliffords(ref)
    a, b = angles(ref), angles(t)
    kept = 0
    for k in a:
        if k not in nc:
            mon.check(abs(a[k] - b[k]) < 1e-9, "a Clifford gate was altered in a training circuit", at=str(k), got=b[k], want=a[k], **w)
        elif near_clifford(b[k]):
            pass
        else:
            mon.check(abs(a[k] - b[k]) < 1e-9, "an angle is neither the original one nor Clifford", at=str(k), got=b[k], want=a[k], **w)
            kept += 1
    want = min(n_keep, max(len(nc) - 1, 0)) if nc else 0
    mon.check(kept == want, "number of non-Clifford gates kept", got=kept, want=want, available=len(nc), **w)


@REG.facet(700, 9000, needs={"training_circuits": 1200, "named": 100, "implicit": 12, "single": 40, "refused": 60})
def training_circuits(rng, mon):
    c = circuit(rng)
    if rng.random() < 0.3:
        for b in gens.bits(rng, c.n_qubits):
            c.add_bit(b)
        for q, b in zip(c.qubits, c.bits):
            c.Measure(q, b)
    before = c.copy()
    ref = reference(c)
    nc = non_cliffords(ref)
    n, pairs = rng.randint(0, 6), rng.randint(0, 6)
    total = rng.randint(1, 6)
    if pairs > n:
        mon.saw("refused")
        mon.rejects(ValueError, lambda: gen_state_circuits(c, n, pairs, total), "more pairs than gates kept are not refused", n=n, pairs=pairs)
        pairs = n
        c = before.copy()
    kw = {"seed": rng.getrandbits(31)} if rng.random() < 0.5 else {}
    out = gen_state_circuits(c, n, pairs, total, **kw)
    w = dict(circ=gens.describe(before), n=n, pairs=pairs, total=total)
    mon.check(len(out) == total, "number of training circuits", got=len(out), **w)
    mon.check(c == before, "the circuit given was changed", after=gens.describe(c), **w)
    if any(q.reg_name != "q" for q in c.qubits):
        mon.saw("named")
    if any(k != v for k, v in c.implicit_qubit_permutation().items()):
        mon.saw("implicit")
    if len(nc) == 1:
        mon.saw("single")
    for t in out:
        mon.saw("training_circuits")
        check_training(mon, ref, t, n, **w)
        mon.check(list(t.bits) == list(before.bits) and
                  Counter(str(g) for g in t.get_commands() if g.op.type == OpType.Measure)
                  == Counter(str(g) for g in before.get_commands() if g.op.type == OpType.Measure), "bits or measurements of a training circuit", **w)
    if kw:
        again = gen_state_circuits(before.copy(), n, pairs, total, **kw)
        mon.check(all(x == y for x, y in zip(out, again)), "training circuits are not reproducible from the seed", **w)
    mon.case((w["circ"], n, pairs, total), bool(nc), w)


@REG.facet(60, 600, needs={"angles": 50})
def clifford_angles(rng, mon):
    """Only powers of S are drawn, with the frequencies of the weights documented (Hoeffding, 1e-12)."""
    a = round(rng.uniform(0, 2), 3)
    if rng.random() < 0.3:
        a = rng.choice([0.0, 0.5, 1.0, 1.5])
    mon.saw("angles")
    N = 1500
    got = Counter(sample_weighted_clifford_angle(a + rng.choice([0, 2])) for _ in range(N))
    mon.check(set(got) <= {0, 0.5, 1.0, 1.5}, "an angle drawn is not Clifford", angle=a, got=str(got))
    rz = lambda x: np.diag([np.exp(-0.5j * np.pi * x), np.exp(0.5j * np.pi * x)])
    ws = [math.exp(-4 * np.linalg.norm(rz(a) - rz(k / 2)) ** 2) for k in range(4)]
    eps = math.sqrt(math.log(2e12) / (2 * N))
    for k in range(4):
        mon.check(abs(got[k / 2] / N - ws[k] / sum(ws)) <= eps, "frequency of a Clifford angle", angle=a, n=k, got=got[k / 2] / N, want=ws[k] / sum(ws))
    mon.case(a, True, a)


class SimBackend(ExactBackend):
    """Exact expectation values, as the noiseless simulator the training circuits are screened with."""
    _supports_expectation = True
    _expectation_allows_nonhermitian = True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.screened = 0

    def valid_circuit(self, c):
        return True

    def get_operator_expectation_value(self, c, op):
        self.screened += 1
        v = sim.statevector(c)
        return sum(complex(co) * (v.conj() @ (sim.pauli_matrix(s, c.qubits) @ v)) for s, co in op._dict.items())

    def get_pauli_expectation_value(self, c, s):
        return self.get_operator_expectation_value(c, QubitPauliOperator({s: 1}))


def recorder(be, log, fn, name):
    def task(obj, exps: List[ObservableExperiment]) -> Tuple[List[QubitPauliOperator]]:
        out = []
        for e in exps:
            c = e.AnsatzCircuit.Circuit.copy()
            if e.AnsatzCircuit.SymbolsDict._symbolic_map:
                c.symbol_substitution(dict(e.AnsatzCircuit.SymbolsDict._symbolic_map))
            ops = dict(e.ObservableTracker.qubit_pauli_operator._dict)
            log.append((c, e.AnsatzCircuit.Shots, ops))
            out.append(QubitPauliOperator({s: complex(co).real * fn(c, s) for s, co in ops.items()}))
        return (out,)

    tg = TaskGraph(name)
    tg.append(MitTask(_label=name, _n_in_wires=1, _n_out_wires=1, _method=task))
    return MitEx(be, _label=name).from_TaskGraph(tg)


def hashed(seed):
    def value(c, s):
        h = hashlib.sha256(("%s|%s|%s" % (seed, [str(g) for g in c.get_commands()], canon(s))).encode()).digest()
        return int.from_bytes(h[:4], "big") / 2 ** 31 - 1

    return value


def experiments(rng, n, syms=True):
    """Experiments told apart by the structure of their circuits."""
    out, seen = [], []
    while len(out) < n:
        e = Exp(rng, circ=circuit(rng, rng.randint(1, 3), rng.randint(2, 6)), n_strings=rng.randint(1, 4), shots=rng.choice([50, 777, 4000]))
        if syms and rng.random() < 0.4:
            s = gens.symbols(rng, 1)
            for _ in range(rng.randint(1, 2)):
                e.circ.add_gate(rng.choice([OpType.Rx, OpType.Rz, OpType.Ry]), s[0], [rng.choice(e.circ.qubits)])
            e.syms, e.vals = s, {s[0]: round(rng.uniform(0, 2), 3)}
        e.ref = reference(e.concrete())
        non_cliffords(e.ref)
        sk = str(skeleton(e.ref))
        if sk in seen:
            continue
        seen.append(sk)
        out.append(e)
    return out


@REG.facet(220, 2600, needs={"training": 1000, "strings": 200, "filtered": 20, "reruns": 40, "symbolic": 60, "warned": 30, "unwarned": 30})
def alignment(rng, mon):
    seed = rng.getrandbits(32)
    exps = experiments(rng, rng.choice([0, 1, 1, 2, 3]))
    mode = rng.choice(["arbitrary", "arbitrary", "affine"])
    exact = hashed(seed)
    if mode == "affine":
        f, g = rng.uniform(0.3, 1.0), rng.uniform(-0.1, 0.1)
        if rng.random() < 0.3:
            f, g = 1.0, 0.0
        noisy = lambda c, s: f * exact(c, s) + g
    else:
        noisy = hashed(seed + 1)
    logs = {"sim": [], "dev": [], "exp": []}
    sb, db = SimBackend(), ExactBackend()
    total = rng.randint(3, 7)
    n = rng.randint(0, 4)
    pairs = rng.randint(0, n)
    deg = rng.choice([1, 1, 2])
    kw = dict(states_simulator_mitex=recorder(sb, logs["sim"], exact, "sim"), states_device_mitex=recorder(db, logs["dev"], noisy, "dev"),
              experiment_mitex=recorder(db, logs["exp"], noisy, "exp"))
    labels = {k: [m.label] + [t.label for t in m.tasks] for k, m in kw.items()}
    given = dict(kw)
    if deg != 1 or rng.random() < 0.3:
        kw["model"] = _PolyCDRCorrect(deg)
    keep = None
    if rng.random() < 0.35:
        # accept by a property of the pair only
        keep = lambda a, b: 1 if sum(complex(v).real for v in a._dict.values()) < 0.6 * len(a._dict) else 0
        kw["likelihood_function"] = keep
    if rng.random() < 0.3:
        kw["tolerance"] = rng.choice([0.0, 0.5, 10.0])
        kw["max_state_circuits_attempts"] = rng.choice([1, 3])
    far, frac = 0.1, 0.5
    if rng.random() < 0.6:
        kw["distance_tolerance"] = far = rng.choice([0.02, 0.3, 0.6, 1.0])
    if rng.random() < 0.6:
        kw["calibration_fraction"] = frac = rng.choice([0.0, 0.25, 0.7, 0.95])
    cdr = gen_CDR_MitEx(db, sb, n, pairs, total, **kw)
    w = dict(far=far, frac=frac, exps=[e.describe() for e in exps], n=n, pairs=pairs, total=total, degree=deg, mode=mode, filtered=keep is not None)
    for k, m in given.items():
        mon.check(labels[k] == [m.label] + [t.label for t in m.tasks], "the expectation object given was changed", which=k, **w)
    batches = [exps]
    if rng.random() < 0.4:
        batches.append(rng.sample(exps, rng.randint(0, len(exps))))
        mon.saw("reruns")
    for batch in batches:
        for l in logs.values():
            l.clear()
        objs = [e.experiment() for e in batch]
        with warnings.catch_warnings(record=True) as issued:
            warnings.simplefilter("always")
            out = cdr.run(objs)
        warned = any("Training data" in str(x.message) for x in issued)
        must, may = False, False
        for e, o in zip(batch, objs):
            mon.check(o.AnsatzCircuit.Circuit == e.circ, "the user's circuit was changed", **w)
        mon.check(len(out) == len(batch), "number of results", got=len(out), **w)
        mon.check(len(logs["exp"]) == len(batch), "number of experiments measured", got=len(logs["exp"]), **w)
        mon.check(len(logs["sim"]) == len(logs["dev"]) == total * len(batch), "number of training circuits measured",
                  got=(len(logs["sim"]), len(logs["dev"])), want=total * len(batch), **w)
        for e, o in zip(batch, out):
            sk = skeleton(e.ref)
            dev = [x for x in logs["dev"] if skeleton(x[0]) == sk]
            sm = [x for x in logs["sim"] if skeleton(x[0]) == sk]
            mon.check(len(dev) == len(sm) == total, "training circuits of an experiment", got=(len(dev), len(sm)), one=e.describe(), **w)
            for x in dev + sm:
                mon.saw("training")
                check_training(mon, e.ref, x[0], n, one=e.describe(), **w)
                mon.check(x[1] == e.shots and {canon(s): complex(v) for s, v in x[2].items()} == {canon(s): complex(v) for s, v in e.qpo._dict.items()},
                          "shots or observable of a training circuit", got=str(x[1:]), **w)
            key = lambda x: str([str(g) for g in x[0].get_commands()])
            mon.check(Counter(map(key, dev)) == Counter(map(key, sm)), "noisy and exact values come from different training circuits", **w)
            mine = [x for x in logs["exp"] if x[0] == e.concrete()]
            mon.check(len(mine) >= 1, "the experiment itself was not measured", **w)
            if e.vals:
                mon.saw("symbolic")
            mon.check(set(o._dict) == set(e.qpo._dict), "strings returned", got=str(list(o._dict)), **w)
            # more than the accepted fraction of its training values lie too far from the experiment's own: (surely, perhaps)
            over = []
            for s, co in e.qpo._dict.items():
                gaps = [abs(complex(co).real * (noisy(x[0], s) - noisy(e.concrete(), s))) for x in dev]
                over.append((sum(d > far + 1e-6 for d in gaps) > frac * total + 1e-9, sum(d > far - 1e-6 for d in gaps) > frac * total - 1e-9))
            must |= all(o1 for o1, _ in over)
            may |= any(o2 for _, o2 in over)
            pairs_ = []
            for x in dev:
                a = {s: complex(co).real * noisy(x[0], s) for s, co in e.qpo._dict.items()}
                b = {s: complex(co).real * exact(x[0], s) for s, co in e.qpo._dict.items()}
                if keep is None or keep(QubitPauliOperator(a), QubitPauliOperator(b)):
                    pairs_.append((a, b))
            if keep is not None:
                mon.saw("filtered", len(dev) - len(pairs_))
            for s, co in e.qpo._dict.items():
                xs, ys = [a[s] for a, _ in pairs_], [b[s] for _, b in pairs_]
                raw = complex(co).real * noisy(e.concrete(), s)
                if not xs:
                    mon.check(abs(complex(o._dict[s]) - raw) < 1e-9, "a string without training data is not left as measured", got=str(o._dict[s]), want=raw, **w)
                    continue
                xd = sorted(set(round(x, 9) for x in xs))
                if not any(xs):
                    # only a constant can be fitted
                    mon.saw("zeros")
                    mon.check(abs(complex(o._dict[s]) - sum(ys) / len(ys)) < 1e-9 or raw != 0, "a string whose noisy training values are zero is not "
                              "corrected by the mean of the exact ones", string=str(s), got=str(o._dict[s]), ys=ys, one=e.describe(), **w)
                    continue
                if len(xd) < deg + 1 or min(b - a for a, b in zip(xd, xd[1:])) < 1e-2 * abs(complex(co)):
                    mon.saw("degenerate")
                    continue
                mon.saw("strings")
                want = (raw - g * complex(co).real) / f if mode == "affine" else float(np.polyval(np.polyfit(xs, ys, deg), raw))
                mon.check(abs(complex(o._dict[s]) - want) < 1e-5 * max(1, abs(want)), "a string is not corrected by the fit of its own training data",
                          string=str(s), got=str(o._dict[s]), want=want, xs=xs, ys=ys, raw=raw, one=e.describe(), **w)
        mon.check(warned or not must, "training data far from an experiment's own value raises no warning", **w)
        mon.check(may or not warned, "a warning of training data far from the experiment's own value, which it is not", **w)
        mon.saw("warned" if must else "unwarned" if not may else "either")
    mon.case(w, bool(exps), w)


@REG.facet(300, 3000, needs={"warned": 25, "unwarned": 60, "singly_unwarned": 20})
def warnings_issued(rng, mon):
    """The quality check warns if and only if it should, and hands on what it is given."""
    far, frac = rng.choice([0.0, 0.05, 0.1, 0.5]), rng.choice([0.0, 0.3, 0.5, 0.75, 1.0])
    total = rng.randint(1, 6)
    raws, data, over, all_far = [], [], [], 0
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        qs = gens.new_qubits(rng, rng.randint(1, 3))
        ss = list(gens.observable(rng, qs, rng.choice([1, 1, 2, 3]))._dict)
        k = rng.choice([x for x in range(total + 1) if x <= frac * total + 1e-9]) if rng.random() < 0.75 else rng.randint(0, total)
        raw = {s: round(rng.uniform(-1, 1), 3) for s in ss}
        pairs = []
        for i in range(total):
            noisy = {s: raw[s] + rng.choice([-1, 1]) * (far + rng.uniform(0.01, 0.3) if i < k else far * rng.uniform(0, 0.95)) for s in ss}
            pairs.append((QubitPauliOperator(noisy), QubitPauliOperator({s: rng.uniform(-1, 1) for s in ss})))
        rng.shuffle(pairs)
        raws.append(QubitPauliOperator(raw))
        data.append(pairs)
        over.append(k > frac * total + 1e-9)
        all_far += k
    show = lambda: str([dict(r._dict) for r in raws]) + str([[(dict(a._dict), dict(b._dict)) for a, b in p] for p in data])
    before = show()
    task = cdr_quality_check_task_gen(distance_tolerance=far, calibration_fraction=frac)
    with warnings.catch_warnings(record=True) as issued:
        warnings.simplefilter("always")
        out = task((raws, data))
    warned = any("Training data" in str(x.message) for x in issued)
    w = dict(far=far, frac=frac, total=total, values=before)
    mon.check(warned == any(over), "a warning is raised for good training data" if warned else "no warning is raised for bad training data", over=over, **w)
    mon.check(len(out) == 2 and list(out[0]) == raws and list(map(list, out[1])) == data and show() == before, "the quality check alters the data", **w)
    mon.saw("warned" if any(over) else "unwarned")
    if not any(over) and all_far > frac * total:
        mon.saw("singly_unwarned")
    mon.case((far, frac, before), bool(raws), w)


@REG.facet(160, 1600, needs={"corrected": 25, "noisy": 25})
def end_to_end(rng, mon):
    """Default inner objects on an exact simulator and a damping device: the damping is removed."""
    e = Exp(rng, circ=circuit(rng, rng.randint(1, 3), rng.randint(2, 6)), n_strings=1, shots=SHOTS)
    if any(near_clifford(x) and x not in CLIFF for x in angles(reference(e.circ)).values()):
        raise SkipCase
    f = rng.choice([1.0, 0.9, 0.6, 0.35])

    def noise(c, d):
        k = len(c.bits)
        out = {key: f * v for key, v in d.items()}
        for i in range(2 ** k):
            key = tuple((i >> j) & 1 for j in range(k))
            out[key] = out.get(key, 0) + (1 - f) / 2 ** k
        return out

    sb, db = SimBackend(), ExactBackend(noise=noise)
    total, n = rng.randint(4, 8), rng.randint(1, 4)
    cdr = gen_CDR_MitEx(db, sb, n, rng.randint(0, n), total)
    obj = e.experiment()
    (out,) = cdr.run([obj])
    mon.check(obj.AnsatzCircuit.Circuit == e.circ, "the user's circuit was changed", exp=e.describe())
    mon.check(len(sb.jobs) == total and len(db.jobs) == total + 1, "number of circuits run", got=(len(sb.jobs), len(db.jobs)), want=(total, total + 1))
    mon.check(all(j[1] == SHOTS for j in sb.jobs + db.jobs), "shots")
    vals = []
    for c, _, _ in sb.jobs:
        vals.append(sum(p * (-1) ** sum(k) for k, p in sim.simulate(c).items()))
    want = e.expected()
    mon.check(set(out._dict) == set(want), "strings returned")
    if f < 1:
        mon.saw("noisy")
    if max(vals) - min(vals) > 0.05:
        mon.saw("corrected")
        for s, (co, x) in want.items():
            mon.check(abs(complex(out._dict[s]) - co * x) < 1e-4 * max(1, abs(co)), "damping is not removed", got=str(out._dict[s]), want=co * x, f=f,
                      training=vals, exp=e.describe())
    mon.case((e.describe(), f), True, {"exp": e.describe(), "f": f})
