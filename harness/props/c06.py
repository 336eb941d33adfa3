from pytket.circuit import Circuit, OpType, Qubit
from pytket.passes import AutoRebase, FullPeepholeOptimise
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry
from harness.exps import Exp, check_result
from qermit import (AnsatzCircuit, CircuitShots, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict)
from qermit.taskgraph import gen_compiled_MitRes
from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes, get_basic_measurement_circuit

REG = Registry("C06", "A case is a batch of random experiments (1-4 qubits with plain or mixed registers, symbols, up to "
               "six strings, arbitrary coefficients) run on an exact backend; each returned value is compared with the "
               "dense-matrix expectation. Non-trivial: some expectation not in {0}; distinct by experiments.",
               assumptions=["exact backend rounds probabilities to 1/400000"])


def mitex(rng):
    p = rng.choice([None, AutoRebase({OpType.CX, OpType.TK1}), FullPeepholeOptimise(allow_swaps=False)])
    be = ExactBackend(compile_pass=p)
    k = rng.random()
    if k < 0.5:
        return be, MitEx(be)
    if k < 0.8:
        return be, MitEx(be, mitres=MitRes(be))
    return be, MitEx(be, _label="mine", mitres=gen_compiled_MitRes(be, rng.randint(0, 2)))


@REG.facet(1600, 16000, needs={"expectations": 1500})
def batches(rng, mon):
    exps = [Exp(rng, complex_ok=True, n=rng.randint(1, 4), n_sym=rng.choice([0, 0, 1, 2, 3]), allow_identity=False)
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    be, mx = mitex(rng)
    out = mx.run([e.experiment() for e in exps])
    mon.check(len(out) == len(exps), "number of results differs from number of experiments", got=len(out), want=len(exps))
    for e, r in zip(exps, out):
        check_result(mon, e, r, "batch of %d" % len(exps))
    mon.check(all(j[1] in {e.shots for e in exps} for j in be.jobs), "shots differ")
    mon.case([e.describe() for e in exps], bool(exps), [e.describe() for e in exps][:1])


@REG.facet(600, 6000, needs={"expectations": 500})
def batch_independence(rng, mon):
    """Experiments give the same value alone, in any order, repeated, or sharing circuits / operators."""
    exps = [Exp(rng, complex_ok=True, n=rng.randint(1, 3), n_sym=rng.choice([0, 1])) for _ in range(rng.randint(1, 3))]
    base = exps[0]
    # same observable on another circuit over the same qubits
    other = Exp(rng, complex_ok=True, circ=gens.circuit(rng, qs=list(base.circ.qubits)), qpo=base.qpo)
    exps.append(other)
    order = exps + [rng.choice(exps)]
    rng.shuffle(order)
    be, mx = mitex(rng)
    shared_op = rng.random() < 0.5
    ws = []
    trackers = {}
    for e in order:
        w = e.experiment()
        if shared_op and e.qpo is base.qpo:
            # one tracker object describing the observable of several experiments
            t = trackers.setdefault(id(base.qpo), w.ObservableTracker)
            w = ObservableExperiment(w.AnsatzCircuit, t)
        ws.append(w)
    out = mx.run(ws)
    mon.check(len(out) == len(order), "number of results")
    for e, r in zip(order, out):
        check_result(mon, e, r, "shared tracker" if shared_op else "reordered batch")
    mon.case([e.describe() for e in order], True)


@REG.facet(600, 6000, needs={"expectations": 300})
def run_basic(rng, mon):
    exps = [Exp(rng, complex_ok=True, n=rng.randint(1, 4), n_sym=0) for _ in range(rng.randint(1, 3))]
    be, mx = mitex(rng)
    out = mx.run_basic([(CircuitShots(e.circ.copy(), e.shots), QubitPauliOperator(dict(e.qpo._dict))) for e in exps])
    mon.check(len(out) == len(exps), "number of results")
    for e, r in zip(exps, out):
        check_result(mon, e, r, "run_basic")
    mon.case([e.describe() for e in exps], True)


@REG.facet(500, 4000, needs={"expectations": 300})
def split_and_finite_shots(rng, mon):
    """Few shots, split over jobs: values equal those computed from exactly rounded counts."""
    n = rng.randint(1, 3)
    # stabiliser states: probabilities are dyadic, so counts are exact for shots divisible by 8
    e = [Exp(rng, complex_ok=True, n=rng.randint(1, 3), kind="clifford", n_sym=0, shots=8 * rng.randint(1, 40)) for _ in range(n)]
    be = ExactBackend()
    m = 8 * rng.randint(1, 20)
    mx = MitEx(be, mitres=gen_compiled_shot_split_MitRes(be, m))
    out = mx.run([x.experiment() for x in e])
    mon.check(len(out) == n, "number of results")
    for x, r in zip(e, out):
        check_result(mon, x, r, "shot splitting at %d" % m, tol=1e-9)
    mon.check(max(j[1] for j in be.jobs) <= m, "a job exceeds the maximum")
    mon.case([x.describe() for x in e] + [m], True)


@REG.facet(1000, 10000, needs={"measurement_circuits": 900})
def measurement_circuits(rng, mon):
    """The basis-change circuit maps the string's parity onto the reported bits, for every state."""
    import numpy as np

    qs = gens.new_qubits(rng, rng.randint(1, 4))
    s = gens.pauli_string(rng, qs)
    mc, (string, bits, invert) = get_basic_measurement_circuit(s)
    mon.saw("measurement_circuits")
    mon.check(string == s, "measurement info names another string", string=str(s), got=str(string))
    c = gens.circuit(rng, qs=qs, n_gates=rng.randint(0, 10))
    want = sim.expectation(c, s)
    full = c.copy()
    full.append(mc)
    d = sim.simulate(full)
    idx = [full.bits.index(b) for b in bits]
    got = sum(p * (-1) ** sum(k[i] for i in idx) for k, p in d.items()) * (-1) ** invert
    mon.check(abs(got - want) < 1e-9, "parity of measured bits is not the expectation", string=str(s),
              got=got, want=want, circ=gens.describe(c))
    mon.check(set(mc.qubits) <= set(qs), "measurement circuit touches other qubits")
    mon.case((str(s), gens.describe(c)), True, str(s))


@REG.facet(300, 3000)
def missing_qubits_rejected(rng, mon):
    e = Exp(rng, complex_ok=True, n=rng.randint(1, 3), n_sym=0)
    far = Qubit("absent", rng.randint(0, 3))
    d = dict(e.qpo._dict)
    items = list(d.items())
    s = QubitPauliString({**(gens.pauli_string(rng, list(e.circ.qubits)).map if rng.random() < 0.5 else {}), far: rng.choice(gens.PAULIS[1:])})
    items.insert(rng.randint(0, len(items)), (s, 1.0))
    be, mx = mitex(rng)
    good = Exp(rng, complex_ok=True, n=rng.randint(1, 2), n_sym=0)
    bad = ObservableExperiment(AnsatzCircuit(e.circ.copy(), e.shots, SymbolsDict()), ObservableTracker(QubitPauliOperator(dict(items))))
    batch = [good.experiment(), bad] if rng.random() < 0.5 else [bad]
    mon.rejects(Exception, lambda: mx.run(batch), "an observable on qubits the circuit lacks is accepted", obs=str(dict(items)))
    mon.check(not be.jobs, "jobs were sent for a rejected batch")
    # and the object still works
    r = mx.run([good.experiment()])
    check_result(mon, good, r[0], "after a rejected batch")
    mon.case((e.describe(), str(s)), True)


@REG.facet(300, 3000, needs={"expectations": 200})
def identity_strings(rng, mon):
    """Constant terms of an observable have expectation one."""
    e = Exp(rng, complex_ok=True, n=rng.randint(1, 3), n_sym=0)
    d = dict(e.qpo._dict)
    ident = QubitPauliString() if rng.random() < 0.5 else QubitPauliString(list(e.circ.qubits)[:1], [Pauli.I])
    items = list(d.items())
    items.insert(rng.randint(0, len(items)), (ident, rng.choice([1.0, -2.5, 0.25])))
    e.qpo = QubitPauliOperator(dict(items))
    be, mx = mitex(rng)
    r = mx.run([e.experiment()])
    check_result(mon, e, r[0], "observable with a constant term")
    mon.case(e.describe(), True)
