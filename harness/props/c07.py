import itertools

from pytket.circuit import OpType
from pytket.partition import GraphColourMethod, PauliPartitionStrat
from pytket.passes import AutoRebase, FullPeepholeOptimise
from pytket.pauli import Pauli, QubitPauliString
from pytket.transform import CXConfigType
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry
from harness.exps import SHOTS, Exp, check_result
from qermit import AnsatzCircuit, MeasurementCircuit, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx
from qermit.taskgraph.measurement_reduction import measurement_reduction_task_gen

REG = Registry("C07", "A case runs a batch of random experiments (1-4 qubits, up to ten strings, identities, symbols) through "
               "measurement reduction with a random strategy, colouring method and entangler layout, on its own or in front of "
               "a supplied expectation object, on an exact recording backend; every value is compared with the dense-matrix "
               "expectation and circuits are counted. Distinct by experiments and settings.",
               assumptions=["exact backend rounds probabilities to 1/400000"])

STRATS = [PauliPartitionStrat.NonConflictingSets, PauliPartitionStrat.CommutingSets]
METHODS = [GraphColourMethod.LargestFirst, GraphColourMethod.Exhaustive, GraphColourMethod.Lazy]
CXS = [CXConfigType.Snake, CXConfigType.Star, CXConfigType.Tree]


def settings(rng):
    kw = {}
    if rng.random() < 0.85:
        kw = dict(strategy=rng.choice(STRATS), method=rng.choice(METHODS), cx_config=rng.choice(CXS))
    elif rng.random() < 0.5:
        kw = dict(strategy=PauliPartitionStrat.CommutingSets)
    return kw


def exps_of(rng, n_max=3, nq=4):
    return [Exp(rng, complex_ok=True, n=rng.randint(1, nq), n_gates=rng.randint(1, 9), n_sym=rng.choice([0, 0, 1, 2]),
                n_strings=rng.choice([1, 2, 4, 7, 10]), allow_identity=rng.random() < 0.2)
            for _ in range(rng.randint(1, n_max))]


@REG.facet(900, 12000, needs={"expectations": 1500, "circuits_saved": 200})
def reduced_batches(rng, mon):
    exps = exps_of(rng)
    kw = settings(rng)
    be = ExactBackend(compile_pass=rng.choice([None, AutoRebase({OpType.CX, OpType.TK1}), FullPeepholeOptimise(allow_swaps=False)]))
    mx = gen_MeasurementReduction_MitEx(be, **kw)
    for r in range(rng.choice([1, 1, 2])):
        be.jobs.clear()
        out = mx.run([e.experiment() for e in exps])
        mon.check(len(out) == len(exps), "number of results differs from number of experiments")
        for e, x in zip(exps, out):
            check_result(mon, e, x, "with reduction %s (run %d)" % (kw, r))
        total = sum(len(e.qpo._dict) for e in exps)
        mon.check(len(be.jobs) <= total, "reduction runs more circuits than there are strings", jobs=len(be.jobs), strings=total, kw=str(kw))
        if len(be.jobs) < total:
            mon.saw("circuits_saved", total - len(be.jobs))
    mon.case([[e.describe() for e in exps], str(kw)], True, exps[0].describe())


def supplied(rng, be):
    k = rng.choice(["plain", "mitres", "compiled", "reduced", "twice"])
    if k == "plain":
        return k, MitEx(be)
    if k == "mitres":
        return k, MitEx(be, _label="own", mitres=MitRes(be))
    if k == "compiled":
        return k, MitEx(be, mitres=gen_compiled_MitRes(be, 0))
    if k == "reduced":
        return k, gen_MeasurementReduction_MitEx(be, **settings(rng))
    return k, gen_MeasurementReduction_MitEx(be, mitex=gen_MeasurementReduction_MitEx(be, **settings(rng)), **settings(rng))


@REG.facet(500, 6000, needs={"expectations": 600})
def in_front_of_supplied(rng, mon):
    exps = exps_of(rng, 2, 3)
    be = ExactBackend()
    kind, inner = supplied(rng, be)
    kw = settings(rng)
    label, n = inner.label, len(inner.tasks)
    mx = gen_MeasurementReduction_MitEx(be, mitex=inner, **kw)
    if rng.random() < 0.3:
        mx.decompose_TaskGraph_nodes()
    mon.check(inner.label == label and len(inner.tasks) == n, "generating reduction changed the supplied object", kind=kind)
    runs = ["with", "alone", "with"]
    rng.shuffle(runs)
    for r in runs[:2]:
        out = (mx if r == "with" else inner).run([e.experiment() for e in exps])
        mon.check(len(out) == len(exps), "number of results")
        for e, x in zip(exps, out):
            check_result(mon, e, x, "reduction in front of %s, run %s" % (kind, r), kw=str(kw))
    mon.case([kind, [e.describe() for e in exps], str(kw)], True, kind)


@REG.facet(400, 4000, needs={"expectations": 500})
def premeasured_strings(rng, mon):
    """Strings for which the user already registered a measurement keep it, and are not counted twice."""
    e = Exp(rng, complex_ok=True, n=rng.randint(1, 3), n_sym=0, n_strings=rng.randint(1, 6))
    kw = settings(rng)
    be = ExactBackend()
    mx = gen_MeasurementReduction_MitEx(be, **kw)
    w = e.experiment()
    from qermit.taskgraph.mitex import get_basic_measurement_circuit

    done = rng.sample(list(e.qpo._dict), rng.randint(0, len(e.qpo._dict)))
    for s in done:
        mc, info = get_basic_measurement_circuit(s)
        full = e.circ.copy()
        full.append(mc)
        w.ObservableTracker.add_measurement_circuit(MeasurementCircuit(full, SymbolsDict()), [info])
    out = mx.run([w])
    check_result(mon, e, out[0], "%d of %d strings measured by the user" % (len(done), len(e.qpo._dict)), kw=str(kw))
    mon.check(len(be.jobs) <= len(e.qpo._dict), "more circuits than strings")
    mon.case([e.describe(), len(done), str(kw)], True)


@REG.facet(600, 6000, needs={"measured_strings": 1000})
def task_bookkeeping(rng, mon):
    """Every string is measured exactly once, by a circuit whose bits give its expectation in the experiment's own state."""
    exps = exps_of(rng, 3, 3)
    kw = dict(strategy=rng.choice(STRATS), method=rng.choice(METHODS), cx_config=rng.choice(CXS))
    task = measurement_reduction_task_gen(*kw.values())
    (wires,) = task([[e.experiment() for e in exps]])
    mon.check(len(wires) == len(exps), "experiments are lost")
    for e, w in zip(exps, wires):
        t = w.ObservableTracker
        mon.check(w.AnsatzCircuit.Circuit == e.circ and w.AnsatzCircuit.Shots == e.shots, "experiment changed")
        mon.check(set(t.qubit_pauli_operator._dict) == set(e.qpo._dict), "strings changed", kw=str(kw))
        mon.check(not t.get_empty_strings(), "a string has no measurement", strings=str(t.get_empty_strings()), exp=e.describe(), kw=str(kw))
        mon.check(len(t.measurement_circuits) <= len(e.qpo._dict), "more circuits than strings", kw=str(kw))
        for s in e.qpo._dict:
            mon.check(len(t.get_measurement_circuits(s)) == 1, "a string is measured more than once", string=str(s), kw=str(kw), exp=e.describe())
            mon.saw("measured_strings")
    mon.case([[e.describe() for e in exps], str(kw)], True)
