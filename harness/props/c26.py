"""C26: seeds fix random choices, within a process and across processes; without a seed choices vary."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from pytket.circuit import OpType, Qubit
from pytket.pauli import Pauli

from harness import gens
from harness.backend import ExactBackend
from harness.core import ROOT, Registry
from harness.exps import Exp
from harness.props.c17 import distribution
from harness.props.c21 import SimBackend, circuit as training_circuit
from harness.props.c24 import StateSim, trainable
from qermit import CircuitShots, MitEx, MitRes
from qermit.clifford_noise_characterisation import gen_CDR_MitEx, gen_DFSC_MitEx
from qermit.clifford_noise_characterisation.ccl import ccl_likelihood_filtering_task_gen, gen_state_circuits, sample_weighted_clifford_angle
from qermit.coherent_pauli_checks import OptimalPauliSampler, RandomPauliSampler, gen_coherent_pauli_check_mitres
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.noise_model import ErrorDistribution, NoiseModel, PauliErrorTranspile
from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
from qermit.probabilistic_error_cancellation.cliff_circuit_gen import random_clifford_circ
from qermit.spam import gen_UnCorrelated_SPAM_MitRes
from qermit.taskgraph import gen_MeasurementReduction_MitEx
from qermit.zero_noise_extrapolation import Folding, gen_ZNE_MitEx

REG = Registry("C26", "A case is a program which draws its input from a number, builds a mitigation with a seed (or a seeded generator, or after seeding "
               "the global generators where the method takes none), runs it and records every circuit and shot count that reaches a backend and every "
               "value returned. It is repeated in the same process after other random work, or in other processes with other hash seeds, and the "
               "records are compared; or it is repeated with other seeds and the records must not all be equal. Distinct by program and number.",
               assumptions=["frame randomisation draws its frames in tket, which takes no seed", "objects are built and run in the same order after seeding"])


def seed_all(s):
    random.seed(s)
    np.random.seed(s % 2 ** 32)


def jobs(*backends):
    return [(i, [str(g) for g in c.get_commands()], str(c.qubits), str(c.bits), n) for i, b in enumerate(backends) for c, n, _ in b.jobs]


def values(out):
    # the last digits of sums depend on the order of independent terms
    return [sorted((str(s), "%.7f" % complex(v).real) for s, v in o._dict.items()) for o in out]


def counts(out):
    return [sorted(r.get_counts().items()) for r in out]


def generator(s):
    return np.random.default_rng(s)


# Each program: f(rng, s) with rng fixing the input and s the user's seed; returns (input, record)

def states(rng, s):
    c = training_circuit(rng, rng.randint(1, 3), rng.randint(3, 8))
    out = gen_state_circuits(c, rng.randint(0, 3), 0, 5, seed=s)
    return gens.describe(c), [gens.describe(x) for x in out]


def angles(rng, s):
    a = rng.uniform(0, 4)
    return a, [sample_weighted_clifford_angle(a, seed=s) for _ in range(1)]


def likelihood(rng, s):
    n = rng.randint(5, 30)
    pairs = [[(i, i + 1) for i in range(n)] for _ in range(rng.randint(1, 3))]
    t = ccl_likelihood_filtering_task_gen(lambda a, b: 0.5, seed=s)
    random.seed()  # this seed is that of the filter itself, whatever happened since it was made
    return n, t([pairs])


def cdr(rng, s):
    e = Exp(rng, circ=training_circuit(rng, rng.randint(1, 3), rng.randint(3, 6)), n_strings=rng.randint(1, 2), shots=10 ** 5)
    seed_all(s)
    sb, db = SimBackend(), ExactBackend()
    m = gen_CDR_MitEx(db, sb, 2, 1, 4, max_state_circuits_attempts=3)
    out = m.run([e.experiment()])
    return e.describe(), [jobs(sb, db), values(out)]


def zne(rng, s):
    fold = rng.choice([Folding.gate, Folding.gate, Folding.two_qubit_gate] if hasattr(Folding, "two_qubit_gate") else [Folding.gate])
    while True:
        e = Exp(rng, n=rng.randint(2, 3), n_gates=rng.randint(4, 8), n_strings=rng.randint(1, 2), shots=10 ** 5)
        if fold == Folding.gate or sum(1 for g in e.circ.get_commands() if len(g.qubits) == 2) > 2:
            break
    be = ExactBackend()
    m = gen_ZNE_MitEx(be, [1, 1.4, 2.2], folding_type=fold, seed=s, optimisation_level=0)
    out = m.run([e.experiment()])
    return e.describe(), [jobs(be), values(out)]


def model(rng, s):
    ops = {OpType.CX: 2, OpType.H: 1, OpType.S: 1, OpType.CZ: 2, OpType.Rz: 1}
    return NoiseModel({o: ErrorDistribution(distribution(rng, n=ops[o], explicit=False)[0], **({} if s is None else {"rng": generator(s + i)}))
                       for i, o in enumerate(rng.sample(list(ops), rng.randint(1, 4)))})


def samples(rng, s):
    d, n = distribution(rng, explicit=False)
    e = ErrorDistribution(d, rng=generator(s))
    first = [str(e.sample()) for _ in range(40)]
    e.reset_rng(generator(s))
    return str(d), [first, [str(e.sample()) for _ in range(40)]]


def noisy_circuits(rng, s):
    late = rng.random() < 0.5
    m = model(rng, None if late else s)
    c = gens.measured(rng, n_gates=rng.randint(5, 12))
    if late:
        m.reset_rng(generator(s))
    out = []
    for _ in range(6):
        d = c.copy()
        PauliErrorTranspile(m).apply(d)
        out.append(gens.describe(d))
    return [gens.describe(c), str(m.to_dict())], out


def propagated(rng, s):
    m = model(rng, s)
    qs = gens.new_qubits(rng, 3)
    c = gens.blank(qs)
    for _ in range(rng.randint(4, 9)):
        o = rng.choice([OpType.H, OpType.S, OpType.CX, OpType.CZ])
        c.add_gate(o, rng.sample(qs, 1 if o in (OpType.H, OpType.S) else 2))
    out = m.counter_propagate(c, 30)
    return [gens.describe(c), str(m.to_dict())], sorted((str(k), v) for k, v in out.items())


def checks(rng, s):
    c = gens.measured(rng, n=rng.randint(1, 2), n_gates=rng.randint(2, 6))
    if rng.random() < 0.6:
        sam = RandomPauliSampler(rng.randint(1, 2), rng=generator(s))
    else:
        sam = OptimalPauliSampler(model(rng, s), rng.randint(1, 2))
    be = ExactBackend()
    r = gen_coherent_pauli_check_mitres(be, sam).run([CircuitShots(c.copy(), 1000)] * rng.randint(1, 2))
    return gens.describe(c), [jobs(be), counts(r)]


def pec(rng, s):
    e = Exp(rng, circ=trainable(rng, 2, 2), n_strings=1, shots=10 ** 5)
    sb, db = StateSim(), ExactBackend()
    m = gen_PEC_learning_based_MitEx(db, sb, num_cliff=2, seed=s)
    out = m.run([e.experiment()])
    # values are rounded before, as least squares are solved by other code
    return e.describe(), [jobs(sb, db), [sorted(str(k) for k in o._dict) for o in out]]


def cliffords(rng, s):
    n = rng.randint(1, 5)
    return n, [gens.describe(random_clifford_circ(n, seed=s + k)) for k in range(3)]


def reduction(rng, s):
    es = [Exp(rng, n_strings=rng.randint(1, 6), shots=10 ** 5) for _ in range(rng.randint(1, 2))]
    be = ExactBackend()
    out = gen_MeasurementReduction_MitEx(be).run([e.experiment() for e in es])
    return [e.describe() for e in es], [jobs(be), values(out)]


def readout(rng, s):
    k = rng.randint(2, 4)
    c = gens.measured(rng, n=2, n_gates=4, plain=True)
    be = ExactBackend(n_qubits=k)
    m = gen_UnCorrelated_SPAM_MitRes(be, 1000)
    r = m.run([CircuitShots(c, 1000)])
    return gens.describe(c), [jobs(be), counts(r)]


def plain(rng, s):
    es = [Exp(rng, n_strings=rng.randint(1, 4), n_sym=rng.randint(0, 2), shots=10 ** 5) for _ in range(rng.randint(1, 3))]
    be = ExactBackend()
    out = MitEx(be).run([e.experiment() for e in es])
    return [e.describe() for e in es], [jobs(be), values(out)]


RANDOM = [states, angles, likelihood, cdr, zne, samples, noisy_circuits, propagated, checks, pec, cliffords]
FIXED = [reduction, readout, plain]
NAMES = {f.__name__: f for f in RANDOM + FIXED}


def record(name, k, s):
    seed_all(k + 1)
    given, got = NAMES[name](random.Random("%s/%d" % (name, k)), s)
    return [json.loads(json.dumps(x, default=str)) for x in (given, got)]


def compare(mon, name, a, b, how, **w):
    if a[0] != b[0]:
        mon.saw("other_input")
        return False
    mon.saw("records")
    diff = ""
    if a[1] != b[1]:
        x, y = json.dumps(a[1]), json.dumps(b[1])
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        diff = (x[max(0, i - 200):i + 200], y[max(0, i - 200):i + 200])
    mon.check(a[1] == b[1], "the same seed gives another run " + how, program=name, diff=diff, given=a[0], **w)
    return True


@REG.facet(160, 1600, needs={"records": 150})
def again(rng, mon):
    name = rng.choice(RANDOM).__name__
    k, s = rng.randrange(10 ** 6), rng.randrange(2 ** 31)
    a = record(name, k, s)
    for _ in range(rng.randint(0, 3)):
        # other work in between
        random.seed()
        np.random.seed(None)
        random.random(), np.random.rand(rng.randint(1, 9))
        if rng.random() < 0.3:
            record(rng.choice(["states", "samples", "cliffords", "angles"]), rng.randrange(1000), rng.randrange(1000))
    b = record(name, k, s)
    compare(mon, name, a, b, "in the same process", seed=s)
    mon.saw(name)
    mon.case((name, k, s), True, (name, a[0]))


@REG.facet(24, 200, needs={"records": 150, "children": 20})
def other_processes(rng, mon):
    """The same programs in an interpreter with another hash seed."""
    todo = [[rng.choice(list(NAMES)), rng.randrange(10 ** 6), rng.randrange(2 ** 31)] for _ in range(8)]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "harness.props.c26", json.dumps(todo)], capture_output=True, text=True, env=env, cwd=ROOT)
    if r.returncode:
        tail = r.stderr.strip().splitlines()[-1:] or [""]
        raise RuntimeError("child process: %s" % tail[0][:300])
    mon.saw("children")
    other = json.loads(r.stdout.strip().splitlines()[-1])
    for (name, k, s), b in zip(todo, other):
        compare(mon, name, record(name, k, s), b, "in another process", seed=s)
        mon.saw(name)
    mon.case(todo, True, todo)


@REG.facet(24, 200, needs={"records": 300})
def varies(rng, mon):
    """Other seeds, or no seed, give other choices."""
    name = rng.choice(["likelihood", "zne", "zne", "pec", "cliffords", "samples", "unseeded_zne", "unseeded_states", "unseeded_cliffords"])
    k = rng.randrange(10 ** 6)
    got, most = [], 25
    if name == "samples":
        d = {(Pauli.X,): 0.3, (Pauli.Z,): 0.3}
        for i in range(most):
            e = ErrorDistribution(dict(d), rng=generator(rng.randrange(2 ** 31)))
            got.append([str(e.sample()) for _ in range(20)])
    elif name == "unseeded_zne":
        e = Exp(rng, circ=cxs(rng), n_strings=1, shots=10 ** 5)
        be = ExactBackend()
        m = gen_ZNE_MitEx(be, [1, 1.4], folding_type=Folding.gate)
        for _ in range(most):
            be.jobs.clear()
            m.run([e.experiment()])
            got.append(jobs(be))
    elif name == "unseeded_states":
        c = gens.blank(gens.new_qubits(rng, 2))
        for _ in range(6):
            c.Rz(0.123, rng.choice(c.qubits))
            c.H(rng.choice(c.qubits))
            c.CX(*rng.sample(c.qubits, 2))
        got = [[gens.describe(x) for x in gen_state_circuits(c, 2, 1, 5)] for _ in range(most)]
    elif name == "unseeded_cliffords":
        got = [gens.describe(random_clifford_circ(3)) for _ in range(most)]
    elif name == "zne":
        e = Exp(rng, circ=cxs(rng), n_strings=1, shots=10 ** 5)
        for _ in range(most):
            be = ExactBackend()
            gen_ZNE_MitEx(be, [1, 1.4], folding_type=Folding.gate, seed=rng.randrange(2 ** 31)).run([e.experiment()])
            got.append(jobs(be))
    else:
        got = [record(name, k, rng.randrange(2 ** 31))[1] for _ in range(most)]
    mon.saw("records", len(got))
    mon.saw(name)
    mon.check(any(g != got[0] for g in got), "choices do not vary with the seed", program=name, got=got[0])
    mon.case((name, k), True, (name, k))


def cxs(rng):
    """A circuit on which randomly chosen gates can be told apart."""
    c = gens.blank(gens.new_qubits(rng, 3))
    for i in range(8):
        c.Ry(0.1 + 0.1 * i, rng.choice(c.qubits))
        c.CX(*rng.sample(c.qubits, 2))
    return c


if __name__ == "__main__":
    print(json.dumps([record(*x) for x in json.loads(sys.argv[1])]))
