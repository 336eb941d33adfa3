import math
import multiprocessing as mp
from collections import Counter

import numpy as np
from pytket.circuit import Bit, Circuit, OpType, Qubit
from pytket.passes import CustomPass
from pytket.pauli import Pauli

from harness import gens, sim
from harness.core import Registry, SkipCase
from harness.props.c14 import dynamic_circuit
from harness.props import c17
from harness.props.c17 import distribution, full
from qermit import CircuitShots, MitRes
from qermit.noise_model import ErrorDistribution, NoiseModel, PauliErrorTranspile, TranspilerBackend

try:
    from qermit.noise_model.noisy_aer_backend import NoisyAerBackend
except ImportError:
    NoisyAerBackend = None

REG = Registry("C18", "A case writes scripted Pauli errors into a random circuit through the noise pass and compares with the circuit rebuilt by "
               "hand, or runs a transpiler backend with a pass that numbers its applications and recovers from the counts that every shot "
               "used its own transpiled copy exactly once, or compares the noisy Aer backend with an exact density matrix. Distinct by "
               "circuit and errors.")


class Scripted(ErrorDistribution):
    def __init__(self, rng, n, log, op, rate):
        super().__init__({tuple([Pauli.X] * n): 0.5})
        self.r, self.n, self.log, self.op, self.rate = rng, n, log, op, rate

    def sample(self):
        e = None if self.r.random() > self.rate else tuple(self.r.choice(gens.PAULIS) for _ in range(self.n))
        self.log.append((self.op, e))
        return e


ARITY = {OpType.CX: 2, OpType.CZ: 2, OpType.CY: 2, OpType.H: 1, OpType.S: 1, OpType.ZZMax: 2, OpType.Rz: 1, OpType.V: 1, OpType.SWAP: 2,
         OpType.X: 1, OpType.ZZPhase: 2, OpType.T: 1, OpType.TK1: 1, OpType.Rx: 1, OpType.CCX: 3, OpType.BRIDGE: 3, OpType.U3: 1, OpType.ECR: 2,
         OpType.ISWAP: 2, OpType.CRz: 2, OpType.PhasedX: 1}


@REG.facet(500, 6000, needs={"errors_written": 400, "noiseless": 80})
def insertion(rng, mon):
    dyn = rng.random() < 0.3
    c = dynamic_circuit(rng) if dyn else gens.circuit(rng, n_gates=rng.randint(0, 12))
    if not dyn:
        if rng.random() < 0.2:
            c.replace_SWAPs()
        if rng.random() < 0.3:
            c.add_phase(0.25)
        if rng.random() < 0.3:
            c.add_barrier(c.qubits)
        if rng.random() < 0.4:
            for b in gens.bits(rng, c.n_qubits):
                c.add_bit(b)
            for q, b in zip(c.qubits, c.bits):
                c.Measure(q, b)
    log = []
    ops = rng.sample(list(ARITY), rng.randint(0, len(ARITY)))
    rate = rng.choice([0.0, 0.5, 1.0])
    model = NoiseModel({o: Scripted(rng, ARITY[o], log, o, rate) for o in ops})
    before = c.copy()
    d = c.copy()
    PauliErrorTranspile(model).apply(d)
    w = dict(circ=gens.describe(before), noisy=gens.describe(d), errors=str(log))
    mon.check(d.qubits == before.qubits and d.bits == before.bits, "qubits or bits changed", **w)
    cmds = before.get_commands()
    noisy = [cmd for cmd in cmds if cmd.op.type in ops]
    mon.check([cmd.op.type for cmd in noisy] == [o for o, _ in log], "errors are not drawn once for every noisy gate", **w)
    ref = gens.blank(before.qubits, before.bits)
    ref.add_phase(before.phase)
    it = iter(log)
    k = 0
    for cmd in cmds:
        if cmd.op.type == OpType.Barrier:
            ref.add_barrier(cmd.args)
        else:
            ref.add_gate(cmd.op, cmd.args)
        if cmd.op.type in ops:
            e = next(it)[1]
            for q, p in zip(cmd.args, e or ()):
                if p != Pauli.I:
                    k += 1
                    ref.add_gate(getattr(OpType, p.name), [q])
    mon.saw("errors_written", k)
    if k == 0:
        mon.saw("noiseless")
    perm = before.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        mon.saw("implicit_swaps")
        # the permutation as a circuit of its own
        p = gens.blank(before.qubits)
        bare = gens.blank(before.qubits)
        bare.add_phase(before.phase)
        for cmd in cmds:
            if cmd.op.type not in (OpType.Measure, OpType.Barrier):
                bare.add_gate(cmd.op, cmd.args)
        if any(cmd.op.type in (OpType.Measure, OpType.Reset, OpType.Conditional) for cmd in cmds):
            if k == 0:
                mon.check(sim.dist_close(sim.simulate(before), sim.simulate(d)), "the pass changed the circuit without any error", **w)
            mon.case(w["circ"], True, w["circ"])
            return
        pm = sim.unitary(before) @ sim.unitary(bare).conj().T
        mon.check(sim.same_up_to_phase(pm @ sim.unitary(ref), sim.unitary(d)), "the noisy circuit is not the circuit with the errors drawn", **w)
    elif any(cmd.op.type in (OpType.Measure, OpType.Reset, OpType.Conditional) for cmd in cmds):
        mon.check(sim.dist_close(sim.simulate(ref), sim.simulate(d)), "the noisy circuit is not the circuit with the errors drawn", **w)
    else:
        mon.check(sim.same_up_to_phase(sim.unitary(ref), sim.unitary(d)), "the noisy circuit is not the circuit with the errors drawn", **w)
    cnt = lambda x: Counter((str(y.op), tuple(map(str, y.args))) for y in x.get_commands() if y.op.type not in (OpType.Barrier, OpType.SWAP))
    mon.check(not cnt(before) - cnt(d), "operations of the circuit were lost", lost=str(cnt(before) - cnt(d)), **w)
    mon.check(sum(1 for x in cmds if x.op.type == OpType.Barrier) == sum(1 for x in d.get_commands() if x.op.type == OpType.Barrier),
              "barriers were lost", **w)
    mon.case((w["circ"], w["errors"]), bool(log), w["circ"])


def numbered(qs, applied):
    """A pass writing the number of its application on the qubits, recording what it was given."""

    def f(c):
        k = len(applied)
        applied.append(c.copy())
        d = c.copy()
        out = gens.blank(c.qubits, c.bits)
        for i, q in enumerate(qs):
            if k >> i & 1:
                out.X(q)
        for cmd in d.get_commands():
            out.add_gate(cmd.op, cmd.args)
        return out

    return CustomPass(f)


@REG.facet(60, 600, needs={"shots": 1500, "backends": 50})
def one_copy_per_shot(rng, mon):
    """Every shot runs its own transpiled copy of the circuit as given; counts are exactly those copies' outcomes."""
    copies(rng, mon, 1)


@REG.facet(4, 24, needs={"backends": 4})
def several_cores(rng, mon):
    """The same with shots spread over processes."""
    mp.set_start_method("spawn", force=True)  # the simulator's threads do not survive a fork
    copies(rng, mon, rng.choice([2, 3]))


def copies(rng, mon, cores):
    n = rng.randint(1, 5)
    qs = gens.new_qubits(rng, n, plain=True if rng.random() < 0.5 else None)
    bs = gens.bits(rng, n)
    extra = rng.random() < 0.2
    jobs, want = [], []
    applied = []
    be = TranspilerBackend(numbered(qs, applied), max_batch_size=rng.choice([1, 2, 3, 7, 10, 1000]),
                           n_cores=cores, **({"result_dict": {}} if rng.random() < 0.5 else {}))
    mon.saw("backends")
    for _ in range(rng.randint(1, 3)):
        c = gens.blank(qs, bs)
        flip = [rng.random() < 0.5 for _ in qs]
        tgt = rng.sample(bs, n)
        if rng.random() < 0.4 and n > 1:
            c.CX(qs[0], qs[1])
        for q, b, f in zip(qs, tgt, flip):
            if f:
                c.X(q)
        for q, b in zip(qs, tgt):
            c.Measure(q, b)
        jobs.append((c, rng.choice([1, 2, 5, 13, 24, 40])))
    keep = [c.copy() for c, _ in jobs]
    way = rng.choice(["process_circuits", "process_circuit", "run_circuit", "mitres", "get_counts"])
    order, results = [], []
    if way == "process_circuits":
        hs = be.process_circuits([c for c, _ in jobs], [s for _, s in jobs])
        mon.check(len(set(map(str, hs))) == len(jobs), "handles are not distinct")
        idx = list(range(len(jobs)))
        rng.shuffle(idx)
        got = be.get_results([hs[i] for i in idx])
        results = [got[idx.index(i)].get_counts(cbits=bs) for i in range(len(jobs))]
    elif way == "process_circuit":
        hs = [be.process_circuit(c, s) for c, s in jobs]
        results = [be.get_result(h).get_counts(cbits=bs) for h in hs]
        mon.check(all(be.get_result(h).get_counts(cbits=bs) == r for h, r in zip(hs, results)), "reading a result twice differs")
    elif way == "run_circuit":
        results = [be.run_circuit(c, s).get_counts(cbits=bs) for c, s in jobs]
    elif way == "mitres":
        rs = MitRes(be).run([CircuitShots(c, s) for c, s in jobs])
        results = [r.get_counts(cbits=bs) for r in rs]
    else:
        if rng.random() < 0.35:  # all bits, in the order of their names
            order = sorted(bs)
            results = [be.get_counts(c, s) for c, s in jobs]
        else:
            order = rng.sample(bs, rng.randint(1, n))
            results = [be.get_counts(c, s, cbits=order) for c, s in jobs]
    # jobs may be run in any order, but each in one run of applications: identify them by the circuit handed over
    w = dict(jobs=[(gens.describe(c), s) for c, s in jobs], way=way, results=str(results), batch=be.max_batch_size, cores=be.n_cores)
    mon.check([c for c, _ in jobs] == keep, "the given circuits were changed", **w)
    mon.check(len(applied) == sum(s for _, s in jobs), "the pass is not applied once for every shot", got=len(applied), **w)
    cols = order or bs
    total, seen = Counter(), Counter()
    for (c, s), r in zip(jobs, results):
        mon.saw("shots", s)
        mon.check(sum(r.values()) == s, "number of shots", got=sum(r.values()), want=s, **w)
    # group applications by circuit
    for c, s in {repr(c.to_dict()): (c, s) for c, s in jobs}.values():
        same = [i for i, (d, _) in enumerate(jobs) if d == c]
        ks = [k for k, a in enumerate(applied) if a == c]
        mon.check(len(ks) == sum(jobs[i][1] for i in same), "the pass was not given the circuits as they are", **w)
        want, got = Counter(), Counter()
        for k in ks:
            d = gens.blank(qs, bs)
            for i, q in enumerate(qs):
                if k >> i & 1:
                    d.X(q)
            for cmd in c.get_commands():
                d.add_gate(cmd.op, cmd.args)
            (o, p), = sim.simulate(d).items()
            want[tuple(o[list(d.bits).index(b)] for b in cols)] += 1
        for i in same:
            got.update({tuple(k): v for k, v in results[i].items()})
        mon.check(want == got, "counts are not the outcomes of the transpiled copies", want=str(want), got=str(got), **w)
    mon.case(w["jobs"], True, w["jobs"])


def kraus_dist(c, model):
    """Exact outcome distribution of a circuit with Pauli channels after gates (density matrix)."""
    qs = list(c.qubits)
    n = len(qs)
    rho = np.zeros((2 ** n, 2 ** n), complex)
    rho[0, 0] = 1
    meas = []
    for cmd in c.get_commands():
        if cmd.op.type == OpType.Measure:
            meas.append((qs.index(cmd.args[0]), list(c.bits).index(cmd.args[1])))
            continue
        one = gens.blank(qs)
        one.add_gate(cmd.op, cmd.args)
        u = sim.unitary(one)
        rho = u @ rho @ u.conj().T
        if cmd.op.type in model:
            new = np.zeros_like(rho)
            for e, p in model[cmd.op.type].items():
                m = sim.pauli_matrix(_qps(dict(zip(cmd.args, e))), qs)
                new += p * m @ rho @ m.conj().T
            rho = new
    diag = np.diag(rho).real.reshape((2,) * n)
    out = {}
    for idx in np.ndindex(*([2] * n)):
        b = [0] * len(c.bits)
        for q, k in meas:
            b[k] = int(idx[q])
        out[tuple(b)] = out.get(tuple(b), 0) + float(diag[idx])
    return out


def _qps(d):
    from pytket.pauli import QubitPauliString

    return QubitPauliString(d)


def statistical(mon, got, want, N, what, **w):
    L = math.log(2e12)
    for k in set(got) | set(want):
        p = min(1.0, max(0.0, want.get(k, 0.0)))
        b = min(math.sqrt(L / (2 * N)), math.sqrt(2 * p * (1 - p) * L / N) + L / N)
        mon.check(abs(got.get(k, 0) / N - p) <= b, what, outcome=str(k), got=got.get(k, 0) / N, want=p, **w)


@REG.facet(16, 160, needs={"noisy_shots": 6000})
def noisy_statistics(rng, mon):
    """Simulated noise reproduces the Pauli channel exactly, up to shot noise (Bernstein, 1e-12 per decision)."""
    c = gens.measured(rng, n=rng.randint(1, 3), n_gates=rng.randint(1, 8), kind="clifford", plain=True, bit_plain=True, all_qubits=True,
                      extra_bits=False)
    model, exact = {}, {}
    for o in ARITY:
        if rng.random() < 0.7:
            d, n = distribution(rng, ARITY[o], top=0.8, explicit=False)
            model[o] = ErrorDistribution(d, rng=np.random.default_rng(rng.getrandbits(32)))
            exact[o] = full(d, n)
    N = 500
    be = TranspilerBackend(PauliErrorTranspile(NoiseModel(model)), max_batch_size=rng.choice([100, 128, 1000]))
    r = be.run_circuit(c, N)
    mon.saw("noisy_shots", N)
    statistical(mon, r.get_counts(cbits=list(c.bits)), kraus_dist(c, exact), N, "noisy statistics", circ=gens.describe(c))
    mon.case(gens.describe(c), True, gens.describe(c))


@REG.facet(24, 240, needs={"aer_runs": 20})
def noisy_aer(rng, mon):
    if NoisyAerBackend is None:
        raise SkipCase()
    n = rng.randint(2, 3)
    p1, p2, pr = [rng.choice([0.0, 0.02, 0.2]) for _ in range(3)]
    c = Circuit(n, n)
    for _ in range(rng.randint(1, 8)):
        x = rng.random()
        if n > 1 and x < 0.5:
            c.CX(*rng.sample(range(n), 2))
        elif x < 0.75:
            c.H(rng.randrange(n))
        else:
            c.Rz(rng.choice([0.25, 0.5, 0.7]), rng.randrange(n))
    for i in range(n):
        c.Measure(i, i)
    N = 20000
    be = NoisyAerBackend(n_qubits=n + rng.randint(0, 1), prob_1=p1, prob_2=p2, prob_ro=pr)
    nodes = sorted(be.backend_info.architecture.nodes)
    c.rename_units(dict(zip(c.qubits, rng.sample(nodes, n))))
    got = be.run_circuit(c, N, seed=rng.getrandbits(20)).get_counts(cbits=list(c.bits))
    one = {(a,): p1 / 4 for a in gens.PAULIS}
    one[(Pauli.I,)] += 1 - p1
    two = {(a, b): p2 / 16 for a in gens.PAULIS for b in gens.PAULIS}
    two[(Pauli.I, Pauli.I)] += 1 - p2
    d = kraus_dist(c, {OpType.CX: two, OpType.H: one, OpType.Rz: one})
    for i in range(n):
        e = {}
        for k, p in d.items():
            f = k[:i] + (1 - k[i],) + k[i + 1:]
            e[k] = e.get(k, 0) + p * (1 - pr)
            e[f] = e.get(f, 0) + p * pr
        d = e
    mon.saw("aer_runs")
    statistical(mon, got, d, N, "statistics of the noisy Aer backend", circ=gens.describe(c), rates=(p1, p2, pr))
    mon.case((gens.describe(c), p1, p2, pr), True, gens.describe(c))


@REG.facet(16, 160, needs={"mock_runs": 15})
def mock(rng, mon):
    """The mock Quantinuum device: every circuit its own result with its bits and shots; noise is there, but small."""
    try:
        from qermit.noise_model import MockQuantinuumBackend
    except ImportError:
        raise SkipCase()
    be = MockQuantinuumBackend()
    held, N = [], 4000
    for _ in range(rng.randint(1, 2)):
        jobs = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.3:
                c = Circuit(3, 3)
                for q in range(3):
                    if rng.random() < 0.5:
                        c.X(q)
                for q, b in zip(range(3), rng.sample(range(3), 3)):
                    c.Measure(q, b)
                steady = True
            else:
                c = gens.measured(rng, rng.randint(1, 3), rng.randint(1, 8), "any", all_qubits=True)
                steady = False
            c = be.get_compiled_circuit(c, optimisation_level=rng.choice([0, 1, 2]))
            jobs.append((c, rng.choice([N, N, N + 500, 1]), steady))
        same = rng.random() < 0.4
        if same:
            jobs = [(c, jobs[0][1], s) for c, _, s in jobs]
        before = [repr(c.to_dict()) for c, _, _ in jobs]
        if len(jobs) == 1 and rng.random() < 0.5:
            hs = [be.process_circuit(jobs[0][0], jobs[0][1])]
        else:
            hs = be.process_circuits([c for c, _, _ in jobs], jobs[0][1] if same else [n for _, n, _ in jobs])
        mon.check(len(hs) == len(jobs), "number of handles")
        mon.check([repr(c.to_dict()) for c, _, _ in jobs] == before, "a submission changed the circuits")
        held += [(j, h) for j, h in zip(jobs, hs)]
    rng.shuffle(held)
    rs = be.get_results([h for _, h in held]) if rng.random() < 0.5 else [be.get_result(h) for _, h in held]
    for ((c, n, steady), _), r in zip(held, rs):
        mon.saw("mock_runs")
        got = r.get_counts(cbits=list(c.bits))
        w = dict(circ=gens.describe(c), got=got)
        mon.check(sum(got.values()) == n, "number of shots", want=n, **w)
        if n < N:
            continue
        d = sim.simulate(c)
        err = 0.015 * len(c.bits) + 0.003 * len(c.get_commands())
        for k in set(got) | set(d):
            p = d.get(k, 0)
            mon.check(abs(got.get(k, 0) / n - p) <= err + math.sqrt(math.log(2e12) / (2 * n)), "results of the mock device", outcome=str(k), want=p, **w)
        if steady:
            mon.check(len(got) > 1, "the mock device has no noise", **w)
    mon.case([gens.describe(j[0]) for j, _ in held], True, [gens.describe(j[0]) for j, _ in held])


REG.facet(300, 3000, needs={"propagations": 200, "errors_written": 80})(c17.propagation)
REG.facet(16, 160, needs={"instances": 8000})(c17.effective_distribution)
