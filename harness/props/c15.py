import itertools
import random

import numpy as np
from pytket.circuit import CircBox, Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.props.c11 import counts_of
from harness.props.c14 import C1, C2, dynamic_circuit, gate
from qermit import CircuitShots
from qermit.coherent_pauli_checks import (DeterministicXPauliSampler, DeterministicZPauliSampler, OptimalPauliSampler, PauliSampler,
                                          RandomPauliSampler, gen_coherent_pauli_check_mitres)
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.noise_model import ErrorDistribution, NoiseModel
from qermit.noise_model.qermit_pauli import QermitPauli

REG = Registry("C15", "A case runs coherent Pauli checks on random circuits over an exact backend and compares with the exact distribution "
               "of the circuit given (no shot lost, nothing changed), or inserts a Pauli error before or after a checked Clifford box and "
               "compares accepted/rejected with dense commutation against the sampled checks, or recomputes the optimal choice of checks "
               "by enumeration. Distinct by (circuit, checks, error).")
SHOTS = 40000


class Chosen(PauliSampler):
    """Sampler of known random checks, recording what it was asked and gave."""

    def __init__(self, rng, n_checks, coeffs=(1,)):
        self.rng, self.n, self.coeffs, self.calls = rng, n_checks, coeffs, []

    def sample(self, circ):
        out, spec = [], []
        for _ in range(self.rng.choice(self.n)):
            qs = list(circ.qubits)
            while True:
                m = {q: self.rng.choice([Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]) for q in qs}
                if any(p != Pauli.I for p in m.values()):
                    break
            co = self.rng.choice(self.coeffs)
            out.append(QermitPauli(QubitPauliTensor(string=QubitPauliString(m), coeff=co)))
            spec.append(m)
        self.calls.append((circ.copy(), spec))
        return out


class FixedModel(NoiseModel):
    """A noise model whose effective error distribution is known."""

    def __init__(self, rng):
        super().__init__(noise_model={})
        self.rng, self.given = rng, []

    def get_effective_pre_error_distribution(self, cliff_circ, *a, **k):
        qs = list(cliff_circ.qubits)
        d = {}
        for _ in range(self.rng.randint(1, 6)):
            s = QubitPauliString({q: self.rng.choice(list(gens.PAULIS)) for q in qs})
            d[s] = self.rng.choice([0.01, 0.02, 0.05, 0.1])
        e = _Dist(d)
        self.given.append((cliff_circ.copy(), d))
        return e


class _Dist:
    def __init__(self, d):
        self.distribution = d


def sampler(rng, mon):
    x = rng.random()
    if x < 0.15:
        return DeterministicZPauliSampler()
    if x < 0.3:
        return DeterministicXPauliSampler()
    if x < 0.5:
        return RandomPauliSampler(n_checks=rng.randint(1, 2), rng=np.random.default_rng(rng.getrandbits(30)))
    if x < 0.6:
        return OptimalPauliSampler(FixedModel(rng), n_checks=1)
    return Chosen(rng, [0, 1, 1, 2], rng.choice([(1,), (1, -1), (1, -1, 1j, -1j)]))


def static_circuit(rng):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    bs = gens.bits(rng, rng.randint(1, len(qs)))
    c = gens.blank(qs, bs)
    p = rng.choice([0.6, 0.85, 1.0])
    for _ in range(rng.randint(1, 10)):
        if rng.random() < 0.06:
            c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))))
        gate(rng, c, qs, p)
    for q, b in zip(rng.sample(qs, len(bs)), bs):
        c.Measure(q, b)
    return c


@REG.facet(300, 4000, needs={"checked_circuits": 300, "results": 300, "checks_run": 500})
def noiseless(rng, mon):
    """With no noise, nothing is discarded and the distribution is that of the circuit."""
    cs = []
    for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 3)):
        cs.append(static_circuit(rng) if rng.random() < 0.75 else dynamic_circuit(rng))
    s = sampler(rng, mon)
    be = ExactBackend(mode="exact")
    want = [sim.simulate(c) for c in cs]
    before = [c.copy() for c in cs]
    # size guard on a dry run
    big = 0
    mr = gen_coherent_pauli_check_mitres(be, s)
    probe = Chosen(random.Random(1), [getattr(s, "n_checks", 2 if isinstance(s, Chosen) else 1)])
    for c in cs:
        d = c.copy()
        BoxClifford().apply(d)
        big = max(big, probe.add_pauli_checks_to_circbox(d)[0].n_qubits)
    if big > 11:
        raise SkipCase()
    res = mr.run([CircuitShots(c, SHOTS) for c in cs])
    mon.check(len(res) == len(cs), "number of results")
    for job in be.jobs:
        mon.saw("checked_circuits")
        mon.saw("checks_run", sum(1 for b in job[0].bits if b.reg_name == "ancilla_measure"))
    for c, r, w, b in zip(cs, res, want, before):
        mon.saw("results")
        got = counts_of(r, list(c.bits))
        wit = dict(circ=gens.describe(c), sampler=type(s).__name__, got=str(got), want=str(w))
        mon.check(c == b, "the given circuit was changed", **wit)
        mon.check(set(r.c_bits) == set(c.bits), "bits of the result are not those of the circuit", bits=str(r.c_bits), **wit)
        n = sum(got.values())
        mon.check(n == SHOTS, "shots were discarded although no error happened", n=n, **wit)
        mon.check(sim.dist_close({k: v / n for k, v in got.items()}, w, 2e-3), "the outcome distribution changed", **wit)
    mon.case([gens.describe(c) for c in cs] + [type(s).__name__], any(c.n_gates > 2 for c in cs), [gens.describe(c) for c in cs])


def clifford_box(rng, qs, name="Clifford Subcircuit"):
    k = rng.randint(1, min(3, len(qs)))
    inner = Circuit(k, name=name)
    iq = list(inner.qubits)
    for _ in range(rng.randint(1, 7)):
        x = rng.random()
        if k > 1 and x < 0.45:
            inner.add_gate(rng.choice([OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.ZZMax, OpType.ECR, OpType.ISWAPMax]), rng.sample(iq, 2))
        elif x < 0.55:
            t, p = rng.choice([(OpType.Rz, [0.5]), (OpType.PhasedX, [0.5, 0.5]), (OpType.Rz, [1.5]), (OpType.Rx, [0.5])])
            inner.add_gate(t, p, [rng.choice(iq)])
        else:
            inner.add_gate(rng.choice(C1), [rng.choice(iq)])
        if rng.random() < 0.1:
            inner.add_barrier(iq)
    return CircBox(inner), rng.sample(qs, k)


def anti(a, b):
    """whether Pauli dicts anticommute (dense-free, by counting)"""
    n = 0
    for q in set(a) & set(b):
        if a[q] != Pauli.I and b[q] != Pauli.I and a[q] != b[q]:
            n += 1
    return n % 2 == 1


def apply_pauli(c, e):
    for q, p in e.items():
        if p != Pauli.I:
            c.add_gate(getattr(OpType, p.name), [q])


@REG.facet(500, 8000, needs={"errors_detected": 150, "errors_missed": 100, "boxes_checked": 400})
def error_detection(rng, mon):
    """An error next to a checked box is flagged by exactly the checks it anticommutes with."""
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    bs = gens.bits(rng, len(qs))
    c = gens.blank(qs, bs)
    nb = rng.randint(1, 3)
    name = "Clifford Subcircuit" if rng.random() < 0.7 else "Clifford Subcircuit " + str(rng.randint(0, 9))
    for i in range(nb):
        for _ in range(rng.randint(0, 3)):
            gate(rng, c, qs, 0.3)
        c.add_circbox(*clifford_box(rng, qs, name))
    for _ in range(rng.randint(0, 2)):
        gate(rng, c, qs, 0.3)
    for q, b in zip(qs, bs):
        c.Measure(q, b)
    s = Chosen(rng, [1, 1, 2], (1, -1, 1j, -1j))
    before = c.copy()
    out, post = s.add_pauli_checks_to_circbox(c)
    wit = dict(circ=gens.describe(c), checks=str([x[1] for x in s.calls]), out=gens.describe(out))
    mon.check(c == before, "the given circuit was changed", **wit)
    if out.n_qubits > 10:
        raise SkipCase()
    mon.check(len(s.calls) == nb, "not every Clifford box is checked", calls=len(s.calls), boxes=nb, **wit)
    mon.check(len(post) == sum(len(x[1]) for x in s.calls), "one bit per check is expected", **wit)
    mon.check(not set(post) & set(bs), "a bit of the circuit is reused for checks", **wit)

    def is_box(cmd):
        return cmd.op.type == OpType.CircBox

    def insert(circ, which, where, e):
        d = gens.blank(circ.qubits, circ.bits)
        d.add_phase(circ.phase)
        k = 0
        for cmd in circ.get_commands():
            if is_box(cmd):
                if k == which and where == "before":
                    apply_pauli(d, e)
                d.add_gate(cmd.op, cmd.args)
                if k == which and where == "after":
                    apply_pauli(d, e)
                k += 1
            elif cmd.op.type == OpType.Barrier:
                d.add_barrier(cmd.args)
            else:
                d.add_gate(cmd.op, cmd.args)
        return d

    boxq = [cmd.qubits for cmd in c.get_commands() if is_box(cmd)]
    outq = [cmd.qubits for cmd in out.get_commands() if is_box(cmd)]
    if boxq != outq:
        raise SkipCase()  # commuting boxes listed in another order
    for _ in range(2):
        which, where = rng.randrange(nb), rng.choice(["before", "after"])
        e = {q: rng.choice([Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]) for q in boxq[which]}
        circ_k, spec = s.calls[which]
        mon.saw("boxes_checked")
        mon.check(set(circ_k.qubits) == set(boxq[which]), "the sampler was asked about other qubits", **wit)
        # checks as seen next to the error: P before the box, C P C^dagger after it
        flags = 0
        uq = list(circ_k.qubits)
        u = sim.unitary(circ_k)
        em = sim.pauli_matrix(QubitPauliString(e), uq)
        for p in spec:
            pm = sim.pauli_matrix(QubitPauliString(p), uq)
            if where == "after":
                pm = u @ pm @ u.conj().T
            flags += int(np.allclose(pm @ em, -(em @ pm), atol=1e-8))
        dist = sim.simulate(insert(out, which, where, e))
        ref = sim.simulate(insert(c, which, where, e))
        ob = list(out.bits)
        pi = [ob.index(b) for b in post]
        ci = [ob.index(b) for b in bs]
        w = dict(error=str(e), where=where, which=which, flags=flags, dist=str(dist)[:400], **wit)
        for k, pr in dist.items():
            if pr < 1e-9:
                continue
            ones = sum(k[i] for i in pi)
            mon.check(ones == flags, "wrong checks are triggered by the error", ones=ones, **w)
        mon.check(sim.dist_close(sim.marginal(dist, ci), ref, 1e-7), "the checks disturb the circuit", ref=str(ref), **w)
        mon.saw("errors_detected" if flags else "errors_missed")
    mon.case(wit["out"], True, wit["circ"])


@REG.facet(150, 2500, needs={"flagged_shots_runs": 100})
def end_to_end_discard(rng, mon):
    """Shots on which any check fires are exactly those discarded from the mitigated results."""
    cs = []
    for _ in range(rng.randint(1, 3)):
        qs = gens.new_qubits(rng, rng.randint(1, 2))
        bs = gens.bits(rng, len(qs))
        c = gens.blank(qs, bs)
        for _ in range(rng.randint(2, 8)):
            gate(rng, c, qs, 0.8)
        for q, b in zip(qs, bs):
            c.Measure(q, b)
        cs.append(c)
    s = Chosen(rng, [1, 2], (1, -1))
    frac = {}

    def noise(circ, dist):
        cb = list(circ.bits)
        mine = [c for c in cs if set(c.bits) <= set(cb) and set(c.qubits) <= set(circ.qubits)]
        own = set().union(*[set(c.bits) for c in cs])
        extra = [i for i, b in enumerate(cb) if b not in own]
        out = dict(dist)
        if not extra or not mine:
            return out
        p = rng.choice([0.25, 0.5, 1.0])
        out = {k: v * (1 - p) for k, v in out.items()}
        for _ in range(3):
            k = [rng.randint(0, 1) for _ in cb]
            for i in extra:
                k[i] = 0
            for i in rng.sample(extra, rng.randint(1, len(extra))):
                k[i] = 1
            out[tuple(k)] = out.get(tuple(k), 0) + p / 3
        frac[repr(circ.to_dict())] = 1 - p
        return out

    be = ExactBackend(mode="exact", noise=noise)
    probe = Chosen(random.Random(1), [2])
    for c in cs:
        d = c.copy()
        BoxClifford().apply(d)
        if probe.add_pauli_checks_to_circbox(d)[0].n_qubits > 10:
            raise SkipCase()
    res = gen_coherent_pauli_check_mitres(be, s).run([CircuitShots(c, SHOTS) for c in cs])
    for c, r, job in zip(cs, res, be.jobs):
        keep = frac.get(repr(job[0].to_dict()), 1.0)
        if keep < 1:
            mon.saw("flagged_shots_runs")
        got = counts_of(r, list(c.bits))
        n = sum(got.values())
        w = dict(circ=gens.describe(c), keep=keep, got=str(got))
        mon.check(abs(n - keep * SHOTS) <= 8, "discarded shots are not those with a triggered check", n=n, **w)
        if n > 100:
            mon.check(sim.dist_close({k: v / n for k, v in got.items()}, sim.simulate(c), 4e-3),
                      "accepted shots do not follow the distribution of the circuit", want=str(sim.simulate(c)), **w)
    mon.case([gens.describe(c) for c in cs], True, gens.describe(cs[0]))


@REG.facet(250, 2500, needs={"optimal_choices": 200})
def optimal_choice(rng, mon):
    """The optimal sampler returns a set of checks leaving least undetected error."""
    n = rng.randint(1, 3)
    n_checks = 1 if n > 2 else rng.randint(1, 2)
    c = Circuit()
    for q in gens.new_qubits(rng, n):
        c.add_qubit(q)
    qs = list(c.qubits)
    for _ in range(rng.randint(1, 5)):
        c.add_gate(rng.choice(C1), [rng.choice(qs)])
    m = FixedModel(rng)
    got = OptimalPauliSampler(m, n_checks=n_checks).sample(c)
    mon.check(len(got) == n_checks, "number of checks", got=len(got))
    d = {}
    for s, p in m.given[0][1].items():
        d[tuple(s.map.get(q, Pauli.I) for q in qs)] = p
    strings = [x for x in itertools.product(gens.PAULIS, repeat=n) if any(p != Pauli.I for p in x)]
    A = {(a, b): anti(dict(zip(qs, a)), dict(zip(qs, b))) for a in d for b in strings}
    left = lambda cs: sum(p for e, p in d.items() if not any(A[(e, s)] for s in cs))
    best = min(left(cs) for cs in itertools.combinations(strings, n_checks))
    mine = [tuple(g.qubit_pauli_tensor.string.map.get(q, Pauli.I) for q in qs) for g in got]
    mon.check(all(any(p != Pauli.I for p in x) for x in mine), "an identity check is chosen", got=str(mine))
    mon.check(len(set(mine)) == n_checks, "checks are repeated", got=str(mine))
    mon.check(all(abs(g.qubit_pauli_tensor.coeff - 1) < 1e-12 for g in got), "checks have a phase")
    mon.check(abs(left(mine) - best) < 1e-12, "another choice of checks leaves less undetected error", got=str(mine), left=left(mine),
              best=best, dist=str(d))
    mon.saw("optimal_choices")
    mon.case((str(sorted(map(str, d.items()))), n_checks), True, str(d))


@REG.facet(150, 1500, needs={"random_checks": 200})
def random_choice(rng, mon):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    c = gens.blank(qs)
    n = rng.randint(0, 5)
    seed = rng.getrandbits(30)
    got = RandomPauliSampler(n_checks=n, rng=np.random.default_rng(seed)).sample(c)
    mon.check(len(got) == n, "number of checks", got=len(got), want=n)
    for g in got:
        mon.saw("random_checks")
        t = g.qubit_pauli_tensor
        mon.check(any(p != Pauli.I for p in t.string.map.values()), "an identity check is sampled", got=str(g))
        mon.check(set(t.string.map) == set(qs), "checks miss qubits of the circuit", got=str(g))
        mon.check(t.coeff == 1, "check has a phase")
    again = RandomPauliSampler(n_checks=n, rng=np.random.default_rng(seed)).sample(c)
    mon.check(got == again, "same seed, other checks")
    mon.case((str([str(g) for g in got])), n > 0, str(qs))
