import numpy as np
from pytket.circuit import Bit, Circuit, OpType, Qubit

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry
from harness.props.c11 import counts_of
from qermit import CircuitShots, MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.leakage_detection.leakage_detection import gen_add_leakage_gadget_circuit_task
from qermit.taskgraph import gen_compiled_MitRes

REG = Registry("C12", "A case runs a batch of random circuits (any registers, idle bits and qubits, mid-circuit measurements, "
               "resets, barriers; spare device qubits from none upwards) through leakage detection on an exact backend "
               "without leakage, or on one that flags random shots, and compares counts over the circuit's own bits. "
               "Distinct by circuits and device size.",
               assumptions=["gate operations only (pytket's gadget builder takes neither boxes nor classical conditions) and at least one final measurement"])

SH = 2 ** 16


def final_measures(c):
    last = {}
    for cmd in c:
        if cmd.op.type != OpType.Barrier:
            for q in cmd.qubits:
                last[q] = cmd
    return [q for q, cmd in last.items() if cmd.op.type == OpType.Measure]


def circ(rng, clifford=False):
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    bs = gens.bits(rng, rng.randint(1, 4))
    c = gens.blank(qs, bs)
    kind = "clifford" if clifford else "any"
    free = list(bs)
    rng.shuffle(free)
    gens.add_gates(rng, c, qs, rng.randint(0, 5), kind)
    style = rng.choice(["end", "end", "mid", "barrier"])
    if style == "mid":
        q = rng.choice(qs)
        b = rng.choice(free)
        free.remove(b)
        c.Measure(q, b)
        if rng.random() < 0.4:
            c.add_gate(OpType.Reset, [q])
        gens.add_gates(rng, c, qs, rng.randint(1, 4), kind)
    elif style == "barrier":
        c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))))
        gens.add_gates(rng, c, qs, rng.randint(0, 3), kind)
    k = rng.randint(1, min(len(qs), len(free))) if free else 0
    for q, b in zip(rng.sample(qs, k), free[:k]):
        c.Measure(q, b)
    return c


@REG.facet(500, 6000, needs={"results": 500, "gadgets": 300})
def transparent(rng, mon):
    cs = [circ(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    cs = [c for c in cs if final_measures(c)]
    nq = max([c.n_qubits for c in cs], default=1)
    be = ExactBackend(n_qubits=nq + rng.choice([0, 0, 1, 2]))
    kw = {"mitres": gen_compiled_MitRes(be, 0)} if rng.random() < 0.4 else ({"mitres": MitRes(be)} if rng.random() < 0.3 else {})
    mr = get_leakage_detection_mitres(be, **kw)
    shots = [rng.choice([SH, SH // 2]) for _ in cs]
    out = mr.run([CircuitShots(c, s) for c, s in zip(cs, shots)])
    mon.check(len(out) == len(cs), "number of results differs")
    mon.check([j[1] for j in be.jobs] == shots, "other shots were requested", got=[j[1] for j in be.jobs], want=shots)
    mon.saw("gadgets", sum(1 for j in be.jobs if any(b.reg_name == "leakage_detection_bit" for b in j[0].bits)))
    for c, s, r in zip(cs, shots, out):
        mon.saw("results")
        w = dict(circ=gens.describe(c), bits=str(c.bits), device=be.backend_info.n_nodes)
        mon.check(set(r.c_bits) == set(c.bits), "result has other bits than the circuit", got=str(list(r.c_bits)), **w)
        got = counts_of(r, list(c.bits))
        mon.check(sum(got.values()) == s, "shots were discarded without leakage", got=sum(got.values()), want=s, **w)
        mon.check(sim.dist_close({k: v / s for k, v in got.items()}, sim.simulate(c), 1e-3), "outcome distribution changed",
                  got=str(got), want=str(sim.simulate(c)), **w)
    mon.case(([gens.describe(c) for c in cs], be.backend_info.n_nodes), bool(cs), [gens.describe(c) for c in cs][:1])


@REG.facet(800, 8000, needs={"flagged": 5000, "kept": 3000})
def flagged_shots_dropped(rng, mon):
    """Arbitrary leakage flags and readouts: exactly the unflagged shots survive, with the circuit's bits."""
    cs = []
    while len(cs) < rng.randint(1, 4):
        c = circ(rng)
        if final_measures(c):
            cs.append(c)
    nq = max(c.n_qubits for c in cs)
    log = []

    def results(c, n, idx):
        bits = list(c.bits)
        p = rng.choice([0.0, 0.2, 0.5, 1.0])
        counts = {}
        for _ in range(n):
            k = tuple(int(rng.random() < p) if b.reg_name == "leakage_detection_bit" else rng.randint(0, 1) for b in bits)
            counts[k] = counts.get(k, 0) + 1
        log.append((bits, counts))
        return counts

    be = ExactBackend(n_qubits=nq + rng.choice([0, 1, 3]), results=results, shots_limit=rng.choice([0, 10 ** 6]))
    mr = get_leakage_detection_mitres(be)
    shots = [rng.randint(1, 60) for _ in cs]
    out = mr.run([CircuitShots(c, s) for c, s in zip(cs, shots)])
    mon.check(len(out) == len(cs) == len(log), "number of results or jobs")
    for c, s, r, (bits, counts) in zip(cs, shots, out, log):
        want, own = {}, list(c.bits)
        idx = [bits.index(b) if b in bits else None for b in own]
        for k, v in counts.items():
            if any(x for b, x in zip(bits, k) if b not in own):
                mon.saw("flagged", v)
                continue
            kk = tuple(k[i] for i in idx)
            want[kk] = want.get(kk, 0) + v
        mon.saw("kept", sum(want.values()))
        got = counts_of(r, own)
        mon.check(got == want, "kept shots are not exactly the unflagged ones", got=str(got), want=str(want), circ=gens.describe(c))
    mon.case(([gens.describe(c) for c in cs], shots), True)


@REG.facet(500, 5000, needs={"measured_qubits": 600})
def every_final_measurement_is_guarded(rng, mon):
    """One selection bit per finally measured qubit, none of them the circuit's own."""
    c = circ(rng)
    guarded = final_measures(c)
    be = ExactBackend(n_qubits=c.n_qubits + rng.choice([1, 2, 3]))
    task = gen_add_leakage_gadget_circuit_task(be)
    (dcs, mgrs) = task([[CircuitShots(c, 10)]])
    d, mgr = dcs[0].Circuit, mgrs[0]
    mon.check(dcs[0].Shots == 10, "shots changed")
    mon.check(set(mgr.compute_cbits) == set(c.bits) and set(mgr.postselect_cbits) == set(d.bits) - set(c.bits),
              "selection bits are wrong")
    mon.check(len(mgr.postselect_cbits) == len(guarded), "not one selection bit per finally measured qubit",
              got=str(mgr.postselect_cbits), guarded=str(guarded), circ=gens.describe(c))
    mon.saw("measured_qubits", len(guarded))
    mon.check(all(cmd.op.type == OpType.Measure for cmd in d if set(cmd.bits) & set(mgr.postselect_cbits)),
              "a selection bit is not a measurement outcome")
    mon.case((gens.describe(c), be.backend_info.n_nodes), bool(guarded))
