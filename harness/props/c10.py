"""C10: SPAM correction returns a valid result for the circuit it corrects; calibration is complete and reused."""
from collections import Counter

import numpy as np
from pytket.circuit import Bit, OpType

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.props.c09 import Device, apply, bit_counts, compare, measured_bits, partition, place, readout
from qermit import CircuitShots, MitRes, MitTask
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes

REG = Registry("C10", "A case answers calibration and experiment circuits with arbitrary counts, drawn independently of what was run, and checks the corrected "
               "results' bits, counts, totals and order; or records the calibration circuits and follows a history of runs, objects and "
               "characterisation transfers. Distinct by partition, counts, circuits, history.",
               assumptions=["a correction by inversion may be refused (ValueError) when the calibration is singular"])

METHODS = [CorrectionMethod.Invert, CorrectionMethod.Bayesian]


def random_counts(rng, c, n):
    """n shots over the measured bits, others zero."""
    k = len(c.bits)
    ms = [list(c.bits).index(b) for b in measured_bits(c)]
    outs = [tuple(rng.randint(0, 1) if i in ms else 0 for i in range(k)) for _ in range(rng.choice([1, 2, 5, 20]))]
    return dict(Counter(rng.choice(outs) for _ in range(n))) if n < 5000 else \
        {o: int(v) for o, v in zip(dict.fromkeys(outs), np.random.RandomState(rng.getrandbits(32)).multinomial(n, [1 / len(set(outs))] * len(set(outs)))) if v}


def prepared(c):
    """The basis state a calibration circuit prepares: {qubit: value} for its measured qubits."""
    d = sim.simulate(c)
    (key,) = [k for k, p in d.items() if p > 1 - 1e-9]
    return {g.qubits[0]: key[list(c.bits).index(g.bits[0])] for g in c.commands_of_type(OpType.Measure)}


@REG.facet(1500, 12000, needs={"results": 900, "well_conditioned": 120, "bayesian": 200, "batches": 250, "single_shot": 80})
def hostile(rng, mon):
    dev = Device(rng, rng.randint(1, 5), 0)
    calibration = rng.choice(["near", "random", "random", "singular"])
    e = 0.35 * rng.random()
    circs, seen = [], []
    for _ in range(rng.randint(1, 4)):
        c = dev.circuit(rng)
        if not any(c == x for x in seen):
            seen.append(c)
            circs.append(CircuitShots(c, rng.choice([1, 1, 2, 10, 1000, 10 ** 6])))
    raw = {}

    def cal(c, n, idx):
        if calibration == "random":
            return random_counts(rng, c, n)
        if calibration == "singular":
            return {tuple([0] * len(c.bits)): n}
        good = int(n * (1 - e))
        d = random_counts(rng, c, n - good) if n > good else {}
        key = max(sim.simulate(c).items(), key=lambda kv: kv[1])[0]
        d[key] = d.get(key, 0) + good
        return d

    def exp(c, n, idx):
        d = random_counts(rng, c, n)
        raw[idx] = (c.copy(), n, d)
        return d

    cal_be = ExactBackend(results=cal)
    exp_be = ExactBackend(results=exp)
    method = rng.choice(METHODS)
    if rng.random() < 0.3:
        kw = {"correction_method": method} if rng.random() < 0.7 else {}
        method = kw.get("correction_method", CorrectionMethod.Invert)
        mr = gen_UnCorrelated_SPAM_MitRes(dev.be, 200, calibration_mitres=MitRes(cal_be), correction_mitres=MitRes(exp_be), **kw)
    else:
        mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, 200, [list(p) for p in dev.parts], calibration_mitres=MitRes(cal_be),
                                             correction_mitres=MitRes(exp_be), correction_method=method)
    w = dict(device=dev.describe(), calibration=calibration, e=e, circs=[(gens.describe(c.Circuit), c.Shots) for c in circs],
             method="invert" if method is METHODS[0] else "bayesian")
    try:
        res = mr.run([CircuitShots(c.Circuit.copy(), c.Shots) for c in circs])
    except (ValueError, np.linalg.LinAlgError) as x:
        if calibration == "near":
            raise
        mon.saw("refused")
        raise SkipCase
    if calibration == "near":
        mon.saw("well_conditioned")
    if w["method"] == "bayesian":
        mon.saw("bayesian")
    mon.check(len(res) == len(circs), "number of results", got=len(res), **w)
    mon.check(len(raw) == len(circs), "number of experiment circuits run", got=len(raw), **w)
    if len(res) > 1:
        mon.saw("batches")
    for i, (cs, r) in enumerate(zip(circs, res)):
        bs = measured_bits(cs.Circuit)
        mon.saw("results")
        if cs.Shots == 1:
            mon.saw("single_shot")
        mon.check(sorted(r.c_bits) == bs, "bits of a corrected result are not the measured bits of its circuit", got=str(r.c_bits), want=str(bs), i=i, **w)
        got = r.get_counts()
        mon.check(all(len(k) == len(bs) and v >= 0 and int(v) == v for k, v in got.items()), "counts are not valid", got=str(dict(got)), i=i, **w)
        mon.check(sum(got.values()) == cs.Shots, "total shots of a corrected result", got=sum(got.values()), want=cs.Shots, i=i, **w)
        mon.check(bit_counts(r, bs) == {tuple(k): v for k, v in got.items() if v}, "default order of bits", i=i, **w)
        # the raw job belonging to it had its shots and bits
        ran = [x for x in raw.values() if measured_bits(x[0]) == bs and x[1] == cs.Shots]
        mon.check(len(ran) >= 1, "the circuit was not run with its shots", i=i, **w)
    mon.case(w, True, w)


@REG.facet(600, 6000, needs={"calibrations": 200, "states": 1500, "runs": 500, "reuse": 200, "transfer": 60, "recalibrate": 40, "supplied": 40})
def histories(rng, mon):
    """Calibration is complete, runs once, and is repeated only when none for the same subsets is present."""
    dev = Device(rng, rng.randint(1, 5), rng.choice([0, 0.2]))
    shots = rng.choice([17, 1000, 10 ** 6])
    noise = readout(dev.subsets) if dev.be.noise else None
    cal_be, exp_be = ExactBackend(noise=noise), ExactBackend(noise=noise)
    parts = [list(p) for p in dev.parts]
    w = dict(device=dev.describe(), cal_shots=shots)

    def make(parts):
        return gen_FullyCorrelated_SPAM_MitRes(dev.be, shots, [list(p) for p in parts], calibration_mitres=MitRes(cal_be), correction_mitres=MitRes(exp_be))

    def check_calibration(jobs, parts):
        mon.saw("calibrations")
        mon.check(len(jobs) == 2 ** max(map(len, parts)), "number of calibration circuits", got=len(jobs), parts=str(parts), **w)
        mon.check(all(s == shots for _, s, _ in jobs), "shots of calibration circuits", got=[s for _, s, _ in jobs], **w)
        states = [prepared(c) for c, _, _ in jobs]
        for p in parts:
            seen = Counter(tuple(s.get(q) for q in p) for s in states)
            mon.saw("states", len(seen))
            mon.check(len(seen) == 2 ** len(p) and None not in {x for k in seen for x in k}, "a subset is not calibrated on every basis state",
                      subset=str(p), got=str(dict(seen)), **w)

    def run(mr, expect, parts, **kw):
        cal_be.jobs.clear()
        exp_be.jobs.clear()
        batch = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            batch.append(CircuitShots(dev.circuit(rng), rng.choice([100, 10 ** 6])))
        res = mr.run([CircuitShots(c.Circuit.copy(), c.Shots) for c in batch], **kw)
        mon.saw("runs")
        mon.check(len(res) == len(batch) and [s for _, s, _ in exp_be.jobs] == [b.Shots for b in batch], "experiments run", **w)
        for b, r in zip(batch, res):
            mon.check(sum(r.get_counts().values()) == b.Shots, "total shots", **w)
            if shots == 10 ** 6 and b.Shots == 10 ** 6 and noise is None:
                compare(mon, b.Circuit, r, b.Shots, 1e-5, "result in a history of runs", **w)
        if expect:
            check_calibration(cal_be.jobs, parts)
        else:
            mon.saw("reuse")
            mon.check(not cal_be.jobs, "calibration is repeated while valid calibration is present", jobs=len(cal_be.jobs), **w)

    mr = make(parts)
    run(mr, True, parts)
    hist = []
    for _ in range(rng.randint(1, 4)):
        a = rng.choice(["again", "again", "transfer", "supplied", "other", "fresh"])
        hist.append(a)
        if a == "again":
            run(mr, False, parts)
        elif a == "fresh":
            run(make(parts), True, parts)
        elif a == "transfer":
            mon.saw("transfer")
            m2 = make(parts)
            if rng.random() < 0.5:
                m2.set_characterisation(dict(mr.get_characterisation()))
            else:
                m2.update_characterisation(dict(mr.get_characterisation()))
            run(m2, False, parts)
        elif a == "supplied":
            mon.saw("supplied")
            run(make(parts), False, parts, characterisation=dict(mr.get_characterisation()))
        else:
            other = partition(rng, dev.nodes)
            if sorted(map(sorted, other)) == sorted(map(sorted, parts)):
                continue
            mon.saw("recalibrate")
            m2 = make(other)
            m2.set_characterisation(dict(mr.get_characterisation()))
            # the channels need not fit the other partition: single-bit checks are left out
            cal_be.jobs.clear()
            try:
                m2.run([])
            except SkipCase:
                continue
            check_calibration(cal_be.jobs, other)
            cal_be.jobs.clear()
            m2.run([])
            mon.check(not cal_be.jobs, "calibration is repeated", **w)
    mon.case((w, hist), True, {**w, "history": hist})


@REG.facet(60, 600, needs={"refusals": 150})
def refusals(rng, mon):
    dev = Device(rng, rng.randint(2, 4), 0)
    c = dev.circuit(rng)
    # calibration that cannot be inverted is refused, not guessed
    flat = ExactBackend(results=lambda c, n, i: {tuple([0] * len(c.bits)): n})
    mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, 100, [list(p) for p in dev.parts], calibration_mitres=MitRes(flat), correction_mitres=MitRes(dev.be))
    mon.saw("refusals")
    mon.rejects(ValueError, lambda: mr.run([CircuitShots(c.copy(), 100)]), "a singular calibration is not refused", circ=gens.describe(c))
    be = ExactBackend()
    be._info.architecture = None
    mon.saw("refusals")
    mon.rejects(ValueError, lambda: gen_UnCorrelated_SPAM_MitRes(be, 10), "a backend without architecture is not refused")
    be._info = None
    mon.saw("refusals")
    mon.rejects(ValueError, lambda: gen_UnCorrelated_SPAM_MitRes(be, 10), "a backend without information is not refused")
    mon.case(gens.describe(c), True, gens.describe(c))
