"""C22: depolarisation-factor correction divides each string by its own factor."""
from pytket.circuit import OpType
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import Exp, check_result
from qermit import MitEx, MitRes
from qermit.clifford_noise_characterisation.dfsc import DFSC_characterisation_task_gen, DFSC_correction_task_gen, gen_DFSC_MitEx
from qermit.taskgraph import gen_MeasurementReduction_MitEx

REG = Registry("C22", "A case runs a batch of experiments (Clifford gates and symbolic rotations, named qubits) through the correction on an exact "
               "backend which damps every expectation by a factor depending on the circuit's two-qubit gates and on the measured bits, decides "
               "the returned values against the noiseless expectations and every characterisation circuit against a stabiliser reference, or "
               "feeds arbitrary characterisation values to the correcting steps. Distinct by batch and noise.",
               assumptions=["as documented, gates which are not Clifford must be parametrised by symbols, and are Clifford where these are zero"])

SHOTS = 10 ** 8
SYMBOLIC = [OpType.Rx, OpType.Ry, OpType.Rz]
C2 = [OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.CX, OpType.ZZMax, OpType.ISWAPMax, OpType.ECR]


def circuit(rng, syms):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    c = gens.blank(qs)
    for _ in range(rng.randint(0, 10)):
        x = rng.random()
        if x < 0.35 and len(qs) > 1:
            c.add_gate(rng.choice(C2), rng.sample(qs, 2))
        elif x < 0.7 and syms:
            s = rng.choice(syms)
            e = s * rng.choice([1, 1, 2, -1]) + rng.choice([0, 0, 0.5, 1])
            y = rng.random()
            if y < 0.7 or len(qs) == 1:
                c.add_gate(rng.choice(SYMBOLIC), e, [rng.choice(qs)])
            elif y < 0.8:
                c.add_gate(OpType.PhasedX, [e, rng.choice([0, 0.5, 1])], [rng.choice(qs)])
            elif y < 0.88:
                c.add_gate(rng.choice([OpType.CRz, OpType.CRx, OpType.CU1, OpType.ISWAP]), s * rng.choice([1, -1, 2]), rng.sample(qs, 2))
            else:
                c.add_gate(rng.choice([OpType.ZZPhase, OpType.XXPhase, OpType.YYPhase]), e, rng.sample(qs, 2))
        elif x < 0.8:
            c.add_gate(rng.choice(SYMBOLIC), rng.choice([0.5, 1, 1.5]), [rng.choice(qs)])
        else:
            c.add_gate(rng.choice(gens.CLIFF1), [rng.choice(qs)])
    if rng.random() < 0.15:
        c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))))
        c.add_gate(rng.choice(gens.CLIFF1), [rng.choice(qs)])
    return c


def n_two(c):
    return sum(len(g.qubits) == 2 and g.op.type != OpType.Barrier for g in c.get_commands())


def measured(c):
    return sum(g.op.type == OpType.Measure for g in c.get_commands())


@REG.facet(320, 4000, needs={"expectations": 500, "characterisations": 500, "negative_states": 100, "noisy": 150})
def end_to_end(rng, mon):
    a, b = (rng.choice([0.97, 0.9, 0.8]), rng.choice([0.99, 0.9, 0.7])) if rng.random() < 0.8 else (1, 1)
    low = rng.random() < 0.15  # factors below the threshold
    exps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        syms = gens.symbols(rng, rng.randint(0, 3))
        c = circuit(rng, syms)
        e = Exp(rng, circ=c, n_strings=rng.randint(1, 5), shots=SHOTS)
        free = c.free_symbols()
        e.syms = [s for s in syms if s in free]
        e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
        exps.append(e)

    def factor(c):
        return a ** n_two(c) * b ** measured(c) * (0.001 if low else 1)

    signs = []

    def noise(c, d):
        f = factor(c)
        k = len(c.bits)
        parity = sum(p * (-1) ** sum(key) for key, p in d.items())
        signs.append(parity)
        out = {key: f * v for key, v in d.items()}
        for i in range(2 ** k):
            key = tuple((i >> j) & 1 for j in range(k))
            out[key] = out.get(key, 0) + (1 - f) / 2 ** k
        return out

    be = ExactBackend(noise=noise)
    kw = {}
    x = rng.random()
    if x < 0.25:
        kw["experiment_mitex"] = MitEx(be, _label="mine")
    if rng.random() < 0.25:
        kw["characterisation_mitex"] = MitEx(be, _label="chars", mitres=MitRes(be))
    thr = 0.01
    if rng.random() < 0.3 and not low:
        kw["DFSC_threshold"] = thr = rng.choice([0.001, 0.05])
    labels = {k: [m.label] + [t.label for t in m.tasks] for k, m in kw.items() if k != "DFSC_threshold"}
    dfsc = gen_DFSC_MitEx(be, **kw)
    for k, lab in labels.items():
        mon.check([kw[k].label] + [t.label for t in kw[k].tasks] == lab, "the object given was changed", which=k)
    w = dict(a=a, b=b, low=low, exps=[e.describe() for e in exps])
    if a < 1:
        mon.saw("noisy")
    for _ in range(rng.choice([1, 1, 2])):
        be.jobs.clear()
        signs.clear()
        given = [e.experiment() for e in exps]
        out = dfsc.run(given)
        mon.check(len(out) == len(exps), "number of results", got=len(out), **w)
        for e, g in zip(exps, given):
            mon.check(g.AnsatzCircuit.Circuit == e.circ, "the user's circuit was changed", **w)
        n_strings = sum(len(e.qpo._dict) for e in exps)
        # every string has its own experiment and characterisation circuit, the latter with an ideal value of one or minus one
        mon.check(len(be.jobs) == 2 * n_strings, "number of circuits run", got=len(be.jobs), want=2 * n_strings, **w)
        mon.check(all(j[1] == SHOTS for j in be.jobs), "shots of a circuit run", got=[j[1] for j in be.jobs], **w)
        definite = [s for s in signs if abs(abs(s) - 1) < 1e-6]
        mon.saw("characterisations", n_strings)
        mon.saw("negative_states", sum(s < 0 for s in definite))
        mon.check(len(definite) >= n_strings, "a characterisation circuit has no definite ideal value", signs=signs, **w)
        for e, o in zip(exps, out):
            want = e.expected()
            mon.check(set(o._dict) == set(want), "strings returned", got=[str(s) for s in o._dict], **w)
            for s, (co, x) in want.items():
                mon.saw("expectations")
                k = sum(p != Pauli.I for p in s.map.values())
                f = a ** n_two(e.circ) * b ** k * (0.001 if low else 1)
                if abs(f - thr) < 1e-3 * thr + 1e-6:
                    continue
                y = co * x * (1 if f > thr else f)
                mon.check(abs(complex(o._dict[s]) - y) < 1e-4 * max(1, abs(co)), "corrected value" if f > thr else "a string without usable factor was changed",
                          string=str(s), got=str(o._dict[s]), want=y, factor=f, one=e.describe(), **w)
    mon.case((str(w)), bool(exps), w)


@REG.facet(600, 6000, needs={"divided": 500, "kept": 200, "rejected": 20})
def correcting_steps(rng, mon):
    """Arbitrary values: the factor of each string is that of its own circuits, and divides its own value."""
    thr = rng.choice([0.01, 0.1, 0.5])
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    res, chars, sizes, flat = [], [], [], []
    for _ in range(rng.randint(0, 4)):
        strings = list(gens.observable(rng, qs, rng.randint(1, 5))._dict)
        res.append({s: rng.uniform(-3, 3) for s in strings})
        one = {}
        rounds = rng.choice([1, 1, 2, 3])
        vals = {s: [rng.choice([rng.uniform(0, 1), rng.uniform(0, thr), 0.0]) for _ in range(rounds)] for s in strings}
        for r in range(rounds):
            order = list(strings)
            rng.shuffle(order)
            flat += [QubitPauliOperator({s: vals[s][r]}) for s in order]
        sizes.append(rounds * len(strings))
        chars.append({s: sum(v) / rounds for s, v in vals.items()})
    (cs,) = DFSC_characterisation_task_gen()([flat, list(sizes)])
    w = dict(threshold=thr, res=str(res), chars=str(chars))
    mon.check(len(cs) == len(chars), "number of characterisations", **w)
    for c, want in zip(cs, chars):
        mon.check(set(c._dict) == set(want) and all(abs(float(c._dict[s]) - v) < 1e-9 for s, v in want.items()), "factors of an experiment",
                  got=str(c._dict), want=str(want))
    shuffled = []
    for d in res:
        items = list(d.items())
        rng.shuffle(items)
        shuffled.append(QubitPauliOperator(dict(items)))
    (out,) = DFSC_correction_task_gen(thr)([shuffled, cs])
    mon.check(len(out) == len(res), "number of results", **w)
    for o, d, c in zip(out, res, chars):
        mon.check(set(o._dict) == set(d), "strings returned", **w)
        for s, v in d.items():
            if abs(c[s] - thr) < 1e-9:
                continue
            use = c[s] > thr
            mon.saw("divided" if use else "kept")
            mon.check(abs(float(o._dict[s]) - (v / c[s] if use else v)) < 1e-9 * max(1, 1 / thr), "corrected value", string=str(s), got=float(o._dict[s]),
                      value=v, factor=c[s], **w)
    if res and rng.random() < 0.3:
        mon.saw("rejected")
        mon.rejects(ValueError, lambda: DFSC_correction_task_gen(thr)([shuffled[1:], cs]), "results and characterisations of different numbers")
    mon.case(w, bool(res), w)


@REG.facet(150, 1500, needs={"expectations": 150})
def composed(rng, mon):
    """In front of other expectation objects, with uniform damping of every expectation."""
    f = rng.choice([1.0, 0.9, 0.5, 0.2])
    exps = []
    for _ in range(rng.choice([1, 2])):
        syms = gens.symbols(rng, rng.randint(0, 2))
        c = circuit(rng, syms)
        e = Exp(rng, circ=c, n_strings=rng.randint(1, 5), shots=SHOTS)
        e.syms = [s for s in syms if s in c.free_symbols()]
        e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
        exps.append(e)

    def noise(c, d):
        k = len(c.bits)
        out = {key: f * v for key, v in d.items()}
        for i in range(2 ** k):
            key = tuple((i >> j) & 1 for j in range(k))
            out[key] = out.get(key, 0) + (1 - f) / 2 ** k
        return out

    be = ExactBackend(noise=noise)
    kw = {"experiment_mitex": gen_MeasurementReduction_MitEx(be)}
    if rng.random() < 0.5:
        kw["characterisation_mitex"] = gen_MeasurementReduction_MitEx(be)
    out = gen_DFSC_MitEx(be, **kw).run([e.experiment() for e in exps])
    mon.check(len(out) == len(exps), "number of results")
    for e, o in zip(exps, out):
        check_result(mon, e, o, "corrected result with measurement reduction", tol=1e-4, f=f)
    mon.case((f, [e.describe() for e in exps]), True, {"f": f, "exps": len(exps)})
