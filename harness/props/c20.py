"""C20: zero-noise extrapolation recovers extrapolatable data, string by string."""
import hashlib
import itertools
import warnings
from typing import List, Tuple

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from pytket.architecture import Architecture
from pytket.circuit import Node, OpType
from pytket.extensions.qiskit import AerBackend
from pytket.passes import CustomPass, DecomposeSwapsToCXs, DefaultMappingPass, FullPeepholeOptimise, NaivePlacementPass, SequencePass
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import Exp, check_result
from qermit import MitEx, MitRes, MitTask, ObservableExperiment, TaskGraph
from qermit.taskgraph import gen_MeasurementReduction_MitEx
from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx
from qermit.noise_model import ErrorDistribution, NoiseModel
from qermit.zero_noise_extrapolation.zne import extrapolation_task_gen, gen_noise_scaled_mitex
from pytket.pauli import Pauli

REG = Registry("C20", "A case fits data following a model exactly (or compares a least-squares fit with an independent one), or runs a batch of "
               "experiments through zero-noise extrapolation with an inner expectation object that records what it is given and answers with "
               "arbitrary values per circuit and string (the reference extrapolates those by string and scaling), or on an exact backend whose "
               "damping is polynomial in the number of gates (the reference is the noiseless expectation). Distinct by data / batch.",
               assumptions=["exponential and cube-root fits are iterative: data is drawn from well-conditioned parameters"])

SHOTS = 10 ** 8
FITS = {"linear": Fit.linear, "polynomial": Fit.polynomial, "richardson": Fit.richardson}


def scalings(rng, m, kind="any"):
    if kind == "odd":
        xs = rng.sample([1, 3, 5, 7, 9], m)
    else:
        xs = [round(1 + i * rng.choice([0.5, 1, 2]) + rng.choice([0, 0.25]), 3) for i in range(m)]
        while len(set(xs)) < m:
            xs = [x + 0.2 * i for i, x in enumerate(xs)]
    if rng.random() < 0.3:
        rng.shuffle(xs)
    return xs


def reference(fit, xs, ys, deg):
    """Least-squares value at zero, by an independent solve."""
    d = {"linear": 1, "polynomial": deg, "richardson": len(xs) - 1}[fit]
    a = np.vander(np.array(xs, float), d + 1, increasing=True)
    sol, *_ = np.linalg.lstsq(a, np.array([float(y) for y in ys]), rcond=None)
    return float(sol[0])


matplotlib.use("Agg")


class Shown:
    """Collects what is plotted while inside."""

    def __enter__(self):
        plt.close("all")
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        self.plots = []
        for n in plt.get_fignums():
            points, curves = [], []
            for ax in plt.figure(n).axes:
                for c in ax.collections:
                    points += [tuple(map(float, p)) for p in c.get_offsets()]
                for l in ax.lines:
                    curves.append((np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)))
                    points += list(zip(*[map(float, v) for v in curves[-1]]))
            self.plots.append((points, curves))
        plt.close("all")
        self.w.__exit__(*a)


def has_point(plot, x, y):
    return any(abs(a - x) < 1e-9 and abs(b - y) < 1e-9 for a, b in plot[0])


def fitted(rng, mon, fit, xs, ys, *deg, exact=True):
    """The extrapolated value; one time in eight with the plot shown, which must show the data and the value."""
    if rng.random() > 0.125:
        return fit(xs, ys, False, *deg)
    with Shown() as sh:
        got = fit(xs, ys, True, *deg)
    mon.saw("plots")
    ok = len(sh.plots) == 1 and has_point(sh.plots[0], 0, got) and all(has_point(sh.plots[0], x, y) for x, y in zip(xs, ys))
    mon.check(ok, "the plot of a fit does not show the data and the value returned", xs=xs, ys=ys, got=got, plots=str(sh.plots)[:300])
    if exact:
        lim = 0.02 * max(1, max(abs(y) for y in ys))
        near = [max(abs(np.interp(x, cx[np.argsort(cx)], cy[np.argsort(cx)]) - y) for x, y in zip(xs, ys)) < lim
                for cx, cy in sh.plots[0][1] if min(cx) - 1e-6 <= min(xs) and max(cx) + 1e-6 >= max(xs)]
        mon.check(any(near), "the plot of a fit to exact data does not show a curve through the data", xs=xs, ys=ys)
    return got


@REG.facet(1500, 20000, needs={"plots": 40, "exact_fits": 250, "least_squares": 100, "exponential": 50, "poly_exponential": 50, "cube_root": 50, "refused": 60})
def fits(rng, mon):
    kind = rng.choice(["poly", "poly", "ls", "exp", "pexp", "cube", "refuse"])
    if kind in ("poly", "ls"):
        m = rng.randint(2, 6)
        fit = rng.choice(list(FITS))
        deg = rng.randint(0, m - 1)
        xs = scalings(rng, m)
        true = {"linear": 1, "polynomial": deg, "richardson": m - 1}[fit]
        co = [rng.uniform(-1, 1) * 0.3 ** i for i in range(true + 1)]
        ys = [sum(c * x ** i for i, c in enumerate(co)) for x in xs]
        if kind == "ls":
            ys = [y + rng.uniform(-0.1, 0.1) for y in ys]
        gx, gy = list(xs), list(ys)
        got = fitted(rng, mon, FITS[fit], gx, gy, deg, exact=kind == "poly")
        want = co[0] if kind == "poly" else reference(fit, xs, ys, deg)
        mon.saw("exact_fits" if kind == "poly" else "least_squares")
        mon.check(gx == xs and gy == ys, "the data given was changed", xs=xs, ys=ys)
        mon.check(isinstance(got, float) and abs(got - want) < 1e-6 * max(1, max(abs(y) for y in ys)) * 10 ** (true / 2),
                  "extrapolated value", fit=fit, deg=deg, xs=xs, ys=ys, got=got, want=want)
    elif kind == "exp":
        m = rng.randint(4, 6)
        xs = [1 + i * rng.choice([1, 2]) for i in range(m)]
        xs = sorted(set(xs))
        if len(xs) < 4:
            raise SkipCase
        if rng.random() < 0.3:
            rng.shuffle(xs)
        a, b, c = rng.uniform(-0.3, 0.3), rng.choice([-1, 1]) * rng.uniform(0.4, 0.9), -rng.uniform(0.15, 0.5)
        ys = [a + b * np.exp(c * x) for x in xs]
        mon.saw("exponential")
        got = fitted(rng, mon, Fit.exponential, list(xs), list(ys), rng.randint(0, 3))
        mon.check(abs(got - (a + b)) < 1e-3, "exponential extrapolation", xs=xs, ys=ys, got=got, want=a + b)
    elif kind == "pexp":
        deg = rng.choice([1, 1, 0])
        xs = sorted({1 + i * rng.choice([1, 2]) for i in range(6)} | {1, 4, 9})
        a = rng.uniform(-0.3, 0.3)
        b = rng.choice([-1, 1]) * rng.uniform(0.4, 0.9)
        cs = [-rng.uniform(0.15, 0.4)] if deg else []
        ys = [a + b * np.exp(sum(c * x ** (len(cs) - i) for i, c in enumerate(cs))) for x in xs]
        mon.saw("poly_exponential")
        got = fitted(rng, mon, Fit.poly_exponential, list(xs), list(ys), deg)
        mon.check(abs(got - (a + b)) < 1e-3, "poly-exponential extrapolation", deg=deg, xs=xs, ys=ys, got=got, want=a + b)
    elif kind == "cube":
        a, b, c = rng.uniform(-0.3, 0.3), rng.uniform(0.3, 0.9), rng.uniform(-0.3, 0.5)
        xs = [1, 2, 3, 5, 7][:rng.randint(4, 5)]
        f = lambda x: a + b * np.cbrt(x + c)
        ys = [f(x) for x in xs]
        mon.saw("cube_root")
        got = fitted(rng, mon, Fit.cube_root, list(xs), list(ys), 0)
        mon.check(abs(got - f(0)) < 1e-3, "cube root extrapolation", abc=(a, b, c), xs=xs, ys=ys, got=got, want=f(0))
    else:
        m = rng.randint(1, 5)
        xs = list(range(1, m + 1))
        ys = [rng.uniform(-1, 1) for _ in xs]
        deg = rng.choice([-1, -3, m, m + 1, m + 3])
        mon.saw("refused")
        mon.rejects(ValueError, lambda: Fit.polynomial(xs, ys, False, deg), "a degree too high for the data is not refused", m=m, deg=deg)
        d2 = rng.choice([-1, m - 1, m, m + 2])
        mon.rejects(ValueError, lambda: Fit.poly_exponential(xs, ys, False, d2), "a degree too high for the data is not refused (exponential)", m=m, deg=d2)
        if m == 1:
            mon.rejects(ValueError, lambda: Fit.linear(xs, ys, False), "a line is fitted to one point", m=m)
    mon.case((kind, str(xs), str(ys)), True, {"kind": kind, "xs": xs, "ys": ys})


@REG.facet(400, 4000, needs={"strings": 1500})
def collation(rng, mon):
    """The collating step, values per scaling and string arbitrary."""
    xs = scalings(rng, rng.randint(2, 5))
    fit = rng.choice(list(FITS))
    deg = rng.randint(1, len(xs) - 1)
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    per = [[s for s in gens.observable(rng, qs, rng.randint(1, 5))._dict] for _ in range(rng.randint(0, 4))]
    vals = [[{s: rng.uniform(-1, 1) for s in ss} for ss in per] for _ in xs]
    wires = [[QubitPauliOperator(dict(d)) for d in vs] for vs in vals]
    for v, ws in zip(vals, wires):
        for i, d in enumerate(v):
            if rng.random() < 0.5:
                items = list(d.items())
                rng.shuffle(items)
                ws[i] = QubitPauliOperator(dict(items))
    shown = rng.random() < 0.08
    task = extrapolation_task_gen(list(xs), FITS[fit], shown, deg)
    mon.check(task.n_in_wires == len(xs) and task.n_out_wires == 1, "wires of the collating task")
    with Shown() as sh:
        (out,) = task(wires)
    mon.check(len(sh.plots) == shown * sum(map(len, per)), "number of fits shown", got=len(sh.plots), want=shown * sum(map(len, per)))
    mon.saw("plots", len(sh.plots))
    mon.check(len(out) == len(per), "number of operators", got=len(out), want=len(per))
    for i, (ss, o) in enumerate(zip(per, out)):
        mon.check(set(o._dict) == set(ss), "strings returned", got=str(list(o._dict)), want=str(ss))
        for s in ss:
            mon.saw("strings")
            mon.check(not shown or any(has_point(p, 0, float(o._dict[s])) and all(has_point(p, x, v[i][s]) for x, v in zip(xs, vals)) for p in sh.plots),
                      "no plot shows a string's values and its result", string=str(s), xs=xs, fit=fit)
            want = reference(fit, xs, [v[i][s] for v in vals], deg)
            mon.check(abs(float(o._dict[s]) - want) < 1e-6 * 10 ** (len(xs) / 2), "a string is not extrapolated from its own values", xs=xs,
                      fit=fit, deg=deg, string=str(s), got=float(o._dict[s]), want=want)
    mon.case((xs, fit, deg, str(per)), bool(per), {"xs": xs, "fit": fit, "per": [len(x) for x in per]})


def gates(c):
    return [g for g in c.get_commands() if g.op.type != OpType.Barrier]


def n_two(c):
    return sum(len(g.qubits) == 2 for g in gates(c))


ENT = [OpType.XXPhase, OpType.YYPhase, OpType.ZZPhase]


def body(rng, qs, kind, k, syms=None):
    c = gens.blank(qs)
    if kind == "two":  # two qubit gates only
        for _ in range(k):
            a, b = rng.sample(qs, 2)
            if rng.random() < 0.7:
                e = round(rng.uniform(0.1, 0.9), 3)
                if syms and rng.random() < 0.5:
                    e = rng.choice(syms)
                c.add_gate(rng.choice(ENT), e, [a, b])
            else:
                c.CX(a, b)
    else:
        while len(gates(c)) < k:
            gens.add_gates(rng, c, qs, 1, "any", syms)
        if n_two(c) == 0:
            c.CX(*rng.sample(qs, 2))
    return c


def identity():
    return CustomPass(lambda c: c)


LINE = Architecture([(Node("dev", i), Node("dev", i + 1)) for i in range(5)])
FULL = Architecture(list(itertools.combinations([Node("dev", i) for i in range(6)], 2)))


def compilation(rng, n):
    """(pass or None, whether it may change gates)"""
    x = rng.random()
    if x < 0.4:
        return None, "none"
    if x < 0.6:
        return NaivePlacementPass(FULL), "place"
    if x < 0.8:
        return SequencePass([DefaultMappingPass(LINE), DecomposeSwapsToCXs(LINE)]), "route"
    return FullPeepholeOptimise(), "swaps"


def value(c, s, seed):
    h = hashlib.sha256(("%s|%s|%s" % (seed, [str(g) for g in c.get_commands()], s)).encode()).digest()
    return int.from_bytes(h[:4], "big") / 2 ** 31 - 1


def scripted_mitex(be, log, seed):
    def task(obj, exps: List[ObservableExperiment]) -> Tuple[List[QubitPauliOperator]]:
        out, call = [], []
        for e in exps:
            d = {s: complex(co).real * value(e.AnsatzCircuit.Circuit, s, seed) for s, co in e.ObservableTracker.qubit_pauli_operator._dict.items()}
            call.append((e.AnsatzCircuit.Circuit.copy(), e.AnsatzCircuit.Shots, {k: v for k, v in e.AnsatzCircuit.SymbolsDict._symbolic_map.items()},
                         dict(e.ObservableTracker.qubit_pauli_operator._dict), dict(d)))
            out.append(QubitPauliOperator(d))
        log.append(call)
        return (out,)

    t = MitTask(_label="Scripted", _n_in_wires=1, _n_out_wires=1, _method=task)
    tg = TaskGraph("ScriptedGraph")
    tg.append(t)
    return MitEx(be).from_TaskGraph(tg)


@REG.facet(350, 4000, needs={"calls": 500, "strings": 800, "samples_merged": 60, "symbolic": 60})
def alignment(rng, mon):
    """What the inner expectation object is given and how its arbitrary answers are used."""
    folding = rng.choice(["circuit", "circuit", "two_qubit_gate", "gate", "noise_aware"])
    xs = scalings(rng, rng.randint(2, 4), "odd" if folding == "circuit" else "any")
    if folding == "gate" or folding == "two_qubit_gate":
        xs = sorted({rng.choice([1, 2, 3, 4, 1.5, 2.5, 5]) for _ in range(5)})
        rng.shuffle(xs)
        if len(xs) < 2:
            raise SkipCase
    if folding == "noise_aware":
        xs = rng.sample([1, 2, 3, 4], rng.randint(2, 3))
    fit = rng.choice(list(FITS))
    deg = rng.randint(1, len(xs) - 1)
    n_exp = rng.choice([0, 1, 1, 2, 3])
    exps = []
    sizes = rng.sample(range(2, 8), n_exp)
    for k in sizes:
        qs = gens.new_qubits(rng, rng.randint(2, 3))
        syms = gens.symbols(rng, 1) if rng.random() < 0.4 else []
        c = gens.blank(qs)
        # an even number of gates, each entangling, makes every factor reachable to within one fold
        c = body(rng, qs, "two", 4 * k, syms)
        e = Exp(rng, circ=c, n_strings=rng.randint(1, 4), shots=rng.choice([100, 1000, 12345]))
        e.syms = [s for s in syms]
        e.vals = {s: round(rng.uniform(0, 2), 3) for s in syms}
        exps.append(e)
        if syms:
            mon.saw("symbolic")
    log = []
    seed = rng.getrandbits(32)
    be = ExactBackend()
    be.rebase_pass = identity
    inner = scripted_mitex(be, log, seed)
    kw = dict(experiment_mitex=inner, fit_type=FITS[fit], folding_type=getattr(Folding, folding), seed=rng.getrandbits(31))
    if fit != "polynomial" or rng.random() < 0.7:
        kw["deg"] = deg
    else:
        deg = len(xs) - 1
    samples = 1
    if folding == "noise_aware":
        samples = rng.choice([1, 2, 5])
        kw["noise_model"] = NoiseModel({t: ErrorDistribution({(Pauli.X, Pauli.I): 0.1, (Pauli.Z, Pauli.Y): 0.05},
                                                             rng=np.random.default_rng(rng.getrandbits(32))) for t in ENT})
        kw["n_noisy_circuit_samples"] = samples
    labels = [inner.label] + [t.label for t in inner.tasks]
    zne = gen_ZNE_MitEx(be, list(xs), **kw)
    mon.check(labels == [inner.label] + [t.label for t in inner.tasks], "the expectation object given was changed", got=inner.label, want=labels)
    w = dict(xs=xs, fit=fit, deg=deg, folding=folding, exps=[e.describe() for e in exps])
    for run in range(rng.choice([1, 1, 2])):
        log.clear()
        given = [e.experiment() for e in exps]
        out = zne.run(given)
        for e, g in zip(exps, given):
            mon.check(g.AnsatzCircuit.Circuit == e.circ and g.AnsatzCircuit.Shots == e.shots
                      and dict(g.ObservableTracker.qubit_pauli_operator._dict) == dict(e.qpo._dict), "the user's experiment was changed", **w)
        mon.check(len(out) == len(exps), "number of results", got=len(out), **w)
        mon.check(len(log) == len(xs), "number of noise levels measured", got=len(log), **w)
        if not exps:
            continue
        if folding == "noise_aware":
            levels = [None] * len(log)
        else:
            levels = []
            for call in log:
                mon.saw("calls")
                mon.check(len(call) == len(exps), "number of experiments measured at a noise level", got=len(call), **w)
                tot = sum(n_two(c[0]) for c in call)
                base = sum(n_two(e.circ) for e in exps)
                near = [x for x in xs if abs(tot / base - x) < 1e-6]
                mon.check(len(near) == 1, "an experiment was measured at a noise level not asked for", got=tot / base, **w)
                levels.append(near[0])
            mon.check(sorted(levels) == sorted(xs), "noise levels measured", got=levels, **w)
        for i, (e, o) in enumerate(zip(exps, out)):
            mon.check(set(o._dict) == set(e.qpo._dict), "strings returned", got=str(list(o._dict)), **w)
            series = {}
            for call, lev in zip(log, levels):
                if folding == "noise_aware":
                    mine = [c for c in call if skeleton(c[0]) == skeleton(e.circ)]
                    mon.saw("calls")
                    mon.saw("samples_merged", len(mine))
                    mon.check(len(mine) == samples, "number of noisy samples of an experiment", got=len(mine), want=samples, **w)
                else:
                    mine = [c for c in call if n_two(c[0]) == round(lev * n_two(e.circ))]
                    mon.check(len(mine) == 1, "an experiment is not measured at some noise level", level=lev, **w)
                    c = mine[0][0].copy()
                    a = e.circ.copy()
                    if e.vals:
                        c.symbol_substitution(e.vals)
                        a.symbol_substitution(e.vals)
                    mon.check(sim.same_up_to_phase(sim.unitary(a), sim.unitary(c)), "the circuit measured is not the experiment's", level=lev, **w)
                for c in mine:
                    mon.check(c[1] == e.shots // samples, "shots of a scaled experiment", got=c[1], want=e.shots // samples, **w)
                    mon.check({str(k): v for k, v in c[2].items()} == {str(k): v for k, v in e.vals.items()}, "symbol values of a scaled experiment",
                              got=str(c[2]), **w)
                    mon.check(c[3] == dict(e.qpo._dict), "observable of a scaled experiment", got=str(c[3]), **w)
                for s in e.qpo._dict:
                    series.setdefault(s, []).append(sum(c[4][s] for c in mine) / len(mine))
            if folding == "noise_aware":
                continue
            for s, ys in series.items():
                mon.saw("strings")
                want = reference(fit, levels, ys, deg)
                mon.check(abs(complex(o._dict[s]) - want) < 1e-5 * max(1, max(map(abs, ys))), "a string is not extrapolated from its own measured values",
                          string=str(s), levels=levels, ys=ys, got=str(o._dict[s]), want=want, **w)
        if folding == "noise_aware":
            # the call of each level is known only up to order: some order must explain every value
            ok = False
            for perm in itertools.permutations(xs):
                if all(abs(complex(o._dict[s]) - reference(fit, perm, [sum(c[4][s] for c in call if skeleton(c[0]) == skeleton(e.circ)) / samples
                                                                    for call in log], deg)) < 1e-5 * 4
                       for e, o in zip(exps, out) for s in e.qpo._dict):
                    ok = True
            mon.saw("strings", sum(len(e.qpo._dict) for e in exps))
            mon.check(ok, "values are not extrapolated from the means over the samples of each noise level", out=[str(o._dict) for o in out], **w)
    mon.case((xs, fit, folding, str(w["exps"])), bool(exps), {"xs": xs, "fit": fit, "folding": folding, "exps": len(exps)})


def skeleton(c):
    """Commands without the Paulis noise-aware folding inserts."""
    return [str(g) for g in c.get_commands() if g.op.type not in (OpType.X, OpType.Y, OpType.Z)]


@REG.facet(160, 2000, needs={"expectations": 200, "noisy": 40, "relabelled": 25})
def end_to_end(rng, mon):
    """Damping polynomial in the number of two-qubit gates: the extrapolated value is the noiseless one."""
    fit = rng.choice(list(FITS))
    noisy = rng.random() < 0.75
    folding = rng.choice(["circuit", "two_qubit_gate", "gate", "odd_gate"] + ([] if noisy else ["noise_aware"]))
    m = rng.randint(2, 4)
    if folding == "circuit":
        xs = rng.sample([1, 3, 5, 7], m)
    elif folding in ("odd_gate", "noise_aware"):
        xs = rng.sample([1, 2, 3, 4], m)
    else:
        xs = rng.sample([1, 1.5, 2, 2.5, 3, 4, 5], m)
    deg = rng.randint(1, m - 1)
    power = {"linear": 1, "polynomial": deg, "richardson": m - 1}[fit]
    p, pname = compilation(rng, 3)
    if noisy and folding != "circuit" and pname != "place":
        p, pname = None, "none"
    n_exp = rng.choice([0, 1, 1, 2])
    exps = []
    for _ in range(n_exp):
        while True:
            qs = gens.new_qubits(rng, rng.randint(2, 3))
            # tket takes qubits of this register for placed ones
            if pname not in ("place", "route") or all(q.reg_name != "node" for q in qs):
                break
        syms = gens.symbols(rng, 1) if rng.random() < 0.3 and pname != "swaps" else None
        while True:
            c = body(rng, qs, "two" if folding in ("gate", "odd_gate") else "any", 4 * rng.randint(1, 2), syms)
            if folding == "two_qubit_gate":
                while n_two(c) % 4:
                    c.CX(*rng.sample(qs, 2))
            if pname == "route" and any(len(g.qubits) > 2 for g in gates(c)):
                continue  # tket does not route these
            if pname == "swaps" and folding == "two_qubit_gate":
                cc = c.copy()
                p.apply(cc)
                if n_two(cc) == 0:
                    continue  # nothing left to fold: refused
            break
        e = Exp(rng, circ=c, n_strings=rng.randint(1, 4), shots=SHOTS)
        e.vals = {s: round(rng.uniform(0, 2), 3) for s in (syms or [])}
        exps.append(e)
    a = rng.uniform(0.002, 0.006)

    def noise(c, d):
        n = n_two(c)
        f = {1: 1 - a * n, 2: 1 - a * n + (a * n) ** 2 / 4, 3: 1 - a * n + (a * n) ** 2 / 4 - (a * n) ** 3 / 30}[power]
        assert 0 <= f <= 1
        k = len(c.bits)
        out = {key: f * v for key, v in d.items()}
        for i in range(2 ** k):
            key = tuple((i >> j) & 1 for j in range(k))
            out[key] = out.get(key, 0) + (1 - f) / 2 ** k
        return out

    be = ExactBackend(noise=noise if noisy else None, compile_pass=p)
    be.rebase_pass = identity
    kw = dict(fit_type=FITS[fit], folding_type=getattr(Folding, folding), deg=deg, seed=rng.getrandbits(31), optimisation_level=rng.choice([0, 1, 2]))
    inner = None
    x = rng.random()
    if x < 0.2:
        kw["experiment_mitres"] = inner = MitRes(be, _label="mine")
    elif x < 0.4:
        kw["experiment_mitex"] = inner = MitEx(be, _label="mine")
    elif x < 0.6 and not noisy:
        kw["experiment_mitex"] = inner = gen_MeasurementReduction_MitEx(be)
    if folding == "noise_aware":
        kw["n_noisy_circuit_samples"] = 2
    labels = inner and [inner.label] + [t.label for t in inner.tasks]
    if exps and noisy:
        mx = max(n_two(e.circ) for e in exps)
        if p is None or pname == "place":
            mon.saw("noisy")
        if mx * max(xs) * a > 0.9 or pname in ("route", "swaps"):
            a = 0.9 / (max(4 * mx + 12, 1) * max(xs) * 3)
    zne = gen_ZNE_MitEx(be, list(xs), **kw)
    if inner is not None:
        mon.check(labels == [inner.label] + [t.label for t in inner.tasks], "the object given was changed")
    if pname in ("place", "route"):
        mon.saw("relabelled")
    w = dict(xs=xs, fit=fit, deg=deg, folding=folding, compiled=pname, noisy=noisy)
    for _ in range(rng.choice([1, 1, 2])):
        given = [e.experiment() for e in exps]
        out = zne.run(given)
        mon.check(len(out) == len(exps), "number of results", got=len(out), **w)
        for e, g, o in zip(exps, given, out):
            check_result(mon, e, o, "extrapolated result", tol=2e-3, **w)
            mon.check(g.AnsatzCircuit.Circuit == e.circ, "the user's circuit was changed", **w)
    mon.case((str(w), [e.describe() for e in exps]), bool(exps), dict(w))


@REG.facet(120, 1200, needs={"scaled": 100})
def noise_scaled(rng, mon):
    """A noise-scaled expectation object returns the expectation at that noise level."""
    folding = rng.choice(["circuit", "two_qubit_gate", "gate", "odd_gate"])
    ns = rng.choice([1, 3, 5]) if folding == "circuit" else rng.choice([1, 2, 3]) if folding == "odd_gate" else rng.choice([1, 1.5, 2, 3.5, 4])
    qs = gens.new_qubits(rng, rng.randint(2, 3))
    c = body(rng, qs, "two", 4 * rng.randint(1, 3))
    e = Exp(rng, circ=c, n_strings=rng.randint(1, 4), shots=SHOTS)
    a = 0.9 / (n_two(c) * 5)

    def noise(c, d):
        f = 1 - a * n_two(c)
        k = len(c.bits)
        out = {key: f * v for key, v in d.items()}
        for i in range(2 ** k):
            key = tuple((i >> j) & 1 for j in range(k))
            out[key] = out.get(key, 0) + (1 - f) / 2 ** k
        return out

    be = ExactBackend(noise=noise)
    kw = {} if folding == "circuit" and rng.random() < 0.5 else {"folding_type": getattr(Folding, folding)}
    mx = gen_noise_scaled_mitex(be, ns, **kw)
    out = mx.run([e.experiment()])
    mon.check(len(out) == 1, "number of results")
    mon.saw("scaled")
    want = e.expected()
    f = 1 - a * n_two(c) * ns
    mon.check(set(out[0]._dict) == set(want), "strings returned")
    for s, (co, x) in want.items():
        mon.check(abs(complex(out[0]._dict[s]) - co * x * f) < 1e-4 * max(1, abs(co)), "value at a scaled noise level", folding=folding, factor=ns,
                  got=str(out[0]._dict[s]), want=co * x * f, exp=e.describe())
    mon.case((folding, ns, str(e.describe())), True, {"folding": folding, "factor": ns})
