"""C23: spectral filtering evaluates, filters and interpolates each experiment on its own grid."""
import hashlib
import itertools

import numpy as np
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry
from harness.exps import Exp, canon
from harness.props.c21 import recorder
from qermit import MitEx, MitRes
from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
from qermit.spectral_filtering.signal_filter import SignalFilter
from qermit.spectral_filtering.spectral_filtering import (gen_fft_task, gen_flatten_task, gen_inv_fft_task, gen_mitigation_task, gen_ndarray_to_dict_task,
                                                          gen_obs_exp_grid_gen_task, gen_param_grid_gen_task, gen_reshape_task, gen_result_extraction_task,
                                                          gen_symbol_val_gen_task, gen_wire_copy_task)
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx

REG = Registry("C23", "A case is a batch of experiments with one to three symbols each, a grid size and a filter: a recording expectation object gives arbitrary "
               "values to circuits and strings, an independent transform, filter, inverse and interpolation predicts what is returned; or an exact backend "
               "is swept and values on the grid are compared with plain expectations; or a single task is fed random data. Distinct by batch.",
               assumptions=["a symbol's value lies within the period swept, [0, 2)", "cases with a Fourier coefficient within 1e-6 of the threshold are not decided"])


def dft(a, sign):
    """Discrete transform, one axis after another, by matrices."""
    out = np.array(a, dtype=complex)
    for ax, n in enumerate(a.shape):
        k = np.arange(n)
        m = np.exp(sign * 2j * np.pi * np.outer(k, k) / n)
        out = np.moveaxis(np.tensordot(m, out, axes=(1, ax)), 0, ax)
        if sign > 0:
            out = out / n
    return out


def interpolate(grid, point):
    """Multilinear, on the periodic grid 2i/n."""
    out = 0
    cells = []
    for n, p in zip(grid.shape, point):
        x = p * n / 2
        i = min(int(np.floor(x + 1e-12)), n - 1)
        t = x - i
        cells.append([(i, 1 - t), ((i + 1) % n, t)])
    for corner in itertools.product(*cells):
        w = 1
        for _, t in corner:
            w *= t
        if w:
            out += w * grid[tuple(i for i, _ in corner)]
    return out


class Halve(SignalFilter):
    """A user's own filter: it keeps low modes and halves the constant one."""

    def filter(self, g):
        out = np.array(g)
        out[tuple(0 for _ in g.shape)] /= 2
        for idx in itertools.product(*[range(n) for n in g.shape]):
            if any(min(i, n - i) > 1 for i, n in zip(idx, g.shape)):
                out[idx] = 0
        return out


def apply_filter(mon, f, spec):
    if f is None or isinstance(f, SmallCoefficientSignalFilter):
        tol = 5 if f is None else f.tol
        if np.any(np.abs(np.abs(spec) - tol) < 1e-6):
            return None
        mon.saw("dropped", int(np.sum(np.abs(spec) < tol)))
        mon.saw("kept", int(np.sum(np.abs(spec) >= tol)))
        return np.where(np.abs(spec) < tol, 0, spec)
    return Halve().filter(spec)


def sweep(rng, n_sym, n_vals, on_grid=False, kind="any"):
    """An experiment whose circuit depends on its symbols."""
    e = Exp(rng, n=rng.randint(1, 3), n_gates=rng.randint(1, 5), kind=kind, n_sym=0, n_strings=rng.randint(1, 3), shots=rng.choice([100, 777, 4000]))
    e.syms = gens.symbols(rng, n_sym)
    qs = list(e.circ.qubits)
    used = list(e.syms)
    if n_sym > 1 and rng.random() < 0.15:
        used = used[:-1]  # a symbol the circuit does not depend on
    for s in used:
        e.circ.add_gate(rng.choice(gens.ROT1), s * rng.choice([1, 1, 1, 2, -1]) + rng.choice([0, 0, 0.3]), [rng.choice(qs)])
        gens.add_gates(rng, e.circ, qs, rng.randint(0, 2), kind)
    if used and rng.random() < 0.3:
        e.circ.add_gate(rng.choice(gens.ROT1), sum(used[:2]), [rng.choice(qs)])
    order = list(e.syms)
    rng.shuffle(order)
    e.vals = {}
    for s in order:
        r = rng.random()
        if on_grid or r < 0.4:
            e.vals[s] = 2 * rng.randrange(n_vals) / n_vals
        elif r < 0.6:
            e.vals[s] = 2 - rng.uniform(0.01, 0.99) * 2 / n_vals  # beyond the last grid point
        else:
            e.vals[s] = round(rng.uniform(0, 1.99), 4)
    return e


def grid_of(e, n_vals):
    axes = [[2 * i / n_vals for i in range(n_vals)]] * len(e.vals)
    return list(itertools.product(*axes))


def at(e, point):
    c = e.circ.copy()
    c.symbol_substitution(dict(zip(e.vals, point)))
    return c


def key(c, shots):
    # values are distinguished up to rounding errors of the grid

    return str([(g.op.type.name, [round(float(p), 9) % 4 for p in g.op.params], [str(a) for a in g.args]) for g in c.get_commands()]) + str(shots)


@REG.facet(300, 4000, needs={"points": 6000, "strings": 250, "wrapped": 60, "kept": 1500, "dropped": 1500, "multi": 60, "reruns": 30, "custom": 30})
def landscapes(rng, mon):
    seed = rng.getrandbits(32)

    def value(c, s):
        # independent of rounding errors
        return hash_value(seed, key(c, 0), s)

    n_batch = rng.choice([0, 1, 1, 2, 3])
    exps, n_vals = [], rng.choice([1, 2, 3, 4, 5, 7, 8])
    for _ in range(n_batch):
        n_sym = rng.choice([1, 1, 2, 2, 3 if n_vals <= 5 else 2])
        exps.append(sweep(rng, n_sym, n_vals))
    f = rng.choice([None, SmallCoefficientSignalFilter(rng.choice([0.0, 0.5, 1.7, 6.0])), SmallCoefficientSignalFilter(round(rng.uniform(0, 4), 3)), Halve()])
    log = []
    be = ExactBackend()
    inner = recorder(be, log, value, "inner")
    kw = {} if f is None else {"signal_filter": f}
    if rng.random() < 0.2:
        kw["optimisation_level"] = 0
    m = gen_spectral_filtering_MitEx(be, n_vals, experiment_mitex=inner, **kw)
    w = dict(n_vals=n_vals, filter=str(getattr(f, "tol", type(f).__name__)), exps=[e.describe() for e in exps])
    batches = [exps]
    if rng.random() < 0.3:
        batches.append(rng.sample(exps, rng.randint(0, len(exps))))
        mon.saw("reruns")
    for batch in batches:
        log.clear()
        objs = [e.experiment() for e in batch]
        out = m.run(objs)
        mon.check(len(out) == len(batch), "number of results", got=len(out), **w)
        got = sorted(key(c, s) + str(sorted(canon(x) for x in ops)) for c, s, ops in log)
        want = sorted(key(at(e, p), e.shots) + str(sorted(canon(x) for x in e.qpo._dict)) for e in batch for p in grid_of(e, n_vals))
        mon.check(got == want, "the circuits evaluated are not those of the grid", got=got[:3], want=want[:3], n=(len(got), len(want)), **w)
        mon.saw("points", len(want))
        if len({len(e.vals) for e in batch}) > 1:
            mon.saw("multi")
        for e, o, obj in zip(batch, out, objs):
            mon.check(set(o._dict) == set(e.qpo._dict), "strings returned", got=str(list(o._dict)), **w)
            mon.check(dict(obj.AnsatzCircuit.SymbolsDict._symbolic_map) == e.vals and obj.AnsatzCircuit.Circuit == e.circ, "the user's experiment was changed", **w)
            if any(v > 2 - 2 / n_vals for v in e.vals.values()):
                mon.saw("wrapped")
            for s, co in e.qpo._dict.items():
                grid = np.empty([n_vals] * len(e.vals))
                for idx in itertools.product(range(n_vals), repeat=len(e.vals)):
                    grid[idx] = complex(co).real * value(at(e, [2 * i / n_vals for i in idx]), s)
                spec = apply_filter(mon, f, dft(grid, -1))
                if spec is None:
                    continue
                if isinstance(f, Halve):
                    mon.saw("custom")
                v = interpolate(dft(spec, 1), list(e.vals.values()))
                mon.saw("strings")
                mon.check(abs(complex(o._dict[s]) - v) < 1e-7 * max(1, abs(complex(co))), "the value returned is not the filtered landscape at the experiment's own values",
                          string=str(s), got=str(o._dict[s]), want=str(v), one=e.describe(), **w)
    mon.case(w, bool(exps), w)


def hash_value(seed, text, s):
    h = hashlib.sha256(("%s|%s|%s" % (seed, text, canon(s))).encode()).digest()
    return int.from_bytes(h[:4], "big") / 2 ** 31 - 1


@REG.facet(120, 1500, needs={"values": 120, "noisy": 25, "wired": 40})
def end_to_end(rng, mon):
    """Default inner objects; with a filter which drops nothing, values on the grid are plain expectations."""
    n_vals = rng.choice([2, 3, 4, 5])
    exps = [sweep(rng, rng.choice([1, 1, 2]), n_vals, on_grid=True) for _ in range(rng.choice([1, 1, 2]))]
    for e in exps:
        e.shots = 10 ** 7
    f = rng.choice([1.0, 1.0, 0.7])

    def noise(c, d):
        k = len(c.bits)
        out = {x: f * v for x, v in d.items()}
        for i in range(2 ** k):
            x = tuple((i >> j) & 1 for j in range(k))
            out[x] = out.get(x, 0) + (1 - f) / 2 ** k
        return out

    be = ExactBackend(noise=noise)
    kw, wiring = {}, rng.choice(["default", "mitres", "mitex", "reduction"])
    if wiring == "mitres":
        kw["experiment_mitres"] = rng.choice([MitRes(be), gen_compiled_MitRes(be, 0)])
    if wiring == "mitex":
        kw["experiment_mitex"] = MitEx(be)
    if wiring == "reduction":
        kw["experiment_mitex"] = gen_MeasurementReduction_MitEx(be)
    if wiring != "default":
        mon.saw("wired")
    tol = rng.choice([0, 1e-9])
    m = gen_spectral_filtering_MitEx(be, n_vals, signal_filter=SmallCoefficientSignalFilter(tol), **kw)
    out = m.run([e.experiment() for e in exps])
    w = dict(n_vals=n_vals, f=f, wiring=wiring, exps=[e.describe() for e in exps])
    mon.check(len(out) == len(exps), "number of results", **w)
    for e, o in zip(exps, out):
        want = e.expected()
        mon.check(set(o._dict) == set(want), "strings returned", got=str(list(o._dict)), **w)
        for s, (co, x) in want.items():
            mon.saw("values")
            if f < 1:
                mon.saw("noisy")
            g = f if any(p.name != "I" for p in s.map.values()) else 1.0
            mon.check(abs(complex(o._dict[s]) - co * x * g) < 1e-5 * max(1, abs(co)), "unfiltered values on the grid are not the plain expectations", string=str(s),
                      got=str(o._dict[s]), want=str(co * x * g), **w)
    mon.case(w, True, w)


def rand_grid(rng, shape):
    return np.array([rng.uniform(-2, 2) for _ in range(int(np.prod(shape)))]).reshape(shape)


@REG.facet(1000, 12000, needs={"roundtrip": 100, "reshape": 100, "filter": 100, "extract": 100, "grids": 60, "copies": 60, "dicts": 100})
def pieces(rng, mon):
    shapes = [tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 3))]
    kind = rng.choice(["fft", "reshape", "filter", "extract", "grid", "copy", "dict"])
    strs = [list(gens.observable(rng, gens.new_qubits(rng, 2), rng.randint(1, 3))._dict) for _ in shapes]
    w = dict(kind=kind, shapes=shapes)
    if kind == "fft":
        mon.saw("roundtrip")
        data = [{s: rand_grid(rng, sh) for s in ss} for sh, ss in zip(shapes, strs)]
        (a,) = gen_fft_task()([data])
        (b,) = gen_inv_fft_task()([a])
        mon.check(len(a) == len(b) == len(data), "number of grids", **w)
        for d, x, y in zip(data, a, b):
            mon.check(set(x) == set(y) == set(d), "strings of a transform", **w)
            for s in d:
                mon.check(np.allclose(x[s], dft(d[s], -1), atol=1e-9), "the transform of a grid is wrong", **w)
                mon.check(np.allclose(y[s], d[s], atol=1e-9), "transforming there and back is not the identity", **w)
    elif kind == "reshape":
        mon.saw("reshape")
        grids = []
        for sh in shapes:
            g = np.empty(sh, dtype=object)
            for idx in itertools.product(*map(range, sh)):
                e = Exp(rng, n=1, n_gates=1, n_strings=1)
                g[idx] = e.experiment()
            grids.append(g)
        flat, lens, shs = gen_flatten_task()([grids])
        mon.check(len(flat) == sum(int(np.prod(s)) for s in shapes), "number of experiments", **w)
        ops = [QubitPauliOperator({list(x.ObservableTracker.qubit_pauli_operator._dict)[0]: i + 0.5}) for i, x in enumerate(flat)]
        (back,) = gen_reshape_task()([ops, lens, shs])
        mon.check(len(back) == len(grids), "number of grids", **w)
        for g, b in zip(grids, back):
            mon.check(np.shape(b) == g.shape, "shape of a grid", got=np.shape(b), **w)
            for idx in itertools.product(*map(range, g.shape)):
                x = g[idx]
                j = [k for k, y in enumerate(flat) if y is x or y.AnsatzCircuit is x.AnsatzCircuit]
                mon.check(len(j) == 1 and b[idx] == ops[j[0]], "a result is not put where its experiment was", **w)
    elif kind == "filter":
        mon.saw("filter")
        tol = rng.choice([0.0, 0.5, 1.0, round(rng.uniform(0, 3), 3)])
        data = [{s: rand_grid(rng, sh) + 1j * rand_grid(rng, sh) * rng.choice([0, 1]) for s in ss} for sh, ss in zip(shapes, strs)]
        for d in data:
            for g in d.values():
                if rng.random() < 0.3:
                    g.flat[0] = tol  # not less than the threshold
        keep = [{s: g.copy() for s, g in d.items()} for d in data]
        (out,) = gen_mitigation_task(SmallCoefficientSignalFilter(tol))([data])
        mon.check(len(out) == len(data), "number of grids", **w)
        for d, k, o in zip(data, keep, out):
            mon.check(set(o) == set(k), "strings of a filtered grid", **w)
            for s, g in k.items():
                mon.check(np.array_equal(d[s], g), "the filter changes the grid it is given", **w)
                for idx in itertools.product(*map(range, g.shape)):
                    x = g[idx]
                    want = 0 if abs(x) < tol else x
                    mon.check(o[s][idx] == want, "a coefficient is not filtered by the threshold", got=str(o[s][idx]), want=str(want), tol=tol, **w)
    elif kind == "extract":
        mon.saw("extract")
        n = rng.choice([2, 3, 5])
        exps = [sweep(rng, rng.randint(1, 3), n) for _ in shapes]
        data = [{s: rand_grid(rng, (n,) * len(e.vals)) for s in e.qpo._dict} for e in exps]
        pts = [[np.linspace(0, 2, n, endpoint=False) for _ in e.vals] for e in exps]
        (out,) = gen_result_extraction_task()([data, [e.experiment() for e in exps], pts])
        mon.check(len(out) == len(exps), "number of results", **w)
        for e, d, o in zip(exps, data, out):
            mon.check(set(o._dict) == set(d), "strings returned", **w)
            for s in d:
                v = interpolate(d[s], list(e.vals.values()))
                mon.check(abs(complex(o._dict[s]) - v) < 1e-9, "a value is not interpolated at the experiment's own values", got=str(o._dict[s]), want=v, vals=str(e.vals), n=n, **w)
    elif kind == "grid":
        mon.saw("grids")
        n = rng.randint(1, 4)
        exps = [sweep(rng, rng.randint(1, 3), n) for _ in shapes]
        objs = [e.experiment() for e in exps]
        a, vals = gen_symbol_val_gen_task(n)([objs])
        (mesh,) = gen_param_grid_gen_task()([vals])
        (grid,) = gen_obs_exp_grid_gen_task()([a, mesh])
        mon.check(len(vals) == len(mesh) == len(grid) == len(exps) and len(a) == len(exps), "number of grids", **w)
        for e, v, ms, g, x in zip(exps, vals, mesh, grid, a):
            mon.check(len(v) == len(ms) == len(e.vals), "number of axes", **w)
            mon.check(all(np.allclose(y, [2 * i / n for i in range(n)]) for y in v), "values of a symbol", got=str(v), **w)
            mon.check(g.shape == (n,) * len(e.vals), "shape of the grid of experiments", got=g.shape, **w)
            for idx in itertools.product(*map(range, g.shape)):
                d = dict(g[idx].AnsatzCircuit.SymbolsDict._symbolic_map)
                want = {s: 2 * i / n for s, i in zip(e.vals, idx)}
                mon.check(set(d) == set(want) and all(abs(d[s] - want[s]) < 1e-12 for s in d), "values of the symbols at a grid point", got=str(d), want=str(want), **w)
                mon.check(g[idx].AnsatzCircuit.Circuit == e.circ and g[idx].AnsatzCircuit.Shots == e.shots, "circuit or shots at a grid point", **w)
                mon.check({canon(s) for s in g[idx].ObservableTracker.qubit_pauli_operator._dict} == {canon(s) for s in e.qpo._dict}, "observable at a grid point", **w)
    elif kind == "copy":
        mon.saw("copies")
        k, c = rng.randint(1, 4), rng.randint(1, 4)
        wires = [[rng.random()] * rng.randint(0, 2) for _ in range(k)]
        t = gen_wire_copy_task(k, c)
        out = t(wires)
        mon.check(list(out) == wires * c and t.n_out_wires == k * c and t.n_in_wires == k, "copied wires", got=str(out), want=str(wires * c), **w)
    else:
        mon.saw("dicts")
        grids, want = [], []
        for sh, ss in zip(shapes, strs):
            d = {s: rand_grid(rng, sh) for s in ss}
            g = np.empty(sh, dtype=object)
            for idx in itertools.product(*map(range, sh)):
                items = [(s, d[s][idx]) for s in ss]
                rng.shuffle(items)
                g[idx] = QubitPauliOperator(dict(items))
            grids.append(g)
            want.append(d)
        (out,) = gen_ndarray_to_dict_task()([grids])
        mon.check(len(out) == len(want), "number of grids", **w)
        for o, d in zip(out, want):
            mon.check(set(o) == set(d), "strings of a grid", **w)
            for s in d:
                mon.check(np.shape(o[s]) == d[s].shape and np.allclose(o[s], d[s], atol=1e-12), "the grid of a string", **w)
    mon.case((kind, shapes, rng.random()), bool(shapes), w)
