import itertools
import json
import copy
import math
from collections import Counter

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from pytket.circuit import OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor

from harness import gens, sim
from harness.core import Registry, SkipCase
from harness.props.c16 import add_clifford, supported
from qermit.noise_model import ErrorDistribution, LogicalErrorDistribution, NoiseModel
from qermit.noise_model.noise_model import Direction
from qermit.noise_model.qermit_pauli import QermitPauli

matplotlib.use("Agg")

REG = Registry("C17", "A case takes a random Pauli error distribution or noise model and compares transfer matrix, scaling, sampling, mixture, "
               "serialisation and post-selection with direct computation over all Paulis, or propagates scripted errors through a random "
               "Clifford circuit and compares with the dense unitary of the circuit with the errors written in. Distinct by distribution / "
               "circuit and errors.")
P = gens.PAULIS


def anti(a, b):
    return sum(1 for x, y in zip(a, b) if x != Pauli.I and y != Pauli.I and x != y) % 2 == 1


def strings(n):
    return list(itertools.product(P, repeat=n))


def distribution(rng, n=None, top=0.45, explicit=True):
    n = n or (3 if rng.random() < 0.02 else rng.choice([1, 2, 2]))
    k = rng.randint(1, min(6, 4 ** n - 1))
    errs = rng.sample([s for s in strings(n) if any(p != Pauli.I for p in s)], k)
    if rng.random() < 0.15 and n < 3:
        errs = [s for s in strings(n) if any(p != Pauli.I for p in s)]
        rng.shuffle(errs)
    tot = rng.choice([0.001, 0.02, 0.1, 0.3, top])
    w = [rng.random() + 0.05 for _ in errs]
    d = {e: tot * x / sum(w) for e, x in zip(errs, w)}
    if explicit and rng.random() < 0.25:
        d[tuple([Pauli.I] * n)] = 1 - sum(d.values()) if rng.random() < 0.7 else min(0.1, max(0.0, 1 - sum(d.values())))
    if explicit and rng.random() < 0.2:
        z = rng.choice(strings(n))
        d.setdefault(z, 0.0)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items), n


def nontrivial(d, cut=2e-6):
    return {e: p for e, p in d.items() if any(x != Pauli.I for x in e) and abs(p) > cut}


def close(a, b, tol=1e-6):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(nontrivial(a)) | set(nontrivial(b)))


def eigen(d, n):
    tot = sum(p for e, p in d.items() if any(x != Pauli.I for x in e))
    return {s: 1 - tot + sum(p * (-1 if anti(s, e) else 1) for e, p in d.items() if any(x != Pauli.I for x in e)) for s in strings(n)}


def from_eigen(lam, n):
    return {e: sum(l * (-1 if anti(s, e) else 1) for s, l in lam.items()) / 4 ** n for e in strings(n)}


def show(d):
    return str({"".join(x.name for x in e): round(float(np.real(p)), 8) for e, p in d.items()})


@REG.facet(400, 4000, needs={"ptms": 300, "scalings": 200, "explicit_identity": 30})
def transfer_matrix(rng, mon):
    d, n = distribution(rng, top=rng.choice([0.45, 0.9]))
    given = dict(d)
    e = ErrorDistribution(dict(d))
    if any(all(x == Pauli.I for x in k) for k in d):
        mon.saw("explicit_identity")
    ptm, index = e.to_ptm()
    mon.saw("ptms")
    w = dict(dist=show(d))
    mon.check(ptm.shape == (4 ** n, 4 ** n) and sorted(index.values()) == list(range(4 ** n)), "shape of the PTM", **w)
    lam = eigen(d, n)
    want = np.diag([0.0] * 4 ** n)
    for s, i in index.items():
        want[i, i] = lam[s]
    mon.check(np.allclose(ptm, want, atol=1e-9), "PTM entries", got=str(np.diag(ptm)), want=str(np.diag(want)), **w)
    perm = list(range(4 ** n))
    rng.shuffle(perm)
    back = ErrorDistribution.from_ptm(np.diag([ptm[i, i] for i in np.argsort(perm)]), {s: perm[i] for s, i in index.items()})
    mon.check(close(back.distribution, d), "from_ptm does not invert to_ptm", got=show(back.distribution), **w)
    mon.check(e.distribution == given, "the distribution was changed", **w)
    if min(lam.values()) > 1e-6:
        f = rng.choice([0.0, 0.3, 0.5, 1, 1.0, 1.5, 2, 2.0, 3, 3.7])
        target = from_eigen({s: l ** f for s, l in lam.items()}, n)
        if all(v > -1e-9 for v in target.values()):
            mon.saw("scalings")
            got = e.scale(f)
            mon.check(close(got.distribution, target), "scaling is not the power of the channel", factor=f, got=show(got.distribution),
                      want=show(target), **w)
            if f == 2:
                conv = {}
                for (a, x), (b, y) in itertools.product(full(d, n).items(), repeat=2):
                    k = tuple(mul(u, v) for u, v in zip(a, b))
                    conv[k] = conv.get(k, 0) + x * y
                mon.check(close(got.distribution, conv), "scaling by two is not applying the channel twice", got=show(got.distribution), **w)
            model = NoiseModel({OpType.CX: e, OpType.H: ErrorDistribution({})}).scale(f)
            mon.check(set(model.noisy_gates) == {OpType.CX, OpType.H} and close(model.noise_model[OpType.CX].distribution, target)
                      and not nontrivial(model.noise_model[OpType.H].distribution), "scaling of a noise model", factor=f, **w)
    mon.check(e.distribution == given, "the distribution was changed", **w)
    mon.check(abs(e.identity_error_rate - (1 - sum(d.values()))) < 1e-12, "identity_error_rate", **w)
    mon.case(w["dist"], True, w["dist"])


def mul(a, b):
    if a == b:
        return Pauli.I
    if a == Pauli.I:
        return b
    if b == Pauli.I:
        return a
    return ({Pauli.X, Pauli.Y, Pauli.Z} - {a, b}).pop()


def full(d, n):
    out = dict(nontrivial(d, 0))
    out[tuple([Pauli.I] * n)] = 1 - sum(out.values())
    return out


@REG.facet(60, 500, needs={"samples": 200000, "sampled_with_history": 20})
def sampling(rng, mon):
    """Frequencies follow the given rates (Hoeffding, 1e-12 per decision)."""
    d, n = distribution(rng, top=rng.choice([0.45, 1.0]))
    N = 4000
    e = ErrorDistribution(dict(d), rng=np.random.default_rng(rng.getrandbits(32)))
    past = rng.choice([[], ["order"], ["sample"], ["order", "sample", "order"], ["sample", "order"], ["read"], ["copy"]])
    for k in past:
        mon.saw("sampled_with_history")
        if k == "order":
            e.order(reverse=rng.random() < 0.5)
        elif k == "sample":
            e.sample()
        elif k == "copy":
            e = copy.deepcopy(e)
        else:
            e.to_dict(), e.to_ptm(), e == e, e.identity_error_rate, str(e)
    c = Counter(e.sample() for _ in range(N))
    mon.saw("samples", N)
    eps = math.sqrt(math.log(2e12) / (2 * N))
    for k in set(c) | set(d):
        if k is None:
            continue
        p = d.get(k, 0.0)
        # Bernstein for rare errors, Hoeffding otherwise
        b = min(eps, math.sqrt(2 * p * math.log(2e12) / N) + math.log(2e12) / N)
        mon.check(k in d and (p > 0 or c[k] == 0), "an error outside the support was sampled", error=str(k), dist=show(d))
        mon.check(abs(c[k] / N - p) <= b, "errors are sampled at another rate", error=str(k), got=c[k] / N, want=p, dist=show(d))
    seed = rng.getrandbits(30)
    e.reset_rng(np.random.default_rng(seed))
    a = [e.sample() for _ in range(40)]
    e.reset_rng(np.random.default_rng(seed))
    mon.check(a == [e.sample() for _ in range(40)], "resetting the generator does not replay the samples")
    m = NoiseModel({OpType.CX: e})
    m.reset_rng(np.random.default_rng(seed))
    mon.check(a == [m.get_error_distribution(OpType.CX).sample() for _ in range(40)], "reset through the noise model")
    mon.case(show(d), True, show(d))


@REG.facet(400, 4000, needs={"round_trips": 300, "mixtures": 200})
def algebra(rng, mon):
    d, n = distribution(rng)
    e = ErrorDistribution(dict(d))
    w = dict(dist=show(d))
    r = ErrorDistribution.from_dict(json.loads(json.dumps(e.to_dict())))
    mon.saw("round_trips")
    mon.check(r.distribution == d and list(r.distribution) == list(d), "serialisation changes the distribution", got=show(r.distribution), **w)
    mon.check(e == r and r == e, "a distribution is not equal to its copy", **w)
    ops = rng.sample([OpType.CX, OpType.ZZMax, OpType.H, OpType.Rz, OpType.CZ, OpType.TK1], rng.randint(0, 3))
    ds = {o: distribution(rng)[0] for o in ops}
    m = NoiseModel({o: ErrorDistribution(dict(x)) for o, x in ds.items()})
    m2 = NoiseModel.from_dict(json.loads(json.dumps(m.to_dict())))
    mon.check(set(m2.noise_model) == set(ops) and all(m2.noise_model[o].distribution == ds[o] for o in ops),
              "serialisation changes the noise model", **w)
    mon.check(m == m2, "a noise model is not equal to its copy", **w)
    mon.check(sorted(x.name for x in m.noisy_gates) == sorted(x.name for x in ops), "noisy gates", **w)
    # differing distributions are not equal
    k = rng.choice(list(d))
    d2 = dict(d)
    if d2[k] + 0.1 + sum(d2.values()) <= 1 and rng.random() < 0.5:
        d2[k] += 0.1
    else:
        del d2[k]
        if not nontrivial(d2):
            d2 = {}
    mon.check(not (ErrorDistribution(d2) == e), "different distributions are equal", other=show(d2), **w)
    mon.check(not (e == 3), "equal to another type")
    if ops:
        o = rng.choice(ops)
        less = NoiseModel({x: m.noise_model[x] for x in ops if x != o})
        mon.check(not (less == m) and not (m == less), "different noise models are equal")
        ch = dict(ds[o])
        kk = rng.choice(list(ch))
        del ch[kk]
        mon.check(not (NoiseModel({x: (ErrorDistribution(ch) if x == o else m.noise_model[x]) for x in ops}) == m),
                  "different noise models are equal")
    # mixtures
    parts = [distribution(rng, n)[0] for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2:
        parts.append({})
    snap = [dict(p) for p in parts]
    mix = ErrorDistribution.mixture([ErrorDistribution(p) for p in parts])
    want = {}
    for p in parts:
        for k, v in p.items():
            want[k] = want.get(k, 0) + v / len(parts)
    mon.saw("mixtures")
    mon.check(set(mix.distribution) == set(want) and all(abs(mix.distribution[k] - want[k]) < 1e-12 for k in want), "mixture",
              got=show(mix.distribution), want=show(want))
    mon.check(parts == snap, "mixing changed its inputs")
    rev = rng.random() < 0.5
    e.order(reverse=rev)
    v = list(e.distribution.values())
    mon.check(e.distribution == d and v == sorted(v, reverse=rev), "ordering", got=show(e.distribution), **w)
    # invalid distributions are refused
    x = dict(nontrivial(d, 0))
    if x:
        x[rng.choice(list(x))] += 1.0
        refused(mon, lambda: ErrorDistribution(x), "probabilities summing to more than one")
    refused(mon, lambda: ErrorDistribution({(Pauli.X,): 0.1, (Pauli.X, Pauli.Y): 0.1}), "errors on different numbers of qubits")
    mon.case((w["dist"], sorted(o.name for o in ops)), True, w["dist"])


def refused(mon, f, what):
    try:
        f()
    except Exception:
        mon.saw("refused")
        return
    mon.check(False, "accepted: " + what)


@REG.facet(400, 4000, needs={"post_selections": 300})
def logical(rng, mon):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    cnt, plain = Counter(), {}
    for _ in range(rng.randint(0, 8)):
        ext = {q: rng.choice(P) for q in qs}
        co = rng.choice([1, -1, 1j, -1j])
        k = rng.randint(1, 20)
        cnt[QermitPauli(QubitPauliTensor(string=QubitPauliString(ext), coeff=co))] += k
        key = tuple(ext[q] for q in qs)
        plain[key] = plain.get(key, 0) + k
    n = sum(plain.values())
    extra = rng.choice([None, 0, 5, 50])
    total = n if extra is None else n + extra
    if total == 0:
        raise SkipCase()
    led = LogicalErrorDistribution(cnt) if extra is None else LogicalErrorDistribution(cnt, total=total)

    def compare(led, want, total, what, qubits):
        if total == 0:
            return
        got = {}
        for s, p in led.distribution.items():
            k = tuple(s.map.get(q, Pauli.I) for q in qubits)
            got[k] = got.get(k, 0) + p
        mon.check(set(got) == set(want) and all(abs(got[k] - want[k] / total) < 1e-9 for k in want), what, got=str(got), want=str(want),
                  total=total)

    compare(led, plain, total, "logical error rates", qs)
    sel = rng.sample(qs, rng.randint(0, len(qs)))
    ps = led.post_select(sel)
    mon.saw("post_selections")
    left = [q for q in qs if q not in sel]
    want, kept = {}, total - n
    for k, c in plain.items():
        m = dict(zip(qs, k))
        if any(m[q] in (Pauli.X, Pauli.Y) for q in sel):
            continue
        kk = tuple(m[q] for q in left)
        want[kk] = want.get(kk, 0) + c
        kept += c
    mon.check(ps.total == kept, "total after post-selection", got=ps.total, want=kept)
    compare(ps, want, kept, "post-selected error rates", left)
    compare(led, plain, total, "post-selecting changed the distribution", qs)
    mon.case((str(sorted(map(str, plain.items()))), total, str(sel)), n > 0, str(plain)[:300])


class Scripted(ErrorDistribution):
    """Gives the errors it was told to, recording them in order."""

    def __init__(self, rng, n, log, op):
        super().__init__({tuple([Pauli.X] * n): 0.5})
        self.r, self.n, self.log, self.op = rng, n, log, op

    def sample(self):
        e = None if self.r.random() < 0.4 else tuple(self.r.choice(P) for _ in range(self.n))
        self.log.append((self.op, e))
        return e


ARITY = {OpType.CX: 2, OpType.CZ: 2, OpType.H: 1, OpType.S: 1, OpType.ZZMax: 2, OpType.Rz: 1, OpType.V: 1, OpType.SWAP: 2, OpType.X: 1}


def clifford_circuit(rng, meas=None):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    c = gens.blank(qs)
    for _ in range(rng.randint(0, 10)):
        add_clifford(rng, c, qs)
        if rng.random() < 0.1:
            c.add_barrier(qs)
    # the inverse of ISWAPMax is refused
    if not supported(c) or any(cmd.op.type == OpType.ISWAPMax for cmd in c.get_commands()):
        raise SkipCase()
    if rng.random() < 0.4:
        for b in gens.bits(rng, len(qs)):
            c.add_bit(b)
        for q, b in zip(qs, c.bits):
            c.Measure(q, b)
    return c


@REG.facet(500, 6000, needs={"propagations": 400, "errors_written": 150})
def propagation(rng, mon):
    """The logical error equals the errors of one noisy instance moved to the front / end of the circuit."""
    c = clifford_circuit(rng)
    qs = list(c.qubits)
    log = []
    ops = rng.sample(list(ARITY), rng.randint(1, len(ARITY)))
    model = NoiseModel({o: Scripted(rng, ARITY[o], log, o) for o in ops})
    d = rng.choice([Direction.forward, Direction.backward])
    before = c.copy()
    got = model.random_propagate(c, direction=d)
    mon.saw("propagations")
    mon.check(c == before, "the circuit was changed")
    cmds = [cmd for cmd in c.get_commands() if cmd.op.type not in (OpType.Measure, OpType.Barrier)]
    if d == Direction.backward:
        walk = list(reversed(range(len(cmds))))
    else:
        walk = list(range(len(cmds)))
    noisy = [i for i in walk if cmds[i].op.type in ops]
    w = dict(circ=gens.describe(c), errors=str(log), direction=str(d), got=str(got))
    mon.check([cmds[i].op.type for i in noisy] == [o for o, _ in log], "errors are not drawn once for every noisy gate", **w)
    err = {i: e for i, (_, e) in zip(noisy, log)}
    clean, dirty = gens.blank(qs), gens.blank(qs)
    for i, cmd in enumerate(cmds):
        clean.add_gate(cmd.op, cmd.args)
        dirty.add_gate(cmd.op, cmd.args)
        if err.get(i) is not None:
            for q, p in zip(cmd.qubits, err[i]):
                if p != Pauli.I:
                    mon.saw("errors_written")
                    dirty.add_gate(getattr(OpType, p.name), [q])
    u, v = sim.unitary(clean), sim.unitary(dirty)
    m = sim.pauli_matrix(got.qubit_pauli_tensor.string, qs)
    lhs = u @ m if d == Direction.backward else m @ u
    mon.check(sim.same_up_to_phase(lhs, v), "the logical error is not equivalent to the errors in the circuit", **w)
    mon.case((w["circ"], w["errors"], w["direction"]), bool(log), w["circ"])


@REG.facet(40, 400, needs={"instances": 20000})
def effective_distribution(rng, mon):
    """Rates of logical errors against exact convolution (Hoeffding, 1e-12 per decision)."""
    c = clifford_circuit(rng)
    qs = list(c.qubits)
    model, exact = {}, {}
    for o in rng.sample(list(ARITY), 5):
        d, n = distribution(rng, ARITY[o], explicit=rng.random() < 0.3)
        exact[o] = full(d, n)
        model[o] = ErrorDistribution(d, rng=np.random.default_rng(rng.getrandbits(32)))
    nm = NoiseModel(model)
    back = rng.random() < 0.6
    cmds = [cmd for cmd in c.get_commands() if cmd.op.type not in (OpType.Measure, OpType.Barrier)]
    us = []
    dist = {tuple([Pauli.I] * len(qs)): 1.0}

    def conj(u_cmd, dag, dist):
        one = gens.blank(qs)
        one.add_gate(u_cmd.op, u_cmd.args)
        u = sim.unitary(one)
        u = u.conj().T if dag else u
        out = {}
        for s, p in dist.items():
            m = u @ sim.pauli_matrix(QubitPauliString(dict(zip(qs, s))), qs) @ u.conj().T
            for t in strings(len(qs)):
                if abs(abs(np.trace(m @ sim.pauli_matrix(QubitPauliString(dict(zip(qs, t))), qs))) - 2 ** len(qs)) < 1e-6:
                    out[t] = out.get(t, 0) + p
                    break
        return out

    if len(qs) > 3:
        raise SkipCase()
    for cmd in (reversed(cmds) if back else cmds):
        if not back:
            dist = conj(cmd, False, dist)
        if cmd.op.type in exact:
            out = {}
            for s, p in dist.items():
                for e, x in exact[cmd.op.type].items():
                    t = list(s)
                    for q, a in zip(cmd.qubits, e):
                        t[qs.index(q)] = mul(t[qs.index(q)], a)
                    out[tuple(t)] = out.get(tuple(t), 0) + p * x
            dist = out
        if back:
            dist = conj(cmd, True, dist)
    N = 1000
    if back:
        led = nm.get_effective_pre_error_distribution(c, n_rand=N)
        got = led.distribution
    else:
        cnt = nm.counter_propagate(c, n_counts=N, direction=Direction.forward)
        got = {}
        for k, v in cnt.items():
            s = k.qubit_pauli_tensor.string
            got[s] = got.get(s, 0) + v / N
    mon.saw("instances", N)
    got = {tuple(s.map.get(q, Pauli.I) for q in qs): p for s, p in got.items()}
    eps = math.sqrt(math.log(2e12) / (2 * N))
    w = dict(circ=gens.describe(c), got=show(got), want=show(dist))
    I = tuple([Pauli.I] * len(qs))
    mon.check(I not in got or got[I] == 0, "the identity is counted as an error", **w)
    for k in set(got) | set(dist):
        if k == I:
            continue
        p = dist.get(k, 0.0)
        b = min(eps, math.sqrt(2 * p * math.log(2e12) / N) + math.log(2e12) / N)
        mon.check(abs(got.get(k, 0) - p) <= b and (p > 1e-12 or got.get(k, 0) == 0), "effective error rates", error=str(k), **w)
    mon.case((w["circ"], w["want"]), len(dist) > 1, w["circ"])


@REG.facet(60, 600, needs={"bars": 300, "refused": 40})
def pictures_and_refusals(rng, mon):
    """A plotted distribution shows each error with its rate; what is no Pauli channel's transfer matrix is refused."""
    dists = {}
    for t, n in rng.sample([(OpType.H, 1), (OpType.CX, 2), (OpType.Rz, 1), (OpType.CZ, 2)], rng.randint(1, 3)):
        dists[t] = distribution(rng, n)[0]
    model = NoiseModel({t: ErrorDistribution(dict(d)) for t, d in dists.items()})
    w = dict(dists=str({t: show(d) for t, d in dists.items()}))
    plt.close("all")
    figs = model.plot()
    mon.check(len(figs) == len(dists), "number of plots", got=len(figs), **w)
    for t, f in itertools.chain(zip(dists, figs), [(t, ErrorDistribution(dict(d)).plot()) for t, d in dists.items()]):
        (ax,) = f.axes
        ticks = {round(float(x), 6): l.get_text() for x, l in zip(ax.get_xticks(), ax.get_xticklabels())}
        got = [(ticks.get(round(float(b.get_x() + b.get_width() / 2), 6)), float(b.get_height())) for b in ax.patches]
        want = [("".join(x.name for x in e), float(p)) for e, p in dists[t].items()]
        mon.saw("bars", len(got))
        mon.check(sorted(got, key=str) == sorted(want, key=str), "the bars plotted are not the errors and their rates", got=got, want=want, **w)
        if f in figs:
            mon.check(ax.get_title() == t.name, "a plot is named after another gate", got=ax.get_title(), want=t.name, **w)
    plt.close("all")
    for t, d in dists.items():
        mon.check(model.noise_model[t].distribution == d, "plotting changed the distribution", **w)
    mon.check(model != rng.choice([None, 1, "x", dict(dists)]), "a noise model equals something that is none", **w)
    e = ErrorDistribution(dict(rng.choice(list(dists.values()))))
    ptm, index = e.to_ptm()
    k = rng.randrange(4)
    if k == 0:
        bad = np.diag(ptm).copy() if rng.random() < 0.5 else ptm[None]
    elif k == 1:
        bad = ptm[: rng.randint(1, len(ptm) - 1)]
    elif k == 2:
        m = rng.choice([2, 3, 5, 8, 12])
        bad = np.eye(m)
        index = {s: i for i, s in enumerate(itertools.islice(iter(strings(2)), m))}
    else:
        bad = ptm.copy()
        i, j = rng.sample(range(len(ptm)), 2)
        bad[i, j] = rng.choice([0.1, -0.2, 1e-3])
    mon.saw("refused")
    mon.rejects(Exception, lambda: ErrorDistribution.from_ptm(bad, index), "a matrix which is no Pauli channel's transfer matrix is not refused",
                kind=k, shape=str(bad.shape))
    mon.case(w["dists"], True, w["dists"])
