"""C09: SPAM correction inverts exactly the calibrated readout channel."""
import math

import numpy as np
from pytket.architecture import Architecture
from pytket.circuit import Bit, Node, OpType
from pytket.passes import CustomPass

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from qermit import CircuitShots, MitRes
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes

REG = Registry("C09", "A case draws a partition of the device's nodes into correlated subsets, a readout channel per subset, circuits (logical, or "
               "already on nodes) with any bits, and runs them through the correction on a backend whose exact outcome distributions are passed "
               "through those channels. Distinct by partition, channel, circuits.",
               assumptions=["channels are well conditioned", "when only part of a subset is measured, the channel of that part is independent of the rest "
                            "(documented assumption of the reduction)"])

CAL = 10 ** 7
SHOTS = 10 ** 8


def stochastic(rng, d, e):
    m = np.array([[rng.random() for _ in range(d)] for _ in range(d)])
    if rng.random() < 0.4:
        m = m * np.array([[rng.random() < 0.4 for _ in range(d)] for _ in range(d)]) + 1e-3 * np.eye(d)
    m = m / m.sum(axis=0)
    return (1 - e) * np.eye(d) + e * m


class Subset:
    """Readout channel of a subset; rows index what is read, columns what was there."""

    def __init__(self, rng, nodes, e, kind):
        self.nodes, n = list(nodes), len(nodes)
        self.kind = kind if n > 1 else "product"
        if self.kind == "product":
            self.single = [stochastic(rng, 2, e) for _ in nodes]
            m = np.array([[1.0]])
            for s in self.single:
                m = np.kron(m, s)
            self.matrix = m
        elif self.kind == "target":
            # one node reads independently of the others, which may depend on it
            self.t = rng.randrange(n)
            self.a = stochastic(rng, 2, e)
            m = np.zeros((2,) * (2 * n))
            for j in range(2):
                b = stochastic(rng, 2 ** (n - 1), e).reshape((2,) * (2 * (n - 1)))
                for i in range(2):
                    idx = [slice(None)] * (2 * n)
                    idx[self.t], idx[n + self.t] = i, j
                    m[tuple(idx)] = self.a[i, j] * b
            self.matrix = m.reshape(2 ** n, 2 ** n)
        else:
            self.matrix = stochastic(rng, 2 ** n, e)

    def channel(self, measured):
        """[(matrix, nodes)] acting on the final measurements of these nodes."""
        if not measured:
            return []
        if self.kind == "product":
            return [(self.single[self.nodes.index(q)], [q]) for q in measured]
        if len(measured) == len(self.nodes):
            return [(self.matrix, self.nodes)]
        if self.kind == "target" and list(measured) == [self.nodes[self.t]]:
            return [(self.a, list(measured))]
        raise SkipCase

    def allowed(self, rng):
        """A set of its nodes that may be measured at the end."""
        x = rng.random()
        if x < 0.15:
            return []
        if self.kind == "product":
            return [q for q in self.nodes if rng.random() < 0.7]
        if self.kind == "target" and x < 0.6:
            return [self.nodes[self.t]]
        return list(self.nodes)


def apply(vec, n, m, axes):
    """m on the bits `axes` (first is most significant) of a vector over n bits."""
    t = vec.reshape((2,) * n)
    k = len(axes)
    t = np.moveaxis(t, axes, range(k)).reshape(2 ** k, -1)
    return np.moveaxis((m @ t).reshape((2,) * n), range(k), axes).reshape(-1)


def readout(subsets):
    where = {q: s for s in subsets for q in s.nodes}

    def noise(c, d):
        bits = list(c.bits)
        n = len(bits)
        final = {}
        for g in c.get_commands():
            if g.op.type == OpType.Measure:
                final[g.bits[0]] = g.qubits[0]
        ends = c.qubit_to_bit_map
        v = np.zeros(2 ** n)
        for k, p in d.items():
            v[int("".join(map(str, k)) or "0", 2)] += p
        for s in subsets:
            mine = [q for q in s.nodes if q in ends]
            for m, qs in s.channel(mine):
                v = apply(v, n, m, [bits.index(ends[q]) for q in qs])
        for b, q in final.items():
            if b not in ends.values():
                s = where[q]
                if s.kind != "product":
                    if s.kind == "target" and s.nodes[s.t] == q:
                        v = apply(v, n, s.a, [bits.index(b)])
                        continue
                    raise SkipCase
                v = apply(v, n, s.single[s.nodes.index(q)], [bits.index(b)])
        return {tuple(map(int, format(i, "0%db" % n))) if n else (): p for i, p in enumerate(v) if abs(p) > 1e-16}

    return noise


def partition(rng, nodes):
    nodes = list(nodes)
    rng.shuffle(nodes)
    out = []
    while nodes:
        k = min(len(nodes), rng.choice([1, 1, 2, 2, 3]))
        out.append(nodes[:k])
        nodes = nodes[k:]
    return out


def place(nodes, table):
    """Compilation that puts logical qubits on nodes, as drawn beforehand per circuit."""

    def f(c):
        if all(q in nodes for q in c.qubits):
            return c
        c = c.copy()
        names = table.get(tuple(c.qubits)) or list(nodes)
        free = [n for n in names if n not in c.qubits]
        c.rename_units({q: n for q, n in zip([q for q in c.qubits if q not in nodes], free)})
        return c

    return CustomPass(f)


def clean(dist, tol=1e-12):
    return {k: p for k, p in dist.items() if p > tol}


def bit_counts(res, bits):
    return {tuple(k): v for k, v in res.get_counts(cbits=bits).items() if v}


def measured_bits(c):
    return sorted({g.bits[0] for g in c.commands_of_type(OpType.Measure)})


def ideal(c):
    """Noiseless distribution over the measured bits, in their sorted order."""
    bs = measured_bits(c)
    return sim.marginal(sim.simulate(c), [list(c.bits).index(b) for b in bs]), bs


class Device:
    def __init__(self, rng, n, e, kinds=("product", "joint", "target"), logical=True, **kw):
        from pytket.architecture import FullyConnected

        self.nodes = list(FullyConnected(n, "node").nodes)
        self.nodes.sort()
        self.parts = partition(rng, self.nodes)
        self.subsets = [Subset(rng, p, e * rng.random() if e else 0, rng.choice(kinds)) for p in self.parts]
        self.table = {}
        self.be = ExactBackend(noise=readout(self.subsets) if e else None, compile_pass=place(self.nodes, self.table), n_qubits=n,
                               seed=rng.randrange(1000), **kw)
        self.be.rebase_pass = lambda: CustomPass(lambda c: c)
        self.logical = logical

    def circuit(self, rng, mid=False):
        """A circuit measuring nodes as the channels allow; on nodes, or logical with a drawn placement."""
        meas = [q for s in self.subsets for q in s.allowed(rng)][:7]
        meas = [q for s in self.subsets for q in s.nodes if q in meas]
        # cut subsets whole
        for s in self.subsets:
            mine = [q for q in s.nodes if q in meas]
            try:
                s.channel(mine)
            except SkipCase:
                meas = [q for q in meas if q not in mine]
        others = [q for q in self.nodes if q not in meas]
        partial = {q for s in self.subsets if s.kind == "target" and 0 < len([x for x in s.nodes if x in meas]) < len(s.nodes) for q in s.nodes if q not in meas}
        extra = [q for q in others if q not in partial and rng.random() < 0.4]
        qs = sorted(meas + extra)
        if not meas:
            raise SkipCase
        c = gens.blank(qs)
        gens.add_gates(rng, c, qs, rng.randint(0, 10))
        bs = gens.bits(rng, len(meas) + rng.choice([0, 0, 0, 1]) + (2 if mid else 0))
        for b in bs:
            c.add_bit(b)
        order = rng.sample(bs, len(bs))
        if mid:
            ok = [q for q in qs for s in self.subsets if q in s.nodes and (s.kind == "product" or s.kind == "target" and s.nodes[s.t] == q)]
            # bits may be written several times; what was measured last stays
            again = [rng.choice(order) for _ in range(rng.choice([0, 0, 1, 2]))]
            for b in order[len(meas):] + again:
                if ok and (b in again or rng.random() < 0.8):
                    q = rng.choice(ok)
                    c.Measure(q, b)
                    c.H(q) if rng.random() < 0.5 else c.X(q)
                    gens.add_gates(rng, c, qs, rng.randint(0, 3))
        rng.shuffle(meas)
        for q, b in zip(meas, order):
            c.Measure(q, b)
        if self.logical and rng.random() < 0.5:
            names = gens.new_qubits(rng, len(qs))
            if not any(q.reg_name == "node" for q in names) and tuple(names) not in self.table:
                self.table[tuple(names)] = list(qs)
                # sorted names go to sorted nodes
                c.rename_units(dict(zip(qs, names)))
        return c

    def describe(self):
        return {"parts": [[str(q) for q in p] for p in self.parts], "kinds": [s.kind for s in self.subsets]}


def ceil_slack(bs):
    return 2 ** len(bs)


def compare(mon, c, res, shots, tol, msg, **w):
    want, bs = ideal(c)
    got = bit_counts(res, bs)
    total = sum(got.values())
    for k in set(want) | set(got):
        mon.check(abs(got.get(k, 0) / total - want.get(k, 0)) <= tol, msg, outcome=k, got=got.get(k, 0) / total, want=want.get(k, 0),
                  circ=gens.describe(c), bits=str(bs), **w)
    mon.saw("distributions")
    if len(want) > 1:
        mon.saw("nontrivial")


@REG.facet(1500, 12000, needs={"distributions": 500, "nontrivial": 200, "unsorted": 100, "reordered": 60, "partial": 60, "reruns": 60})
def corrected(rng, mon):
    n = rng.randint(1, 6)
    dev = Device(rng, n, rng.choice([0.1, 0.3, 0.45]))
    circs = [dev.circuit(rng) for _ in range(rng.randint(1, 3))]
    kw = {}
    if rng.random() < 0.3:
        kw["correction_method"] = CorrectionMethod.Invert
    if rng.random() < 0.3:
        kw["optimisation_level"] = rng.choice([0, 1, 2])
    if rng.random() < 0.3:
        kw["calibration_mitres"] = MitRes(dev.be)
    if rng.random() < 0.3:
        kw["correction_mitres"] = MitRes(dev.be)
    mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, CAL, [list(p) for p in dev.parts], **kw)
    sizes = [len(p) for p in dev.parts]
    if sizes != sorted(sizes, reverse=True):
        mon.saw("unsorted")
    if any(p != sorted(p) for p in dev.parts):
        mon.saw("reordered")
    w = dict(device=dev.describe(), kw=str(sorted(kw)))
    for r in range(2 if rng.random() < 0.25 else 1):
        if r:
            mon.saw("reruns")
            rng.shuffle(circs)
        res = mr.run([CircuitShots(c.copy(), SHOTS) for c in circs])
        mon.check(len(res) == len(circs), "number of results", **w)
        for c, x in zip(circs, res):
            if any(0 < len(set(p) & set(c.qubit_to_bit_map)) < len(p) for p in dev.parts):
                mon.saw("partial")
            compare(mon, c, x, SHOTS, 2e-5, "correction does not recover the noiseless distribution", run=r, **w)
    mon.case((w, [gens.describe(c) for c in circs]), True, {**w, "circs": [gens.describe(c) for c in circs]})


@REG.facet(500, 4000, needs={"distributions": 120, "nontrivial": 80, "mid": 60})
def mid_circuit(rng, mon):
    """Measurements before the end are corrected with the channel of their qubit."""
    dev = Device(rng, rng.randint(1, 4), 0.3, kinds=("product", "target"))
    c = dev.circuit(rng, mid=True)
    if len(c.qubit_to_bit_map) < len(measured_bits(c)):
        mon.saw("mid")
    mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, CAL, [list(p) for p in dev.parts])
    w = dict(device=dev.describe())
    (res,) = mr.run([CircuitShots(c.copy(), SHOTS)])
    compare(mon, c, res, SHOTS, 2e-5, "correction of mid-circuit measurements", **w)
    mon.case((w, gens.describe(c)), True, {**w, "circ": gens.describe(c)})


@REG.facet(500, 4000, needs={"distributions": 150, "nontrivial": 80})
def noiseless(rng, mon):
    """Noiseless readout: counts come back as they were ."""
    dev = Device(rng, rng.randint(1, 5), 0)
    c = dev.circuit(rng)
    method = rng.choice([CorrectionMethod.Invert, CorrectionMethod.Bayesian])
    shots = rng.choice([1, 7, 100, 1000, 10 ** 6])
    mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, rng.choice([1, 50, CAL]), [list(p) for p in dev.parts], correction_method=method)
    (res,) = mr.run([CircuitShots(c.copy(), shots)])
    raw = sim.exact_counts(sim.simulate(c), shots)
    bs = measured_bits(c)
    raw = sim.marginal(raw, [list(c.bits).index(b) for b in bs])
    got = bit_counts(res, bs)
    slack = 0 if method is CorrectionMethod.Invert else 1 + 0.01 * shots  # the iterative method regularises zeros
    for k in set(raw) | set(got):
        mon.check(abs(got.get(k, 0) - raw.get(k, 0)) <= slack, "noiseless correction changes counts", outcome=k, got=got.get(k, 0), want=raw.get(k, 0),
                  circ=gens.describe(c), device=dev.describe())
    mon.saw("distributions")
    if len(raw) > 1:
        mon.saw("nontrivial")
    mon.case((dev.describe(), gens.describe(c), shots), True, {"circ": gens.describe(c), "shots": shots, "device": dev.describe()})


@REG.facet(150, 1800, needs={"distributions": 80, "nontrivial": 40})
def bayesian(rng, mon):
    """The iterative method agrees with the noiseless distribution within its documented tolerance."""
    dev = Device(rng, rng.randint(1, 4), 0.1)
    c = dev.circuit(rng)
    mr = gen_FullyCorrelated_SPAM_MitRes(dev.be, CAL, [list(p) for p in dev.parts], correction_method=CorrectionMethod.Bayesian)
    (res,) = mr.run([CircuitShots(c.copy(), SHOTS)])
    compare(mon, c, res, SHOTS, 5e-3, "iterative correction does not recover the noiseless distribution", device=dev.describe())
    mon.case((dev.describe(), gens.describe(c)), True, {"circ": gens.describe(c), "device": dev.describe()})


@REG.facet(400, 4000, needs={"distributions": 200, "nontrivial": 80})
def uncorrelated(rng, mon):
    dev = Device(rng, rng.randint(1, 6), rng.choice([0.1, 0.4]), kinds=("product",))
    circs = [dev.circuit(rng) for _ in range(rng.randint(1, 3))]
    mr = gen_UnCorrelated_SPAM_MitRes(dev.be, CAL)
    res = mr.run([CircuitShots(c.copy(), SHOTS) for c in circs])
    for c, x in zip(circs, res):
        compare(mon, c, x, SHOTS, 2e-5, "uncorrelated correction", device=dev.describe())
    mon.case((dev.describe(), [gens.describe(c) for c in circs]), True, {"circs": [gens.describe(c) for c in circs]})
