"""C27: experiments of a batch, and successive runs, do not influence each other."""
import os
import pickle
import random
import zlib

import numpy as np
from pytket.circuit import OpType

from harness import gens
from harness.core import Registry, SkipCase
from harness.props.c13 import native as native_
from harness.props.c25 import SHOTS, Line, Tree, experiment
from qermit import CircuitShots, MitEx, MitRes
from qermit.postselection import PostselectMgr
from qermit.postselection.postselect_mitres import gen_postselect_mitres
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes  # noqa: F401

REG = Registry("C27", "A case draws trees of mitigation methods on exact but noisy backends (loss by two-qubit gates, asymmetric readout), then runs each "
               "experiment alone on a fresh tree in a process of its own, and after that one long-lived object per tree on a history of batches (permuted, "
               "with repetitions, split, empty, interleaved with the other trees, with and without caching); whatever an experiment got alone it has to get "
               "in every batch. Distinct by trees and batches.",
               assumptions=["every bit is measured where SPAM correction is below post-selection (corrected results only have measured bits)",
                            "noise is a function of the circuit alone, so whatever is not random in a method is reproducible",
                            "regression models are replaced by a fixed correction which also counts its data (training circuits are random)",
                            "circuits for which tket's frame randomisation itself aborts are left out"])


class Counting(Line):
    """A user's model whose corrections do not depend on which random circuits were drawn."""

    def calibrate(self, noisy_exp, exact_exp):
        self.p = (0.9, 0.01 * len(noisy_exp) + 0.003 * len(exact_exp))


class Fixed(Tree):
    model = Counting


def noise(salt, tree):
    def prob(*a):
        return (zlib.crc32(repr((salt,) + a).encode()) % 1000) / 10000  # up to 0.1

    rate = 0.9 + prob("rate")

    def f(c, d):
        if tree.random_gates and "checks" in tree.names:
            return d  # which checks are added depends on the random circuit, and so do the shots discarded
        two, ms = 0, {}
        for cmd in c.get_commands():
            if cmd.op.type == OpType.Measure:
                ms[list(c.bits).index(cmd.bits[0])] = cmd.qubits[0]
            elif len(cmd.qubits) == 2 and cmd.op.type != OpType.Barrier:
                two += 1
        keep = rate ** (3 if tree.random_gates else two)  # frames and random folding leave different numbers of gates
        for i, q in ms.items():
            p0, p1 = prob(str(q), 0) * 0.5, prob(str(q), 1) * 0.5
            new = {}
            for k, v in d.items():
                # loss: the bit reads 0 instead
                for flip in (0, 1):
                    p = (p1 if k[i] else p0)
                    p = p if flip else 1 - p
                    k2 = k[:i] + ((k[i] ^ flip),) + k[i + 1:]
                    new[k2] = new.get(k2, 0) + keep * p * v
                k2 = k[:i] + (0,) + k[i + 1:]
                new[k2] = new.get(k2, 0) + (1 - keep) * v
            d = new
        return d

    return f


class native(native_):
    def __exit__(self, t, e, tb):
        if t is RuntimeError and "Cycle" in str(e):  # random: frames of frames
            self.mon.saw("native_refusals")
            raise SkipCase()


def alone(build, item, run):
    """What a fresh object gives for one item alone, computed in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = ("ok", run(build(), [item])[0])
            except SkipCase:
                data = ("skip", None)
            except RuntimeError as e:
                data = ("skip", None) if "Cycle" in str(e) else ("error", repr(e))
            except Exception as e:  # noqa: BLE001
                data = ("error", repr(e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(data, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise SkipCase()  # a native abort
    kind, v = pickle.loads(data)
    if kind == "skip":
        raise SkipCase()
    return kind, v


def batches(rng, n):
    """A history of batches of the n items."""
    out = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        k = rng.choice(["perm", "perm", "some", "repeat", "one", "empty"])
        b = list(range(n))
        rng.shuffle(b)
        if k == "some":
            b = b[:rng.randint(1, n)]
        elif k == "repeat":
            b = b + [rng.choice(b) for _ in range(rng.randint(1, 2))]
            rng.shuffle(b)
        elif k == "one":
            b = b[:1]
        elif k == "empty":
            b = []
        out.append((k, b))
    return out


def history(rng, mon, systems, equal):
    """systems: [(name, build, items, make(item), run)]"""
    refs = []
    for name, build, items, make, run in systems:
        rs = []
        for it in items:
            kind, v = alone(build, make(it), run)
            mon.check(kind == "ok", "an experiment alone fails", error=v, tree=name)
            rs.append(v)
        refs.append(rs)
    objs = [s[1]() for s in systems]
    todo = [(i, b) for i, s in enumerate(systems) for b in batches(rng, len(s[2]))]
    if rng.random() < 0.6:
        rng.shuffle(todo)
        mon.saw("interleaved", int(len(systems) > 1))
    for i, (k, b) in todo:
        name, build, items, make, run = systems[i]
        with native(mon):
            out = run(objs[i], [make(items[j]) for j in b], cache=rng.random() < 0.3)
        mon.check(len(out) == len(b), "number of results", got=len(out), want=len(b), tree=name)
        mon.saw("batch_" + k)
        for j, o in zip(b, out):
            equal(mon, items[j], refs[i][j], o, name, k)
            mon.saw("results")
    for i, s in enumerate(systems):
        for n in set(s[0].split()):
            mon.saw("method_" + n)


def go(g, objs, cache):
    if cache and len({x._label for x in g.tasks}) == len(g.tasks):
        return g.run(objs, cache=True)
    return g.run(objs)


def run_mitex(ex, objs, cache=False):
    out = go(ex, objs, cache)
    return [{s: complex(c) for s, c in o._dict.items()} for o in out]


def tree_of(seed, salt, noisy, build):
    rng = random.Random(seed)
    t = Fixed(rng, {}, spam=noisy)
    t.leaf_kw["noise"] = noise(salt, t)
    obj = build(t)
    return t, obj


@REG.facet(50, 700, needs={"results": 150, "interleaved": 5}, isolate=True)
def expectations(rng, mon):
    systems = []
    tols = {}
    for _ in range(rng.choice([1, 1, 2, 2])):
        seed, salt, noisy, depth = rng.random(), rng.random(), rng.random() < 0.35, rng.choice([0, 1, 1, 2])

        def build(seed=seed, salt=salt, noisy=noisy, depth=depth):
            return tree_of(seed, salt, noisy, lambda t: t.mitex(depth, "symbolic"))[1]

        t, _ = tree_of(seed, salt, noisy, lambda t: t.mitex(depth, "symbolic"))
        name = " ".join(t.names)
        tols[name] = 2e-2 if t.split else 2e-4
        items = []
        for _ in range(rng.choice([2, 2, 3])):
            e = experiment(rng, rng.choice([t.shots, t.shots // 2]))
            if items and rng.random() < 0.25:  # the same circuit with other values
                e.circ, e.syms, e.qpo = items[0].circ, items[0].syms, items[0].qpo
                e.vals = {s: rng.choice([0.5, 1.5, 1.0, 0.0]) for s in e.syms}
            if rng.random() < 0.7:
                e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
            items.append(e)
        systems.append((name, build, items, lambda e: e.experiment(), run_mitex))

    def equal(mon, e, want, got, name, k):
        mon.check(set(got) == set(want), "an experiment gets other strings in a batch than alone", tree=name, batch=k, exp=e.describe())
        for s in want:
            mon.check(abs(got[s] - want[s]) <= tols[name] * (abs(e.qpo._dict[s]) + 1), "an experiment gets another value in a batch than alone",
                      string=str(s), got=got[s], want=want[s], tree=name, batch=k, exp=e.describe())

    history(rng, mon, systems, equal)
    mon.case(([s[0] for s in systems], [e.describe() for s in systems for e in s[2]]), True, str([s[0] for s in systems]))


def run_mitres(mr, objs, cache=False):
    out = go(mr, objs, cache)
    return [(list(o.get_bitlist()) and [repr(b) for b in o.get_bitlist()], dict(o.get_counts(cbits=list(o.get_bitlist())))) for o in out]


@REG.facet(80, 900, needs={"results": 200, "interleaved": 6}, isolate=True)
def results(rng, mon):
    systems = []
    tols = {}
    for _ in range(rng.choice([1, 1, 2, 2])):
        seed, salt, depth = rng.random(), rng.random(), rng.choice([0, 1, 1, 2])

        def make(t, depth=depth):
            t.mark = 0
            return t.mitres(depth)

        def build(seed=seed, salt=salt, make=make):
            return tree_of(seed, salt, False, make)[1]

        t, _ = tree_of(seed, salt, False, make)
        name = " ".join(t.names)
        tols[name] = 2e-2 if t.split else 1e-5
        items = []
        for _ in range(rng.choice([2, 2, 3])):
            while True:
                c = gens.measured(rng, rng.randint(1, 3), rng.randint(1, 8), rng.choice(["clifford", "any"]), True, extra_bits="spam" not in name)
                if all(q.reg_name != "node" for q in c.qubits):
                    break
            items.append(CircuitShots(c, rng.choice([t.shots, t.shots // 2])))
        systems.append((name, build, items, lambda cs: CircuitShots(cs.Circuit.copy(), cs.Shots), run_mitres))

    def equal(mon, cs, want, got, name, k):
        w = dict(tree=name, batch=k, circ=gens.describe(cs.Circuit))
        mon.check(got[0] == want[0], "a circuit gets other bits in a batch than alone", got=got[0], want=want[0], **w)
        n, m = sum(want[1].values()), sum(got[1].values())
        mon.check(abs(n - m) <= max(6, tols[name] * n), "a circuit gets another number of shots in a batch than alone", got=m, want=n, **w)
        if n and m:
            d = max(abs(want[1].get(x, 0) / n - got[1].get(x, 0) / m) for x in set(want[1]) | set(got[1]))
            mon.check(d <= tols[name], "a circuit gets another result in a batch than alone", got=got[1], want=want[1], **w)

    history(rng, mon, systems, equal)
    mon.case(([s[0] for s in systems], [gens.describe(c.Circuit) for s in systems for c in s[2]]), True, str([s[0] for s in systems]))
