"""C28: failures are reported and leave nothing behind."""
import random
from collections import Counter

from pytket.circuit import Circuit, Qubit
from pytket.passes import CustomPass
from pytket.pauli import Pauli, QubitPauliString

from harness import gens
from harness.core import Registry, SkipCase
from harness.props.c25 import Small, device, experiment
from harness.props.c27 import Fixed, alone, batches, native, noise, run_mitex, run_mitres
from harness.tgmodel import LOG, PLAN, Fault, Gen, compare, h, maybe_fail, sut_run
from sympy import Symbol
from qermit import CircuitShots, MitRes, TaskGraph
from qermit.noise_model import TranspilerBackend

REG = Registry("C28", "A case runs task graphs, or trees of mitigation methods on exact but noisy devices, on histories in which some runs fail: a device or a task "
               "breaks down at a drawn call (submission, retrieval, compilation), or a batch holds an experiment which cannot be run.  A failing run "
               "has to raise that very failure, leave the user's objects alone, and every later run has to give what fresh objects give. Distinct by "
               "history.",
               assumptions=["as for C27: noise is a function of the circuit alone and regression models are replaced by a fixed correction",
                            "characterisation which was completed before a run failed may be kept"])


# ---- task graphs
@REG.facet(900, 12000, needs={"failed_runs": 500, "later_runs": 500, "cached_after_failure": 100})
def graphs(rng, mon):
    g = Gen(rng, unique=True)
    tg, m, hist = g.graph(depth=rng.choice([0, 0, 1, 2]), steps=rng.randint(1, 7))
    try:
        for r in range(rng.randint(2, 4)):
            ins = [h("in", r, k, rng.random()) for k in range(m.n_in)]
            want, wlog = m.run(ins)
            kw = {}
            labels = [t.label for t in tg.tasks]
            if len(set(labels)) == len(labels) and rng.random() < 0.4:
                kw["cache"] = True
            if wlog and rng.random() < 0.6:
                PLAN["left"] = rng.randrange(len(wlog))
                hist.append("fail at %d of %d" % (PLAN["left"], len(wlog)))
                if PLAN["left"] == 0 and rng.random() < 0.3:
                    kw["characterisation"] = {"given": r}
                n = PLAN["left"]
                try:
                    out, log = sut_run(tg, ins, **kw)
                    failed = False
                except Fault:
                    failed = True
                finally:
                    PLAN["left"] = None
                mon.saw("failed_runs")
                mon.check(failed, "a run one of whose tasks failed returned results", hist=hist)
                mon.check(len(LOG) == n, "tasks were run after the failure", hist=hist, got=len(LOG), want=n)
            else:
                hist.append("run")
                compare(mon, tg, m, ins, "after failures", hist, **kw)
                mon.saw("later_runs")
                if kw.get("cache"):
                    mon.saw("cached_after_failure")
                    c = tg.get_cache()
                    mon.check(sorted(c) == sorted(labels), "the cache is not that of this run", hist=hist)
        ins = [h("last", k, rng.random()) for k in range(m.n_in)]
        compare(mon, tg, m, ins, "after failures", hist)
        for b, bm in g.blocks:
            if isinstance(b, TaskGraph):
                compare(mon, b, bm, [h("blk", k) for k in range(bm.n_in)], "block after failures of the whole", hist)
    finally:
        PLAN["left"] = None
    mon.case(hist, any(str(x).startswith("fail") for x in hist), hist)


# ---- devices which break down
class Faulty(Small):
    """Counts calls, and fails when the plan says so."""

    control = None

    def call(self, kind):
        c = self.control
        if c is None or not c["on"]:
            return
        c["calls"].append(kind)
        maybe_fail()

    def process_circuits(self, *a, **k):
        self.call("submit")
        out = super().process_circuits(*a, **k)
        self.call("submitted")
        return out

    def get_results(self, *a, **k):
        self.call("retrieve")
        return super().get_results(*a, **k)

    def get_result(self, *a, **k):
        self.call("retrieve")
        return super().get_result(*a, **k)

    def get_compiled_circuit(self, *a, **k):
        self.call("compile")
        return super().get_compiled_circuit(*a, **k)

    def get_compiled_circuits(self, *a, **k):
        self.call("compile")
        return super().get_compiled_circuits(*a, **k)


class Breaking(Fixed):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.control = {"on": False, "calls": []}

    def faulty(self, be):
        be.__class__ = type("F", (Faulty, be.__class__) if not isinstance(be, Small) else (Faulty,), {})
        be.control = self.control
        return be

    def outer(self, sim_=False):
        return self.faulty(super().outer(sim_))

    def leaf(self):
        return self.faulty(super().leaf())

    def plain(self):
        return MitRes(self.faulty(device(self.rng, **self.leaf_kw)), _label="plain")


# ---- simulated devices of qermit
@REG.facet(120, 1200, needs={"failed_submissions": 60, "submissions_after_failure": 60, "earlier_results": 100}, isolate=True)
def simulators(rng, mon):
    plan = {"n": 0, "fail": None}
    seed = rng.random()

    def flips(k, c):
        r = random.Random((seed, k).__repr__())
        return [q for q in c.qubits if r.random() < 0.3]

    def noisy(c):
        k = plan["n"]
        plan["n"] += 1
        if plan["fail"] == k:
            raise Fault("pass broke down")
        d = gens.blank(list(c.qubits))
        for b in c.bits:
            d.add_bit(b)
        for q in flips(k, c):
            d.X(q)
        for cmd in c.get_commands():
            d.add_gate(cmd.op, cmd.args)
        return d

    be = TranspilerBackend(CustomPass(noisy), result_dict={}, max_batch_size=rng.randint(1, 7))
    mr = MitRes(be)
    held, hist, failed = [], [], False

    def expect(c, on, first, n):
        out = Counter()
        for k in range(first, first + n):
            out[tuple(int((q in on) != (q in flips(k, c))) for q in c.qubits)] += 1
        return out

    for _ in range(rng.randint(3, 6)):
        jobs = []
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 3)
            c = Circuit(n, n)
            on = [q for q in c.qubits if rng.random() < 0.5]
            for q in on:
                c.X(q)
            for q, b in zip(c.qubits, c.bits):
                c.Measure(q, b)
            jobs.append((c, on, rng.randint(1, 12)))
        total = sum(n for _, _, n in jobs)
        start = plan["n"]
        breaks = rng.random() < 0.4
        plan["fail"] = start + rng.randrange(total) if breaks else None
        how = rng.choice(["submit", "run", "run_circuit"])
        if how == "run_circuit" and breaks:
            how = "submit"
        hist.append((how, [n for _, _, n in jobs], breaks and plan["fail"] - start))
        before = [repr(c.to_dict()) for c, _, _ in jobs]
        raised, got = None, None
        try:
            if how == "submit":
                got = be.process_circuits([c for c, _, _ in jobs], [n for _, _, n in jobs])
            elif how == "run":
                got = mr.run([CircuitShots(c, n) for c, _, n in jobs])
            else:
                got = [be.run_circuit(c, n) for c, _, n in jobs]
        except SkipCase:
            raise
        except Exception as x:  # noqa: BLE001
            if not breaks:
                raise
            raised = x
        plan["fail"] = None
        mon.check([repr(c.to_dict()) for c, _, _ in jobs] == before, "a run changed the user's circuits", hist=hist)
        if breaks:
            mon.saw("failed_submissions")
            failed = True
            mon.check(raised is not None, "a submission whose pass failed returned", hist=hist)
            continue
        if failed:
            mon.saw("submissions_after_failure")
        mon.check(len(got) == len(jobs), "number of results", hist=hist)
        k = start
        for (c, on, n), r in zip(jobs, got):
            want = expect(c, on, k, n)
            k += n
            if how == "submit":
                held.append((r, want, list(c.bits)))
            else:
                mon.check(r.get_counts(list(c.bits)) == want, "counts after failures", hist=hist, got=r.get_counts(list(c.bits)), want=want)
        for r, want, bits in rng.sample(held, min(len(held), 4)):
            mon.saw("earlier_results")
            g = be.get_result(r).get_counts(bits)
            mon.check(g == want, "results of an earlier submission", hist=hist, got=g, want=want)
    mon.case(hist, failed, hist)


def tree_of(seed, salt, noisy, build):
    rng = random.Random(seed)
    t = Breaking(rng, {}, spam=noisy)
    t.leaf_kw["noise"] = noise(salt, t)
    obj = build(t)
    return t, obj


def history(rng, mon, name, build, items, make, run, equal, spoil, snap):
    refs = []
    for it in items:
        kind, v = alone(lambda: build()[1], make(it), run)
        mon.check(kind == "ok", "an experiment alone fails", error=v, tree=name)
        refs.append(v)
    tree, obj = build()
    ctl = tree.control
    total = None
    failed = False
    hist = []
    todo = [("run", b) for _, b in batches(rng, len(items))]
    for _ in range(rng.randint(1, 3)):
        b = [rng.randrange(len(items)) for _ in range(rng.randint(1, 3))]
        todo.insert(rng.randrange(len(todo)), (rng.choice(["device", "device", "device", "invalid"]), b))
    for kind, b in todo:
        hist.append((kind, b))
        objs = [make(items[j]) for j in b]
        before = [snap(o) for o in objs]
        if kind == "run":
            with native(mon):
                ctl["calls"], ctl["on"] = [], True
                try:
                    out = run(obj, objs, cache=rng.random() < 0.3)
                finally:
                    ctl["on"] = False
            if b:
                total = list(ctl["calls"])
            mon.check(len(out) == len(b), "number of results", got=len(out), want=len(b), tree=name, hist=hist)
            for j, o in zip(b, out):
                equal(items[j], refs[j], o, dict(tree=name, hist=hist))
                mon.saw("results_after_failure" if failed else "results_before_failure")
        elif kind == "device":
            if total is None:
                PLAN["left"] = rng.randrange(6)
            elif total:
                at = rng.choice(sorted(set(total)))
                PLAN["left"] = rng.choice([i for i, c in enumerate(total) if c == at])
            ctl["calls"], ctl["on"] = [], True
            out = None
            with native(mon):
                try:
                    out = run(obj, objs)
                except SkipCase:
                    raise
                except Exception as x:  # noqa: BLE001
                    y = x
                    while y is not None and not isinstance(y, Fault):
                        y = y.__cause__ or y.__context__
                    if y is None:
                        raise
                finally:
                    reached = PLAN["left"] is None
                    PLAN["left"] = None
                    ctl["on"] = False
            if reached:
                mon.saw("device_failures")
                mon.saw("failure_at_%s" % ctl["calls"][-1])
                failed = True
            else:
                mon.saw("failure_not_reached")
            if out is not None:
                w = dict(tree=name, hist=hist, failure=reached and ctl["calls"][-1])
                mon.check(len(out) == len(b), "number of results of a run whose device failed", got=len(out), want=len(b), **w)
                for j, o in zip(b, out):
                    equal(items[j], refs[j], o, w)
        else:
            k = rng.randrange(len(objs))
            objs[k] = spoil(rng, objs[k])
            before = [snap(o) for o in objs]
            try:
                with native(mon):
                    run(obj, objs)
                raised = False
            except SkipCase:
                raise
            except Exception as x:  # noqa: BLE001
                raised = True
                hist[-1] += (type(x).__name__,)
            mon.saw("invalid_batches")
            mon.check(raised, "a batch with an experiment which cannot be run returned results", tree=name, hist=hist)
            failed = True
        for o, s in zip(objs, before):
            mon.check(snap(o) == s, "a run changed the user's objects", tree=name, hist=hist)
    for n in set(name.split()):
        mon.saw("method_" + n)
    return hist


def spoil_experiment(rng, e):
    """The observable names a qubit which the circuit lacks, or a symbol has no value."""
    if rng.random() < 0.5:
        c = e.AnsatzCircuit.Circuit.copy()
        c.Rz(Symbol("unbound"), c.qubits[0])
        return e._replace(AnsatzCircuit=e.AnsatzCircuit._replace(Circuit=c))
    q = e.ObservableTracker.qubit_pauli_operator
    d = dict(q._dict)
    d[QubitPauliString([Qubit("absent", 3)], [Pauli.Z])] = 1.0
    return e._replace(ObservableTracker=type(e.ObservableTracker)(type(q)(d)))


def snap_experiment(e):
    a, t = e.AnsatzCircuit, e.ObservableTracker
    return (repr(a.Circuit.to_dict()), a.Shots, sorted((str(k), str(v)) for k, v in a.SymbolsDict._symbolic_map.items()),
            sorted((str(k), complex(v)) for k, v in t.qubit_pauli_operator._dict.items()), len(t.measurement_circuits), sorted(map(str, t.get_empty_strings())))


@REG.facet(60, 700, needs={"results_after_failure": 80, "device_failures": 40}, isolate=True)
def expectations(rng, mon):
    seed, salt, noisy, depth = rng.random(), rng.random(), rng.random() < 0.35, rng.choice([0, 1, 1, 2])

    def build():
        return tree_of(seed, salt, noisy, lambda t: t.mitex(depth, "symbolic"))

    t, _ = build()
    name = " ".join(t.names)
    tol = 2e-2 if t.split else 2e-4
    items = []
    for _ in range(rng.choice([1, 2, 2])):
        e = experiment(rng, rng.choice([t.shots, t.shots // 2]))
        if rng.random() < 0.7:
            e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
        items.append(e)

    def equal(e, want, got, w):
        mon.check(set(got) == set(want), "other strings than from a fresh object", exp=e.describe(), **w)
        for s in want:
            mon.check(abs(got[s] - want[s]) <= tol * (abs(e.qpo._dict[s]) + 1), "another value than from a fresh object",
                      string=str(s), got=got[s], want=want[s], exp=e.describe(), **w)

    hist = history(rng, mon, name, build, items, lambda e: e.experiment(), run_mitex, equal, spoil_experiment, snap_experiment)
    mon.case((name, hist, [e.describe() for e in items]), True, (name, hist))


def spoil_circuit(rng, cs):
    """A free symbol, which no device takes."""
    c = cs.Circuit.copy()
    d = gens.blank(list(c.qubits))
    d.Rx(gens.symbols(random.Random(1), 1)[0], c.qubits[0])
    for b in c.bits:
        d.add_bit(b)
    for cmd in c.get_commands():
        if cmd.op.type.name == "Barrier":
            d.add_barrier(cmd.args)
        else:
            d.add_gate(cmd.op, cmd.args)
    return CircuitShots(d, cs.Shots)


def snap_circuit(cs):
    return (repr(cs.Circuit.to_dict()), cs.Shots)


@REG.facet(80, 900, needs={"results_after_failure": 80, "device_failures": 40}, isolate=True)
def results(rng, mon):
    seed, salt, depth = rng.random(), rng.random(), rng.choice([0, 1, 1, 2])

    def make(t):
        t.mark = 0
        return t.mitres(depth)

    def build():
        return tree_of(seed, salt, False, make)

    t, _ = build()
    name = " ".join(t.names)
    tol = 2e-2 if t.split else 1e-5
    items = []
    for _ in range(rng.choice([1, 2, 2])):
        while True:
            c = gens.measured(rng, rng.randint(1, 3), rng.randint(1, 8), rng.choice(["clifford", "any"]), True, extra_bits="spam" not in name)
            if all(q.reg_name != "node" for q in c.qubits):
                break
        items.append(CircuitShots(c, rng.choice([t.shots, t.shots // 2])))

    def equal(cs, want, got, w):
        w = dict(w, circ=gens.describe(cs.Circuit))
        mon.check(got[0] == want[0], "other bits than from a fresh object", got=got[0], want=want[0], **w)
        n, m = sum(want[1].values()), sum(got[1].values())
        mon.check(abs(n - m) <= max(6, tol * n), "another number of shots than from a fresh object", got=m, want=n, **w)
        if n and m:
            d = max(abs(want[1].get(x, 0) / n - got[1].get(x, 0) / m) for x in set(want[1]) | set(got[1]))
            mon.check(d <= tol, "another result than from a fresh object", got=got[1], want=want[1], **w)

    hist = history(rng, mon, name, build, items, lambda cs: CircuitShots(cs.Circuit.copy(), cs.Shots), run_mitres, equal, spoil_circuit, snap_circuit)
    mon.case((name, hist, [gens.describe(c.Circuit) for c in items]), True, (name, hist))
