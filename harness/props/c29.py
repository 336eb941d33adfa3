"""C29: objects which run at the same time do not influence each other."""
import random
import threading
from copy import copy, deepcopy

from harness import gens
from harness.core import Registry, SkipCase
from harness.props.c25 import Small, experiment
from harness.props.c27 import Fixed, alone, noise, run_mitex, run_mitres
from harness.props.c28 import snap_circuit, snap_experiment
from harness.tgmodel import HOOKS, LOG, Gen, h
from qermit import CircuitShots, MitTask, TaskGraph

REG = Registry("C29", "A case runs two to four objects (task graphs with common parts, trees of mitigation methods, copies of trees) at the same time, each in a "
               "thread of its own; a seeded scheduler lets one thread run at a time and switches before and after tasks and device calls. Every run has to "
               "give what it gives alone. Distinct by objects and schedule.",
               assumptions=["as for C27", "threads are switched at the boundaries of tasks and at device calls, so not within a task",
                            "one object is run by one thread at a time"])


class Baton:
    """Lets one of the threads run at a time, switching at drawn points."""

    now = None

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.cond = threading.Condition()
        self.live, self.turn, self.trace, self.switches, self.points = [], None, [], 0, 0
        self.ids = {}

    def pick(self):
        new = self.rng.choice(self.live) if self.live else None
        if new != self.turn:
            self.switches += 1
        self.turn = new
        self.trace.append(new)
        self.cond.notify_all()

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.cond:
            self.points += 1
            if self.rng.random() < self.p:
                self.pick()
            while self.turn != me:
                self.cond.wait()

    def run(self, jobs):
        """Results (or exceptions) of the jobs."""
        out = [None] * len(jobs)
        self.live = list(range(len(jobs)))

        def body(i):
            with self.cond:
                self.ids[threading.get_ident()] = i
                while self.turn != i:
                    self.cond.wait()
            try:
                out[i] = ("ok", jobs[i]())
            except BaseException as x:  # noqa: BLE001
                out[i] = ("error", x)
            with self.cond:
                self.live.remove(i)
                self.pick()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        call = MitTask.__call__

        def task(obj, *a, **k):
            self.point()
            r = call(obj, *a, **k)
            self.point()
            return r

        MitTask.__call__ = task
        Baton.now = self
        HOOKS.append(self.point)
        try:
            for t in ts:
                t.start()
            with self.cond:
                self.pick()
            for t in ts:
                t.join()
        finally:
            MitTask.__call__ = call
            Baton.now = None
            HOOKS.clear()
        return out


def together(rng, mon, jobs):
    b = Baton(random.Random(rng.random()), rng.choice([0.1, 0.4, 1.0]))
    outs = b.run(jobs)
    mon.saw("switches", b.switches)
    mon.saw("switch_points", b.points)
    for kind, v in outs:
        if kind == "error":
            if isinstance(v, RuntimeError) and "Cycle" in str(v):
                mon.saw("native_refusals")
                raise SkipCase()
            raise v
    return [v for _, v in outs], b.trace


@REG.facet(600, 8000, needs={"concurrent_runs": 1200, "switches": 2500}, isolate=False)
def graphs(rng, mon):
    g = Gen(rng, unique=True)
    made = []
    for _ in range(rng.randint(1, 3)):
        made.append(g.graph(depth=rng.choice([0, 1, 2]), steps=rng.randint(1, 6))[:2])
    for b in g.blocks:
        if isinstance(b[0], TaskGraph) and rng.random() < 0.5:
            made.append(b)
    tg, m = rng.choice(made)
    made.append((rng.choice([copy, deepcopy, lambda x: TaskGraph().from_TaskGraph(x)])(tg), m))
    if rng.random() < 0.3:
        x, xm = rng.choice(made)
        x = TaskGraph().from_TaskGraph(x)
        try:
            x.decompose_TaskGraph_nodes()
            made.append((x, xm))
        except ValueError as e:
            mon.check("input and output" in str(e), "flattening refused", error=str(e))  # nested wires which pass through
    rng.shuffle(made)
    made = made[:4]
    trace = None
    for r in range(rng.randint(1, 2)):
        jobs, wants, logs, cached = [], [], [], []
        for i, (tg, m) in enumerate(made):
            ins = [h("in", r, i, k) for k in range(m.n_in)]
            out, wlog = m.run(ins)
            labels = [t.label for t in tg.tasks]
            cache = len(set(labels)) == len(labels) and rng.random() < 0.4
            jobs.append(lambda tg=tg, ins=ins, cache=cache: list(tg.run(list(ins), cache=cache)))
            wants.append(out)
            logs += wlog
            names = [l for l, _ in wlog]
            cached.append((labels, {l: x for l, x in wlog if names.count(l) == 1}) if cache else None)
        LOG.clear()
        got, trace = together(rng, mon, jobs)
        mon.saw("concurrent_runs", len(jobs))
        for i, (w, o) in enumerate(zip(wants, got)):
            mon.check(w == o, "a task graph gives other outputs while others run", trace=trace[:40], got=o, want=w, which=i)
        mon.check(sorted(LOG) == sorted(logs), "tasks run are not those of the graphs", trace=trace[:40])
        for (tg, _), c in zip(made, cached):
            if c:
                mon.saw("caches")
                store = tg.get_cache()
                mon.check(sorted(store) == sorted(c[0]), "the cache is not that of this run", got=sorted(store), want=sorted(c[0]))
                for l, ins in c[1].items():
                    if l in store:
                        o = store[l][1]
                        mon.check(tuple(o) == tuple(h(l, k, ins) for k in range(len(o))), "the cache holds what another run made", label=l)
    mon.case((len(made), trace), len(made) > 1, str(trace)[:200])


# ---- mitigation methods
class Yielding(Small):
    def process_circuits(self, *a, **k):
        Baton.now and Baton.now.point()
        out = super().process_circuits(*a, **k)
        Baton.now and Baton.now.point()
        return out

    def get_results(self, *a, **k):
        Baton.now and Baton.now.point()
        return super().get_results(*a, **k)

    def get_compiled_circuit(self, *a, **k):
        Baton.now and Baton.now.point()
        return super().get_compiled_circuit(*a, **k)


class Shared(Fixed):
    def yielding(self, be):
        be.__class__ = type("Y", (Yielding, be.__class__) if not isinstance(be, Small) else (Yielding,), {})
        return be

    def outer(self, sim_=False):
        return self.yielding(super().outer(sim_))

    def leaf(self):
        return self.yielding(super().leaf())


def tree_of(seed, salt, noisy, build):
    rng = random.Random(seed)
    t = Shared(rng, {}, spam=noisy)
    t.leaf_kw["noise"] = noise(salt, t)
    return t, build(t)


def concurrent(rng, mon, systems, equal, snap):
    """systems: [(name, build, items, make, run)]; the same items may be in several."""
    refs, objs = [], []
    for name, build, items, make, run in systems:
        rs = []
        for it in items:
            kind, v = alone(lambda: build()[1], make(it), run)
            mon.check(kind == "ok", "an experiment alone fails", error=v, tree=name)
            rs.append(v)
        refs.append(rs)
        objs.append(build()[1])
    runs = [(i, objs[i]) for i in range(len(systems))]
    while len(runs) < 2 or rng.random() < 0.3:
        i = rng.randrange(len(systems))
        runs.append((i, rng.choice([copy, deepcopy])(objs[i]) if rng.random() < 0.6 else systems[i][1]()[1]))
        mon.saw("copies")
    trace = None
    for _ in range(rng.choice([1, 2])):
        batches, jobs, given = [], [], {}
        for i, obj in runs:
            name, _, items, make, run = systems[i]
            b = [rng.randrange(len(items)) for _ in range(rng.randint(1, 3))]
            batches.append(b)
            # the user's own objects may be common to runs
            xs = [given.setdefault(id(items[j]), make(items[j])) if rng.random() < 0.6 else make(items[j]) for j in b]
            jobs.append(lambda obj=obj, xs=xs, run=run, cache=rng.random() < 0.3: run(obj, xs, cache=cache))
        before = {k: snap(x) for k, x in given.items()}
        got, trace = together(rng, mon, jobs)
        for (i, _), b, out in zip(runs, batches, got):
            name, _, items, _, _ = systems[i]
            w = dict(tree=name, others=[systems[j][0] for j, _ in runs], trace=trace[:60])
            mon.check(len(out) == len(b), "number of results", got=len(out), want=len(b), **w)
            for j, o in zip(b, out):
                equal(items[j], refs[i][j], o, name, w)
                mon.saw("results")
        for k, x in given.items():
            mon.check(snap(x) == before[k], "a run changed the user's objects", trees=[s[0] for s in systems])
    mon.saw("concurrent_runs", len(runs))
    for s in systems:
        for n in set(s[0].split()):
            mon.saw("method_" + n)
    return trace


@REG.facet(50, 600, needs={"results": 120, "switches": 150}, isolate=True)
def expectations(rng, mon):
    systems, tols, pool = [], {}, []
    for _ in range(rng.choice([1, 2, 2])):
        seed, salt, noisy, depth = rng.random(), rng.random(), rng.random() < 0.35, rng.choice([0, 1, 1, 2])

        def build(seed=seed, salt=salt, noisy=noisy, depth=depth):
            return tree_of(seed, salt, noisy, lambda t: t.mitex(depth, "symbolic"))

        t, _ = build()
        name = " ".join(t.names)
        tols[name] = 2e-2 if t.split else 2e-4
        items = []
        for _ in range(rng.choice([1, 2])):
            if pool and rng.random() < 0.6:
                e = rng.choice(pool)
            else:
                e = experiment(rng, rng.choice([t.shots, t.shots // 2]))
                if rng.random() < 0.7:
                    e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
                pool.append(e)
            items.append(e)
        systems.append((name, build, items, lambda e: e.experiment(), run_mitex))

    def equal(e, want, got, name, w):
        mon.check(set(got) == set(want), "an experiment gets other strings while other objects run", exp=e.describe(), **w)
        for s in want:
            mon.check(abs(got[s] - want[s]) <= tols[name] * (abs(e.qpo._dict[s]) + 1), "an experiment gets another value while other objects run",
                      string=str(s), got=got[s], want=want[s], exp=e.describe(), **w)

    trace = concurrent(rng, mon, systems, equal, snap_experiment)
    mon.case(([s[0] for s in systems], [e.describe() for e in pool], trace), True, str([s[0] for s in systems]))


@REG.facet(70, 800, needs={"results": 150, "switches": 150}, isolate=True)
def results(rng, mon):
    systems, tols, pool = [], {}, []
    for _ in range(rng.choice([1, 2, 2])):
        seed, salt, depth = rng.random(), rng.random(), rng.choice([0, 1, 1, 2])

        def make(t, depth=depth):
            t.mark = 0
            return t.mitres(depth)

        def build(seed=seed, salt=salt, make=make):
            return tree_of(seed, salt, False, make)

        t, _ = build()
        name = " ".join(t.names)
        tols[name] = 2e-2 if t.split else 1e-5
        items = []
        for _ in range(rng.choice([1, 2])):
            while True:
                c = gens.measured(rng, rng.randint(1, 3), rng.randint(1, 8), rng.choice(["clifford", "any"]), True, extra_bits="spam" not in name)
                if all(q.reg_name != "node" for q in c.qubits):
                    break
            items.append(CircuitShots(c, rng.choice([t.shots, t.shots // 2])))
        pool += items
        systems.append((name, build, items, lambda cs: CircuitShots(cs.Circuit.copy(), cs.Shots), run_mitres))

    def equal(cs, want, got, name, w):
        w = dict(w, circ=gens.describe(cs.Circuit))
        mon.check(got[0] == want[0], "a circuit gets other bits while other objects run", got=got[0], want=want[0], **w)
        n, m = sum(want[1].values()), sum(got[1].values())
        mon.check(abs(n - m) <= max(6, tols[name] * n), "a circuit gets another number of shots while other objects run", got=m, want=n, **w)
        if n and m:
            d = max(abs(want[1].get(x, 0) / n - got[1].get(x, 0) / m) for x in set(want[1]) | set(got[1]))
            mon.check(d <= tols[name], "a circuit gets another result while other objects run", got=got[1], want=want[1], **w)

    trace = concurrent(rng, mon, systems, equal, snap_circuit)
    mon.case(([s[0] for s in systems], [gens.describe(c.Circuit) for c in pool], trace), True, str([s[0] for s in systems]))
