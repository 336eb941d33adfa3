from harness.core import Registry
from harness.tgmodel import LOG, Gen, Model, beside, compare, compose, h, identity, sut_run, sut_task, m_task
from qermit import MitTask, TaskGraph

REG = Registry("C04", "A case builds a random (possibly nested) graph and a random history of cached / uncached runs and "
               "characterisation updates; cache entries are compared with the reference evaluation of each top-level "
               "step, characterisation seen inside each invocation with the writes logged before it. Non-trivial: two "
               "or more tasks; distinct by history.")


def recording(model, label, store):
    def fn(ins, log):
        outs = model.fn(ins, log)
        store.append((label, list(ins), list(outs)))
        return outs

    return Model(model.n_in, model.n_out, fn, model.tasks)


class Growing:
    """A graph with unique labels, growing step by step; each top-level invocation is recorded."""

    def __init__(self, rng, store, depth=1):
        self.g, self.tg, self.m, self.store, self.depth = Gen(rng), TaskGraph("top"), identity(1), store, depth

    def step(self, rng):
        g, tg, m, store, depth = self.g, self.tg, self.m, self.store, self.depth
        k = rng.choice(["append", "prepend", "parallel", "wire"])
        g.blocks = []
        if m.n_in > 7 or m.n_out > 7:
            k = rng.choice(["append", "prepend"])
        if k == "wire":
            tg.add_wire()
            m = beside(m, identity(1))
        elif k == "append":
            t, tm = g.block(m.n_out, None, depth)
            tg.append(t)
            m = compose(m, recording(tm, t.label, store))
        elif k == "prepend":
            t, tm = g.block(None, m.n_in, depth)
            tg.prepend(t)
            m = compose(recording(tm, t.label, store), m)
        else:
            t, tm = g.block(None, None, depth)
            tg.parallel(t)
            m = beside(m, recording(tm, t.label, store))
        self.m = m
        return (k, m.n_in, m.n_out)


@REG.facet(2400, 30000, needs={"cache_entries": 1000, "cached_after_growth": 300})
def cache_contents(rng, mon):
    """Cached and uncached runs, between which the graph grows at any of its ends."""
    store, hist = [], []
    b = Growing(rng, store)
    for _ in range(rng.randint(1, 6)):
        hist.append(b.step(rng))
    runs = 0
    for r in range(rng.randint(1, 4)):
        tg, m = b.tg, b.m
        ins = [h(r, k, rng.random()) for k in range(m.n_in)]
        cache = rng.random() < 0.65
        hist.append(("run", cache))
        store.clear()
        compare(mon, tg, m, ins, "run %d cache=%s" % (r, cache), hist, cache=cache)
        if cache:
            mon.saw("cached_after_growth", int(runs > 0 and hist[-2][0] != "run"))
            runs += 1
            check_cache(mon, tg, store, hist)
        for _ in range(rng.choice([0, 0, 1, 2])):
            hist.append(b.step(rng))
    mon.case(hist, len(b.m.tasks) > 1, hist)


def check_cache(mon, tg, store, hist):
    want = {l: outs for l, _, outs in store}
    c = tg.get_cache()
    mon.check(set(c) == set(want), "cache does not list exactly the tasks", hist=hist, got=list(c), want=list(want))
    keys = list(c)
    for l, (task, outs) in c.items():
        mon.saw("cache_entries")
        mon.check(list(outs) == want[l], "cached outputs are not those of this run", hist=hist, label=l,
                  got=list(outs), want=want[l])
        mon.check(task.label == l, "cache entry names another task", hist=hist, label=l, got=task.label)
    # order compatible with the dataflow: every value is produced before it is consumed
    produced = {}
    for l, i, outs in store:
        for o in outs:
            produced.setdefault(o, l)
    for l, i, outs in store:
        for v in i:
            if v in produced and produced[v] != l:
                mon.check(keys.index(produced[v]) < keys.index(l), "cache order contradicts the dataflow",
                          hist=hist, before=produced[v], after=l)


@REG.facet(600, 6000)
def clashing_labels_refused(rng, mon):
    g = Gen(rng, allow_nested=False)
    tg, m, hist = g.graph(steps=rng.randint(1, 4))
    t, tm = g.task(m.n_out, rng.randint(1, 3))
    tg.append(t)
    m = compose(m, tm)
    for _ in range(rng.randint(0, 2)):
        x, xm = g.block(m.n_out, None, 0)
        tg.append(x)
        m = compose(m, xm)
    d, dm = sut_task(tm.tasks[0], m.n_out, 1), m_task(tm.tasks[0], m.n_out, 1)
    if rng.random() < 0.5:
        tg.append(d)
        m = compose(m, dm)
    else:
        tg.parallel(d)
        m = beside(m, dm)
    ins = [h(k, rng.random()) for k in range(m.n_in)]
    mon.rejects(ValueError, lambda: tg.run(list(ins), cache=True), "cached run with clashing labels", hist=hist)
    compare(mon, tg, m, ins, "uncached run after refusal", hist)
    mon.case((hist, m.tasks), True)


def char_task(label, n_in, n_out, rng, log):
    adds = {}
    mode = rng.random()
    if mode < 0.6:
        adds = {rng.choice("abcdefg"): None for _ in range(rng.randint(1, 2))}

    def method(obj, *args):
        seen = dict(obj.characterisation)
        wrote = {}
        for k in adds:
            v = (label, len(log))
            obj.characterisation[k] = v
            wrote[k] = v
        log.append((label, seen, wrote))
        return tuple(h(label, k, args) for k in range(n_out))

    return MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=method)


@REG.facet(2400, 30000, needs={"task_views": 2000})
def characterisation_flow(rng, mon):
    log = []
    n = [0]

    def mk(n_in, n_out, depth):
        n[0] += 1
        if depth and rng.random() < 0.35:
            g = TaskGraph("g%d" % n[0])
            g.add_n_wires(n_in - 1)
            for _ in range(rng.randint(1, 3)):
                g.append(mk(g.n_out_wires, rng.randint(1, 3), depth - 1))
            g.append(mk(g.n_out_wires, n_out, 0))
            return g
        return char_task("c%d" % n[0], n_in, n_out, rng, log)

    tg = TaskGraph("top")
    hist = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["append", "prepend", "parallel"])
        if k == "append":
            tg.append(mk(tg.n_out_wires, rng.randint(1, 3), 2))
        elif k == "prepend":
            tg.prepend(mk(rng.randint(1, 3), tg.n_in_wires, 2))
        else:
            tg.parallel(mk(rng.randint(1, 2), rng.randint(1, 2), 2))
        hist.append(k)
    state = {}
    for r in range(rng.randint(1, 4)):
        how = rng.choice(["run", "update", "set", "none", "flatten"])
        given = {rng.choice("abcdxyz"): ("user", r, j) for j in range(rng.randint(0, 3))}
        kw = {}
        if how == "run":
            kw["characterisation"] = dict(given)
        elif how == "update":
            tg.update_characterisation(dict(given))
        elif how == "set":
            tg.set_characterisation({**state, **given})
        elif how == "flatten":
            try:
                tg.decompose_TaskGraph_nodes()
            except ValueError:
                pass
            given = {}
        else:
            given = {}
        state.update(given)
        hist.append((how, sorted(given)))
        if rng.random() < 0.3:
            mon.check(how == "run" or tg.get_characterisation() == state, "characterisation on the graph before a run",
                      hist=hist, got=tg.get_characterisation(), want=state)
        log.clear()
        tg.run([h(r, k) for k in range(tg.n_in_wires)], **kw)
        for label, seen, wrote in log:
            mon.saw("task_views")
            mon.check(seen == state, "a task does not see exactly the characterisation present when it runs",
                      hist=hist, task=label, seen=seen, want=state)
            state.update(wrote)
        mon.check(tg.get_characterisation() == state, "characterisation after the run is not what tasks recorded",
                  hist=hist, got=tg.get_characterisation(), want=state)
    mon.case(hist, len(log) > 1, hist)


@REG.facet(600, 6000)
def characterisation_not_shared(rng, mon):
    """Graphs composed from one task, or copied from one another, keep their own characterisation."""
    log = []
    shared = [char_task("s%d" % i, 1, 1, rng, log) for i in range(2)]
    a, b = TaskGraph("a"), TaskGraph("b")
    order = [rng.randint(0, 1) for _ in range(rng.randint(1, 3))]
    for i in order:
        a.append(shared[i])
        b.append(shared[i])
    how = rng.choice(["none", "copy", "nest"])
    c = None
    if how == "copy":
        a.update_characterisation({"own": 1})
        c = TaskGraph().from_TaskGraph(a)
    elif how == "nest":
        c = TaskGraph("c")
        c.append(a)
    a.run(["x"], characterisation={"only_a": 1})
    log.clear()
    b.run(["x"])
    for l, seen, _ in log:
        mon.saw("task_views")
        mon.check("only_a" not in seen, "characterisation of one graph reached a task of another", order=order, seen=seen)
    mon.check("only_a" not in b.get_characterisation(), "characterisation of one graph reached another", order=order)
    if c is not None:
        log.clear()
        c.run(["x"])
        for l, seen, _ in log:
            mon.check("only_a" not in seen, "characterisation given to a run of one graph reached a copy (%s)" % how,
                      order=order, seen=seen)
        if how == "copy":
            mon.check(c.get_characterisation().get("own") == 1, "a copy lost its characterisation")
            c.run(["x"], characterisation={"only_c": 1})
            mon.check("only_c" not in a.get_characterisation(), "characterisation of a copy reached the original")
    for s in shared:
        mon.check(not s.characterisation, "a building block task gained characterisation from a graph using it",
                  got=s.characterisation)
    mon.case((order, how), True)


def _backend():
    from harness.backend import ExactBackend

    return ExactBackend()


@REG.facet(160, 1200, needs={"mit_cached": 20})
def mitres_mitex_cache(rng, mon):
    """Caching on the library's own graphs: same results, outputs of the last task are the returned results."""
    from pytket import Circuit, Qubit
    from pytket.pauli import Pauli, QubitPauliString
    from pytket.utils import QubitPauliOperator
    from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict
    from qermit.taskgraph import gen_compiled_MitRes

    be = _backend()
    circs = [Circuit(2, 2).Rx(rng.random(), 0).CX(0, 1).measure_all() for _ in range(rng.randint(1, 3))]
    cs = [CircuitShots(c, rng.randint(1, 50)) for c in circs]
    mr = MitRes(be) if rng.random() < 0.5 else gen_compiled_MitRes(be, 0)
    plain = mr.run(cs)
    mon.check(len(mr.get_cache()) == 0, "cache filled by an uncached run")
    n = len(mr.tasks)
    cached = mr.run(cs, cache=True)
    mon.saw("mit_cached")
    mon.check([r.get_counts() for r in plain] == [r.get_counts() for r in cached], "caching changed results")
    c = mr.get_cache()
    mon.check(len(c) == n, "cache of a result object misses tasks", got=list(c), n=n)
    last = list(c.values())[-1][1]
    mon.check([r.get_counts() for r in last[0]] == [r.get_counts() for r in cached], "last cached output is not the result")
    qpo = QubitPauliOperator({QubitPauliString([Qubit(0), Qubit(1)], [Pauli.Z, Pauli.X]): 2.0,
                              QubitPauliString([Qubit(1)], [Pauli.Y]): -1.0})
    mx = MitEx(be)

    def exp(k):
        return ObservableExperiment(AnsatzCircuit(Circuit(2).Rx(k, 0).CX(0, 1), 100, SymbolsDict()),
                                    ObservableTracker(QubitPauliOperator(dict(qpo._dict))))

    ks = [rng.random() for _ in range(rng.randint(1, 3))]
    plain = mx.run([exp(k) for k in ks])
    out = mx.run([exp(k) for k in ks], cache=True)
    mon.check(plain == out, "caching changed expectations", plain=plain, cached=out)
    c = mx.get_cache()
    mon.check(len(c) == len(mx.tasks), "cache of an expectation object misses tasks", got=list(c))
    mon.check(list(c.values())[-1][1][0] == out, "last cached output is not the returned expectation")
    mon.case((len(cs), ks), True, ("mitres", len(cs), "mitex", ks))
