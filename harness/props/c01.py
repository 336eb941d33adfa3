import re
from typing import List, Tuple

from pytket import Circuit, Qubit
from pytket.backends.backendresult import BackendResult
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

from harness.backend import ExactBackend, make_result
from harness.core import Registry
from harness.tgmodel import h
from harness.tgmodel import Gen, compare, compose, beside, identity
from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, MitTask, ObservableExperiment, ObservableTracker, SymbolsDict, TaskGraph
from qermit.taskgraph import duplicate_wire_task_gen, gen_compiled_MitRes

REG = Registry("C01", "A case is a random composition history (prepend / append / parallel / plain wires, tasks and "
               "nested graphs of arity 1-4, reused blocks) run on random inputs; outputs and the multiset of task "
               "invocations with their arguments are compared with direct functional evaluation. Non-trivial: at "
               "least two steps, distinct by history.")


@REG.facet(3200, 60000, needs={"task_invocations": 1000})
def histories(rng, mon):
    g = Gen(rng)
    tg, m, hist = g.graph(depth=rng.choice([0, 0, 1, 2]), steps=rng.randint(0, 8))
    mon.check((tg.n_in_wires, tg.n_out_wires) == (m.n_in, m.n_out), "wire counts differ", hist=hist,
              got=(tg.n_in_wires, tg.n_out_wires), want=(m.n_in, m.n_out))
    for r in range(2):
        ins = [h("in", r, k, rng.random()) for k in range(m.n_in)]
        compare(mon, tg, m, ins, "history", hist)
    # __call__ takes the wires too
    ins = ["w%d" % k for k in range(m.n_in)]
    mon.check(list(tg(ins)) == m.run(ins)[0], "calling the graph differs from running it", hist=hist)
    mon.case(hist, len(hist) > 1, hist)


@REG.facet(1600, 20000, needs={"task_invocations": 300})
def grow_and_run(rng, mon):
    """Run between composition steps; the graph is the same object throughout."""
    g = Gen(rng)
    tg = TaskGraph()
    m = identity(1)
    hist = []
    for s in range(rng.randint(2, 7)):
        m = g.step(tg, m, 1, hist)
        if rng.random() < 0.6:
            ins = [h(s, k, rng.random()) for k in range(m.n_in)]
            compare(mon, tg, m, ins, "run after step %d" % s, hist)
    mon.case(hist, len(hist) > 1, hist)


@REG.facet(1600, 20000)
def interleaved_wires(rng, mon):
    """Plain wires alternating with parallel tasks, then tasks across all of them."""
    g = Gen(rng, allow_nested=rng.random() < 0.3)
    tg, m, hist = TaskGraph(), identity(1), []
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.5:
            n = rng.randint(1, 2)
            tg.add_n_wires(n)
            m = beside(m, identity(n))
            hist.append(("wires", n))
        else:
            t, tm = g.block(depth=1)
            tg.parallel(t)
            m = beside(m, tm)
            hist.append(("parallel", tm.n_in, tm.n_out))
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.5:
            t, tm = g.block(m.n_out, rng.randint(1, 5))
            tg.append(t)
            m = compose(m, tm)
            hist.append(("append", tm.n_out))
        else:
            t, tm = g.block(rng.randint(1, 5), m.n_in)
            tg.prepend(t)
            m = compose(tm, m)
            hist.append(("prepend", tm.n_in))
    compare(mon, tg, m, [h(k, rng.random()) for k in range(m.n_in)], "interleaved", hist)
    mon.case(hist, True, hist)


@REG.facet(800, 8000)
def misfits_rejected(rng, mon):
    g = Gen(rng)
    tg, m, hist = g.graph(steps=rng.randint(0, 4))
    ins = [h(k, rng.random()) for k in range(m.n_in)]
    bad_n = rng.choice([x for x in range(1, 12) if x != m.n_out])
    t, _ = g.block(bad_n, rng.randint(1, 3), kind=rng.choice([None, "graph"]))
    mon.rejects(Exception, lambda: tg.append(t), "append of a step expecting %d wires onto %d" % (bad_n, m.n_out), hist=hist)
    compare(mon, tg, m, ins, "after refused append", hist)
    bad_n = rng.choice([x for x in range(1, 12) if x != m.n_in])
    t, _ = g.block(rng.randint(1, 3), bad_n, kind=rng.choice([None, "graph"]))
    mon.rejects(Exception, lambda: tg.prepend(t), "prepend of a step giving %d wires to %d" % (bad_n, m.n_in), hist=hist)
    compare(mon, tg, m, ins, "after refused prepend", hist)
    mon.check((tg.n_in_wires, tg.n_out_wires) == (m.n_in, m.n_out), "wire counts changed by refused step", hist=hist)
    mon.case((hist, bad_n), True)


@REG.facet(400, 4000)
def duplication(rng, mon):
    """The wire-duplicating task hands each consumer the full, ordered set of wires."""
    w, d = rng.randint(1, 4), rng.randint(1, 4)
    dup = duplicate_wire_task_gen(w, d)
    mon.check((dup.n_in_wires, dup.n_out_wires) == (w, w * d), "duplicate task arity")
    g = Gen(rng)
    t, tm = g.block(w * d, rng.randint(1, 4))
    tg = TaskGraph()
    tg.add_n_wires(w * d - 1)
    tg.append(t)
    tg.prepend(dup)
    ins = [h(k, rng.random()) for k in range(w)]
    want, _ = tm.run(ins * d)
    got = list(tg.run(list(ins)))
    mon.check(got == want, "duplicated wires reach the wrong ports", w=w, d=d, got=got, want=want)
    if w > 1:
        mon.rejects(ValueError, lambda: dup(ins[:-1]), "duplicate task accepts too few wires")
    mon.case((w, d, tm.n_out), True, (w, d))


# ---- the library's own graphs, extended by users' tasks
def list_fn(rng, kind):
    """A function of lists, which tells positions and values apart."""
    k = rng.choice(["reverse", "rotate", "repeat", "first", "values", "values"])
    a = rng.randint(1, 9)
    if k == "reverse":
        return k, lambda l: list(reversed(l))
    if k == "rotate":
        return k, lambda l: l[1:] + l[:1]
    if k == "repeat":
        return k, lambda l: l + l[:1]
    if k == "first":
        return k, lambda l: l[:max(1, len(l) - 1)]
    if kind == "circuits":
        return k, lambda l: [CircuitShots(x.Circuit, x.Shots * 2 + a + i) for i, x in enumerate(l)]
    if kind == "experiments":
        return k, lambda l: [ObservableExperiment(AnsatzCircuit(x.AnsatzCircuit.Circuit, x.AnsatzCircuit.Shots * 2 + a + i, x.AnsatzCircuit.SymbolsDict),
                                                  x.ObservableTracker) for i, x in enumerate(l)]
    if kind == "results":
        return k, lambda l: [make_result({b: n + a + i for b, n in x.get_counts().items()}, x.get_bitlist()) for i, x in enumerate(l)]
    return k, lambda l: [QubitPauliOperator({s: c * a + i for s, c in x._dict.items()}) for i, x in enumerate(l)]


TYPES = {"circuits": List[CircuitShots], "results": List[BackendResult], "experiments": List[ObservableExperiment], "operators": List[QubitPauliOperator]}


def list_task(label, kind, fn, n_in=1, n_out=1):
    def task(obj, wire):
        return (fn(wire),)

    task.__annotations__ = {"wire": TYPES[kind], "return": Tuple[TYPES[kind]]}
    return MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=task)


def plain_values(l):
    return [sorted((str(k), complex(v)) for k, v in x._dict.items()) if isinstance(x, QubitPauliOperator)
            else sorted((repr(b), x.get_bitlist().index(b)) for b in x.get_bitlist()) + sorted(x.get_counts().items()) for x in l]


@REG.facet(300, 3000, needs={"own_graphs": 200, "refusals": 120})
def library_graphs(rng, mon):
    """Tasks of a user's in front of, and behind, result and expectation objects."""
    be = ExactBackend()
    mitex = rng.random() < 0.5
    base = MitEx(be, mitres=MitRes(be)) if mitex else (MitRes(be) if rng.random() < 0.5 else gen_compiled_MitRes(be, 0))
    before, after = ("experiments", "operators") if mitex else ("circuits", "results")

    def items():
        out = []
        for k in range(n):
            c = Circuit(2).Ry(0.1 + 0.2 * k, 0).CX(0, 1)
            if mitex:
                out.append(ObservableExperiment(AnsatzCircuit(c, 1000 + k, SymbolsDict()), ObservableTracker(QubitPauliOperator(
                    {QubitPauliString([Qubit(0)], [Pauli.Z]): 1.0 + k, QubitPauliString([Qubit(1), Qubit(0)], [Pauli.X, Pauli.X]): 2.0}))))
            else:
                out.append(CircuitShots(c.measure_all(), 1000 + k))
        return out

    n = rng.randint(1, 4)
    pre, post, hist = [], [], ["mitex" if mitex else "mitres"]
    g = base
    if rng.random() < 0.4:
        g = TaskGraph().from_TaskGraph(base)
        if rng.random() < 0.5:
            g = (MitEx if mitex else MitRes)(ExactBackend()).from_TaskGraph(g)
        hist.append(type(g).__name__)
    own = type(g) is not TaskGraph
    for j in range(rng.randint(0, 5)):
        if rng.random() < 0.5:
            k, f = list_fn(rng, before)
            g.prepend(list_task("pre%d" % j, before, f))
            pre.insert(0, f)
            hist.append("prepend " + k)
        else:
            k, f = list_fn(rng, after)
            g.append(list_task("post%d" % j, after, f))
            post.append(f)
            hist.append("append " + k)
        if own and rng.random() < 0.4:
            bad = rng.choice(["type_in_front", "type_behind", "wires", "parallel", "wire"])
            hist.append("refuse " + bad)
            mon.saw("refusals")
            t = lambda kind, **kw: list_task("bad", kind, lambda l: [], **kw)
            mon.rejects(Exception, {
                "type_in_front": lambda: g.prepend(t(rng.choice([x for x in TYPES if x != before]))),
                "type_behind": lambda: g.append(t(rng.choice([x for x in TYPES if x != after]))),
                "wires": lambda: rng.choice([lambda: g.append(t(after, n_out=2)), lambda: g.prepend(t(before, n_in=2)), lambda: g.prepend(t(before, n_out=2)),
                                             lambda: g.append(t(after, n_in=2))])(),
                "parallel": lambda: g.parallel(t(after)),
                "wire": lambda: rng.choice([g.add_wire, lambda: g.add_n_wires(1)])()}[bad], "a step which does not fit a library graph (%s)" % bad, hist=hist)
    x = items()
    for f in pre:
        x = f(x)
    want = (MitEx(ExactBackend(), mitres=MitRes(ExactBackend())) if mitex else MitRes(ExactBackend())).run(x)
    for f in post:
        want = f(want)
    for r in range(rng.choice([1, 2])):
        got = g.run(items()) if own else g.run([items()])[0]
        mon.saw("own_graphs")
        mon.check(plain_values(got) == plain_values(want), "tasks around a library graph do not act as they compose", hist=hist,
                  got=plain_values(got), want=plain_values(want))
    if g is not base:
        got = base.run(items())
        want = (MitEx(ExactBackend(), mitres=MitRes(ExactBackend())) if mitex else MitRes(ExactBackend())).run(items())
        mon.check(plain_values(got) == plain_values(want), "steps added to a copy reached the original", hist=hist)
    mon.case((hist, n), len(hist) > 2, hist)


# ---- drawings
class Labelled(Gen):
    """No block is used twice, and the model of each is kept by its label."""

    def __init__(self, rng):
        super().__init__(rng)
        self.known = {}

    def task(self, n_in, n_out):
        t, m = super().task(n_in, n_out)
        self.known["t%d" % self.n] = m
        return t, m

    def block(self, *a, **kw):
        self.blocks = []
        t, m = super().block(*a, **kw)
        if not isinstance(t, MitTask):
            self.known[t._label.replace("<", "").replace(">", "").replace("::", "-")] = m
        return t, m


EDGE = re.compile(r'^\s*"?([^":]+)"?:"?out_(\d+)"? -> "?([^":]+)"?:"?in_(\d+)"?(?: \[.*)?$')
NODE = re.compile(r'^\s*"?([^"\s:\[]+)"? \[label=(.*)$', re.S)


def read_drawing(dot):
    """Nodes with the ports drawn on them, and edges, of a drawing."""
    nodes, edges = {}, []
    for l in dot.body:
        e = EDGE.match(l.rstrip("\n"))
        if e:
            edges.append((e[1], int(e[2]), e[3], int(e[4])))
            continue
        n = NODE.match(l)
        if n:
            if n[1] in ("graph", "node", "edge"):
                continue
            nodes.setdefault(n[1], []).append((sorted(int(p) for p in re.findall(r'PORT="in_(\d+)"', n[2])),
                                               sorted(int(p) for p in re.findall(r'PORT="out_(\d+)"', n[2]))))
    return nodes, edges


def run_drawing(edges, known, ins, n_out):
    """What the drawing computes, read as a dataflow; None where it is not one."""
    src = {}
    for a, i, b, j in edges:
        if (b, j) in src:
            return None
        src[b, j] = (a, i)
    done, log, busy = {"Inputs": list(ins)}, [], set()

    def outs(n):
        if n not in done:
            if n not in known or n in busy:
                raise KeyError(n)
            busy.add(n)
            done[n] = known[n].fn([port(n, j) for j in range(known[n].n_in)], log)
        return done[n]

    def port(n, j):
        a, i = src[n, j]
        return outs(a)[i]

    try:
        return [port("Outputs", j) for j in range(n_out)], log
    except (KeyError, IndexError):
        return None


@REG.facet(800, 12000, needs={"edges_drawn": 1000})
def drawings(rng, mon):
    """The drawing of a graph shows exactly its tasks and its wires, port for port; drawing changes nothing."""
    g = Labelled(rng)
    tg, m, hist = g.graph(depth=rng.choice([0, 1, 2]), steps=rng.randint(0, 8))
    flat = rng.random() < 0.3
    if flat:
        try:
            tg.decompose_TaskGraph_nodes()
        except Exception:  # nested graphs with wires straight through: refused (C02)
            mon.case(hist, False)
            return
    ran = rng.random() < 0.5
    ins = [h("in", k, rng.random()) for k in range(m.n_in)]
    if ran:
        compare(mon, tg, m, ins, "before drawing", hist)
    dot = tg.get_task_graph()
    nodes, edges = read_drawing(dot)
    if flat:  # tasks then carry the labels of the graphs they came from, before their own
        for n in nodes:
            own = re.search(r"t\d+$", n)
            if own and own[0] in g.known:
                g.known[n] = g.known[own[0]]
    mon.saw("edges_drawn", len(edges))
    mon.check(all(len(v) == 1 for v in nodes.values()), "a task is drawn twice", hist=hist)
    for n, [(pi, po)] in nodes.items():
        want = (0, m.n_in) if n == "Inputs" else (m.n_out, 0) if n == "Outputs" else \
            (g.known[n].n_in, g.known[n].n_out) if n in g.known else None
        mon.check(want is not None, "the drawing shows a task that is not there", hist=hist, node=n)
        mon.check((pi, po) == (list(range(want[0])), list(range(want[1]))), "a task is drawn with other ports than it has",
                  hist=hist, node=n, got=(pi, po), want=want)
    mon.check(set(x for e in edges for x in (e[0], e[2])) <= set(nodes), "a drawn wire ends at a task that is not drawn", hist=hist)
    mon.check(len(set(edges)) == len(edges) == m.n_in + sum(g.known[n].n_out for n in nodes if n in g.known),
              "the drawing does not show each wire once", hist=hist, got=len(edges))
    got = run_drawing(edges, g.known, ins, m.n_out)
    want, wlog = m.run(ins)
    mon.check(got is not None and got[0] == want and sorted(got[1]) == sorted(wlog),
              "the drawing, read as a dataflow, computes something else than the graph", hist=hist, got=got, want=want)
    if rng.random() < 0.3:
        mon.check(sorted(tg.get_task_graph().body) == sorted(dot.body), "the same graph is drawn differently the second time", hist=hist)
    compare(mon, tg, m, ins, "after drawing", hist)
    mon.case((hist, flat, ran), len(hist) > 1, hist)
