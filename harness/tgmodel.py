"""Composition histories for task graphs, with a direct functional reference."""
import hashlib
import random

from qermit import MitTask, TaskGraph

LOG = []   # (label, inputs) of every task invocation of the SUT, in order


def h(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:12]


class Fault(Exception):
    """What a task or a device fails with when told to."""


HOOKS = []  # called in every task
PLAN = {"left": None}  # calls left until one fails


def maybe_fail():
    if PLAN["left"] is not None:
        PLAN["left"] -= 1
        if PLAN["left"] < 0:
            PLAN["left"] = None
            raise Fault("as told")


class Model:
    """A function from in-wires to out-wires, plus the invocations it makes."""

    def __init__(self, n_in, n_out, fn, tasks):
        self.n_in, self.n_out, self.fn, self.tasks = n_in, n_out, fn, tasks

    def run(self, ins):
        log = []
        outs = self.fn(list(ins), log)
        assert len(outs) == self.n_out
        return outs, log


def identity(n=1):
    return Model(n, n, lambda ins, log: list(ins), [])


def m_task(label, n_in, n_out):
    def fn(ins, log):
        log.append((label, tuple(ins)))
        return [h(label, k, tuple(ins)) for k in range(n_out)]

    return Model(n_in, n_out, fn, [label])


def compose(first, then):
    assert first.n_out == then.n_in
    return Model(first.n_in, then.n_out,
                 lambda ins, log: then.fn(first.fn(ins, log), log), first.tasks + then.tasks)


def beside(a, b):
    def fn(ins, log):
        return list(a.fn(ins[: a.n_in], log)) + list(b.fn(ins[a.n_in:], log))

    return Model(a.n_in + b.n_in, a.n_out + b.n_out, fn, a.tasks + b.tasks)


def sut_task(label, n_in, n_out):
    def method(obj, *args):
        for f in HOOKS:
            f()
        maybe_fail()
        LOG.append((label, tuple(args)))
        assert len(args) == n_in
        for f in HOOKS:
            f()
        return tuple(h(label, k, tuple(args)) for k in range(n_out))

    return MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=method)


class Gen:
    def __init__(self, rng, max_arity=4, allow_nested=True, unique=True, allow_pass_nested=True):
        self.rng = rng
        self.n = 0
        self.max_arity = max_arity
        self.allow_nested = allow_nested
        self.allow_pass_nested = allow_pass_nested
        self.blocks = []   # reusable (sut, model)

    def label(self):
        self.n += 1
        return "t%d" % self.n

    def task(self, n_in, n_out):
        l = self.label()
        return sut_task(l, n_in, n_out), m_task(l, n_in, n_out)

    def block(self, n_in=None, n_out=None, depth=1, kind=None):
        """A MitTask or nested TaskGraph with the given arity."""
        r = self.rng
        n_in = n_in or r.randint(1, self.max_arity)
        n_out = n_out or r.randint(1, self.max_arity)
        cands = [b for b in self.blocks if b[1].n_in == n_in and b[1].n_out == n_out]
        if cands and r.random() < 0.3:
            return r.choice(cands)
        if kind == "graph" or (depth > 0 and self.allow_nested and r.random() < 0.35):
            g, m, _ = self.graph(n_in=n_in, n_out=n_out, depth=depth - 1, steps=r.randint(0, 3))
            b = (g, m)
        else:
            b = self.task(n_in, n_out)
        self.blocks.append(b)
        return b

    def graph(self, n_in=None, n_out=None, depth=1, steps=4):
        """Random history; ends adapted to the requested arity."""
        r = self.rng
        hist = []
        g = TaskGraph("G" + self.label())
        m = identity(1)
        for _ in range(steps):
            m = self.step(g, m, depth, hist)
        if n_in is not None and m.n_in != n_in or (not self.allow_pass_nested):
            t, tm = self.task(n_in or m.n_in, m.n_in)
            g.prepend(t)
            m = compose(tm, m)
            hist.append(("prepend", tm.n_in, tm.n_out))
        if n_out is not None and m.n_out != n_out:
            t, tm = self.task(m.n_out, n_out)
            g.append(t)
            m = compose(m, tm)
            hist.append(("append", tm.n_in, tm.n_out))
        return g, m, hist

    def step(self, g, m, depth, hist):
        r = self.rng
        k = r.choice(["append", "append", "prepend", "prepend", "parallel", "wire", "wires"])
        if m.n_in > 9 or m.n_out > 9:
            k = r.choice(["append", "prepend"])
        if k == "append":
            t, tm = self.block(m.n_out, None, depth)
            g.append(t)
            m = compose(m, tm)
        elif k == "prepend":
            t, tm = self.block(None, m.n_in, depth)
            g.prepend(t)
            m = compose(tm, m)
        elif k == "parallel":
            t, tm = self.block(None, None, depth)
            g.parallel(t)
            m = beside(m, tm)
        elif k == "wire":
            g.add_wire()
            m = beside(m, identity(1))
        else:
            n = r.randint(0, 3)
            g.add_n_wires(n)
            m = beside(m, identity(n))
        hist.append((k, m.n_in, m.n_out))
        return m


def sut_run(g, ins, **kw):
    LOG.clear()
    out = g.run(list(ins), **kw)
    return list(out), list(LOG)


def compare(mon, g, m, ins, what, hist=None, **kw):
    want, wlog = m.run(ins)
    got, glog = sut_run(g, ins, **kw)
    mon.saw("task_invocations", len(glog))
    mon.check(got == want, what + ": outputs differ from direct evaluation", hist=hist,
              got=got, want=want)
    mon.check(sorted(glog) == sorted(wlog), what + ": tasks run are not exactly those composed",
              hist=hist, got=sorted(l for l, _ in glog), want=sorted(l for l, _ in wlog))
    return got, glog
