"""Independent exact simulator and dense-matrix references (numpy only).

Conventions: circ.qubits sorted order, first qubit most significant (pytket ILO-BE).
"""
import itertools
import math
from functools import lru_cache

import numpy as np
from pytket.circuit import Circuit, OpType

_UNITARY_CACHE = {}


def op_unitary(op):
    key = (op.type, tuple(str(x) for x in op.params)) if not _is_box(op) else None
    if key is not None and key in _UNITARY_CACHE:
        return _UNITARY_CACHE[key]
    u = np.asarray(op.get_unitary())
    if key is not None:
        if len(_UNITARY_CACHE) > 20000:
            _UNITARY_CACHE.clear()
        _UNITARY_CACHE[key] = u
    return u


def _is_box(op):
    return "Box" in op.type.name or op.type in (OpType.Conditional,)


def apply_u(states, u, qs, n):
    """states: (B, 2**n); apply u on qubit indices qs."""
    k = len(qs)
    B = states.shape[0]
    t = states.reshape((B,) + (2,) * n)
    u = u.reshape((2,) * (2 * k))
    t = np.tensordot(u, t, axes=(list(range(k, 2 * k)), [q + 1 for q in qs]))
    # axes now: k outputs, then B, then remaining
    rest = [i for i in range(n) if i not in qs]
    order = [0] * (n + 1)
    order[0] = k
    for j, q in enumerate(qs):
        order[q + 1] = j
    for j, q in enumerate(rest):
        order[q + 1] = k + 1 + j
    return np.ascontiguousarray(t.transpose(order)).reshape(B, 2**n)


class Unsupported(Exception):
    pass


class _Sim:
    def __init__(self, n, nb):
        self.n = n
        self.states = np.zeros((1, 2**n), dtype=complex)
        self.states[0, 0] = 1
        self.bits = np.zeros((1, nb), dtype=np.int8)

    def prune(self):
        p = np.einsum("ij,ij->i", self.states, self.states.conj()).real
        keep = p > 1e-14
        if not keep.all():
            self.states, self.bits = self.states[keep], self.bits[keep]

    def project(self, sel, q):
        """Split selected branches by qubit q; returns (idx0, idx1) after split."""
        n = self.n
        t = self.states.reshape((-1, 2**q, 2, 2 ** (n - q - 1)))
        a, b = t.copy(), t.copy()
        a[:, :, 1, :] = 0
        b[:, :, 0, :] = 0
        nsel = ~sel
        s0 = np.concatenate([t[nsel], a[sel], b[sel]]).reshape(-1, 2**n)
        bits = np.concatenate([self.bits[nsel], self.bits[sel], self.bits[sel]])
        m0 = int(nsel.sum())
        m = int(sel.sum())
        self.states, self.bits = s0, bits
        i0 = np.zeros(len(s0), bool)
        i0[m0:m0 + m] = True
        i1 = np.zeros(len(s0), bool)
        i1[m0 + m:] = True
        return i0, i1

    def run(self, commands, qidx, bidx, sel=None):
        for op, args in commands:
            self.step(op, args, qidx, bidx)

    def step(self, op, args, qidx, bidx, cond=None):
        """cond: function(bits)->bool mask, re-evaluated after splits."""
        ty = op.type
        sel = np.ones(len(self.states), bool) if cond is None else cond(self.bits)
        if ty == OpType.Barrier or ty == OpType.noop:
            return
        if ty == OpType.Phase:
            self.states[sel] *= np.exp(1j * math.pi * float(op.params[0]))
            return
        if ty == OpType.Conditional:
            w, val = op.width, op.value
            cbits = [bidx[a] for a in args[:w]]

            def c2(bits, cbits=cbits, val=val, cond=cond):
                v = sum(bits[:, b].astype(int) << i for i, b in enumerate(cbits))
                m = v == val if cbits else np.ones(len(bits), bool)
                return m if cond is None else (m & cond(bits))

            inner = op.op
            # freeze mask: bits may be written by the inner op itself
            mask = c2(self.bits)
            self._masked(inner, args[w:], qidx, bidx, mask)
            return
        self._masked(op, args, qidx, bidx, sel)

    def _masked(self, op, args, qidx, bidx, sel):
        ty = op.type
        if not sel.any() and ty not in ():
            return
        if ty == OpType.Conditional:
            w, val = op.width, op.value
            v = sum(self.bits[:, bidx[a]].astype(int) << i for i, a in enumerate(args[:w]))
            m = (v == val) if w else np.ones(len(self.bits), bool)
            return self._masked(op.op, args[w:], qidx, bidx, sel & m)
        if ty in (OpType.Barrier, OpType.noop):
            return
        if ty == OpType.Phase:
            self.states[sel] *= np.exp(1j * math.pi * float(op.params[0]))
            return
        if ty == OpType.Measure:
            q, b = qidx[args[0]], bidx[args[1]]
            i0, i1 = self.project(sel, q)
            self.bits[i0, b] = 0
            self.bits[i1, b] = 1
            self.prune()
            return
        if ty == OpType.Reset:
            q = qidx[args[0]]
            i0, i1 = self.project(sel, q)
            x = np.array([[0, 1], [1, 0]], complex)
            if i1.any():
                self.states[i1] = apply_u(self.states[i1], x, [q], self.n)
            self.prune()
            return
        if ty == OpType.SetBits:
            for a, v in zip(args, op.values):
                self.bits[sel, bidx[a]] = int(v)
            return
        if ty == OpType.CopyBits:
            k = len(args) // 2
            vals = [self.bits[:, bidx[a]].copy() for a in args[:k]]
            for a, v in zip(args[k:], vals):
                self.bits[sel, bidx[a]] = v[sel]
            return
        if ty in (OpType.CircBox, OpType.CustomGate):
            inner = op.get_circuit()
            self._inner(inner, args, qidx, bidx, sel)
            return
        try:
            u = op_unitary(op)
        except Exception as e:
            raise Unsupported("%s: %s" % (ty, e))
        qs = [qidx[a] for a in args if a in qidx]
        if sel.all():
            self.states = apply_u(self.states, u, qs, self.n)
        else:
            self.states[sel] = apply_u(self.states[sel], u, qs, self.n)

    def _inner(self, inner, args, qidx, bidx, sel):
        # box signature: qubits first then bits, in the inner circuit's sorted order
        units = list(inner.qubits) + list(inner.bits)
        amap = dict(zip(units, args))
        if not sel.all():
            # only unitary boxes under conditionals
            u = inner.get_unitary()
            qs = [qidx[amap[q]] for q in inner.qubits]
            self.states[sel] = apply_u(self.states[sel], u, qs, self.n)
            return
        self.states = self.states * np.exp(1j * math.pi * float(inner.phase))
        perm = inner.implicit_qubit_permutation()
        if any(k != v for k, v in perm.items()):
            inner = inner.copy()
            inner.replace_implicit_wire_swaps()
        for cmd in inner.get_commands():
            full = np.ones(len(self.states), bool)
            self._masked(cmd.op, [amap[a] for a in cmd.args], qidx, bidx, full)


def simulate(circ):
    """Exact outcome distribution {bit tuple (circ.bits order): prob}."""
    c = circ
    perm = c.implicit_qubit_permutation()
    if any(k != v for k, v in perm.items()):
        c = c.copy()
        c.replace_implicit_wire_swaps()
    qs, bs = list(c.qubits), list(c.bits)
    qidx = {q: i for i, q in enumerate(qs)}
    bidx = {b: i for i, b in enumerate(bs)}
    n = len(qs)
    sim = _Sim(n, len(bs))
    cmds = [(cmd.op, cmd.args) for cmd in c.get_commands()]
    # trailing measurements handled in one go
    tail = []
    used_q, used_b = set(), set()
    i = len(cmds)
    body = []
    for op, args in reversed(cmds):
        if (op.type == OpType.Measure and args[0] not in used_q and args[1] not in used_b):
            tail.append((args[0], args[1]))
            used_b.add(args[1])
            used_q.add(args[0])
        else:
            for a in args:
                (used_q if a in qidx else used_b).add(a)
            body.append((op, args))
    for op, args in reversed(body):
        sim._masked(op, args, qidx, bidx, np.ones(len(sim.states), bool))
    out = {}
    probs = (sim.states * sim.states.conj()).real
    mq = [qidx[q] for q, _ in tail]
    mb = [bidx[b] for _, b in tail]
    for k in range(len(probs)):
        t = probs[k].reshape((2,) * n)
        if mq:
            other = tuple(x for x in range(n) if x not in mq)
            t = t.sum(axis=other) if other else t
            order = sorted(mq)
            base = list(int(x) for x in sim.bits[k])
            for idx in np.argwhere(t > 1e-13):
                b = list(base)
                pos = {q: v for q, v in zip(order, idx)}
                for q, bb in zip(mq, mb):
                    b[bb] = int(pos[q])
                key = tuple(b)
                out[key] = out.get(key, 0.0) + float(t[tuple(idx)])
        else:
            key = tuple(int(x) for x in sim.bits[k])
            out[key] = out.get(key, 0.0) + float(t.sum())
    return out


def statevector(circ):
    """State of a purely unitary circuit over circ.qubits order (phase included)."""
    return unitary(circ)[:, 0]


def unitary(circ):
    """Dense unitary (phase included), ignoring measurements' absence; raises if not unitary."""
    c = circ
    perm = c.implicit_qubit_permutation()
    if any(k != v for k, v in perm.items()):
        c = c.copy()
        c.replace_implicit_wire_swaps()
    qs = list(c.qubits)
    qidx = {q: i for i, q in enumerate(qs)}
    n = len(qs)
    m = np.eye(2**n, dtype=complex)  # rows: branches = input basis states
    for cmd in c.get_commands():
        op = cmd.op
        if op.type in (OpType.Barrier, OpType.noop):
            continue
        if op.type == OpType.Phase:
            m = m * np.exp(1j * math.pi * float(op.params[0]))
            continue
        if op.type in (OpType.CircBox, OpType.CustomGate):
            u = unitary(op.get_circuit())
        else:
            u = op_unitary(op)
        m = apply_u(m, u, [qidx[a] for a in cmd.args if a in qidx], n)
    return m.T * np.exp(1j * math.pi * float(c.phase))


PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], complex),
    "Y": np.array([[0, -1j], [1j, 0]], complex),
    "Z": np.array([[1, 0], [0, -1]], complex),
}


def pauli_matrix(qps, qubits):
    """QubitPauliString -> dense matrix over the ordered qubits."""
    m = np.array([[1]], complex)
    d = qps.map
    for q in qubits:
        name = d[q].name if q in d else "I"
        m = np.kron(m, PAULI[name])
    return m


def expectation(circ, qps):
    v = statevector(circ)
    return float((v.conj() @ (pauli_matrix(qps, circ.qubits) @ v)).real)


def marginal(dist, idx):
    out = {}
    for k, p in dist.items():
        kk = tuple(k[i] for i in idx)
        out[kk] = out.get(kk, 0.0) + p
    return out


def dist_close(a, b, tol=1e-7):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def same_up_to_phase(u, v, tol=1e-7):
    if u.shape != v.shape:
        return False
    d = u.shape[0]
    return abs(abs(np.trace(u.conj().T @ v)) - d) < tol * d * 10


def counts_to_dist(counts):
    t = sum(counts.values())
    return {tuple(k): v / t for k, v in counts.items()}


def exact_counts(dist, n):
    """Deterministic integer counts summing to n (largest remainder)."""
    items = sorted(dist.items())
    tot = sum(p for _, p in items)
    fl = [(k, p / tot * n) for k, p in items]
    base = {k: int(math.floor(x + 1e-9)) for k, x in fl}
    rem = n - sum(base.values())
    fr = sorted(fl, key=lambda kx: (-(kx[1] - math.floor(kx[1] + 1e-9)), kx[0]))
    i = 0
    while rem > 0:
        base[fr[i % len(fr)][0]] += 1
        rem -= 1
        i += 1
    return {k: v for k, v in base.items() if v}
