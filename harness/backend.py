"""A deterministic pytket Backend with exact statistics: the observation boundary.

Every job is logged (a copy of the circuit, the shots, the batch it came in).
"""
import itertools
import random
import uuid
from collections import Counter

import numpy as np
from pytket.architecture import FullyConnected
from pytket.backends import Backend, CircuitStatus, ResultHandle, StatusEnum
from pytket.backends.backendinfo import BackendInfo
from pytket.backends.backendresult import BackendResult
from pytket.circuit import OpType
from pytket.passes import CustomPass, DecomposeBoxes, SequencePass
from pytket.utils.outcomearray import OutcomeArray

from . import sim


def make_result(counts, bits, shots=False, order_seed=None):
    """counts: {bit tuple: n} in order of `bits`."""
    counts = {k: v for k, v in counts.items() if v}
    if shots:
        rows = [k for k in sorted(counts) for _ in range(counts[k])]
        if order_seed is not None:
            random.Random(order_seed).shuffle(rows)
        if not rows:
            arr = np.zeros((0, len(bits)), dtype=np.uint8)
            return BackendResult(shots=OutcomeArray.from_readouts(arr), c_bits=list(bits))
        return BackendResult(shots=OutcomeArray.from_readouts(rows), c_bits=list(bits))
    return BackendResult(
        counts=Counter({OutcomeArray.from_readouts([k]): v for k, v in counts.items()}),
        c_bits=list(bits))


class Refused(Exception):
    """What any real device would refuse to run: when it comes from the code under test, a violation."""


class ExactBackend(Backend):
    _supports_shots = True
    _supports_counts = True
    _persistent_handles = False

    def __init__(self, noise=None, mode="exact", seed=0, compile_pass=None, n_qubits=12,
                 results=None, misc=None, shots_limit=20000, info=True):
        """noise(circ, dist)->dist modifies the exact distribution.
        results(circ, n_shots, index)->counts overrides simulation."""
        super().__init__()
        self.noise, self.mode, self.rng = noise, mode, random.Random(seed)
        self.jobs = []      # (circuit copy, shots, batch number)
        self.batches = 0
        self._res = {}
        self.compile_pass = compile_pass
        self.compiled = []
        self.results_fn = results
        self.order_seed = seed
        self.shots_limit = shots_limit
        self._info = BackendInfo(
            name="ExactBackend", device_name="exact", version="0",
            architecture=FullyConnected(n_qubits, "node"),
            gate_set={OpType.CX, OpType.TK1, OpType.Measure},
            misc=dict(misc or {}))
        self._cache = {}

    @property
    def required_predicates(self):
        return []

    def rebase_pass(self):
        return CustomPass(lambda c: c)

    def default_compilation_pass(self, optimisation_level=1):
        if self.compile_pass is not None:
            return self.compile_pass
        return CustomPass(lambda c: c)

    @property
    def _result_id_type(self):
        return (str,)

    @property
    def backend_info(self):
        return self._info

    def dist(self, circ):
        try:
            key = repr(circ.to_dict()) if circ.n_gates < 400 else None
        except Exception:
            key = None
        if key is not None and key in self._cache:
            return self._cache[key]
        d = sim.simulate(circ)
        if key is not None:
            if len(self._cache) > 3000:
                self._cache.clear()
            self._cache[key] = d
        return d

    def process_circuits(self, circuits, n_shots=None, valid_check=True, **kw):
        circuits = list(circuits)
        if n_shots is None or isinstance(n_shots, int):
            ns = [n_shots] * len(circuits)
        else:
            ns = [int(x) if x is not None else x for x in n_shots]
        assert len(ns) == len(circuits)
        hs = []
        for c, n in zip(circuits, ns):
            if c.is_symbolic():
                raise Refused("circuit with free symbols %s" % sorted(map(str, c.free_symbols())))
            h = ResultHandle(str(uuid.UUID(int=self.rng.getrandbits(128))))
            idx = len(self.jobs)
            self.jobs.append((c.copy(), n, self.batches))
            if self.results_fn is not None:
                counts = self.results_fn(c, n, idx)
            else:
                d = self.dist(c)
                if self.noise is not None:
                    d = self.noise(c, d)
                if self.mode == "exact":
                    counts = sim.exact_counts(d, n)
                else:
                    ks = sorted(d)
                    pr = np.array([max(0.0, d[k]) for k in ks])
                    rs = np.random.RandomState(self.rng.getrandbits(32))
                    dr = rs.multinomial(n, pr / pr.sum())
                    counts = {k: int(v) for k, v in zip(ks, dr) if v}
            res = make_result(counts, c.bits, shots=n is not None and n <= self.shots_limit,
                              order_seed=self.order_seed + idx)
            self._res[h] = res
            self._cache_put(h, res)
            hs.append(h)
        self.batches += 1
        return hs

    def _cache_put(self, h, res):
        self._cache_results = getattr(self, "_cache_results", {})

    def process_circuit(self, circuit, n_shots=None, valid_check=True, **kw):
        return self.process_circuits([circuit], n_shots)[0]

    def circuit_status(self, handle):
        return CircuitStatus(StatusEnum.COMPLETED)

    def get_result(self, handle, **kw):
        return self._res[handle]

    def get_results(self, handles, **kw):
        return [self.get_result(h) for h in handles]
