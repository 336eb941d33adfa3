"""C25: mitigation methods compose: transparent without noise, and the parts supplied are the ones used."""
import numpy as np
from pytket.architecture import Architecture
from pytket.circuit import Node, OpType
from pytket.passes import NaivePlacementPass

from harness import gens
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import Exp, check_result
from harness.props.c13 import native
from harness.props.c21 import SimBackend
from qermit import MitEx, MitRes
from qermit.clifford_noise_characterisation import gen_CDR_MitEx, gen_DFSC_MitEx
from qermit.clifford_noise_characterisation.cdr_post import _BaseExCorrectModel
from qermit.coherent_pauli_checks import DeterministicXPauliSampler, DeterministicZPauliSampler, gen_coherent_pauli_check_mitres
from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
from qermit.taskgraph import gen_compiled_MitRes, gen_compiled_shot_split_MitRes, gen_MeasurementReduction_MitEx, gen_shot_split_MitRes
from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx

REG = Registry("C25", "A case draws a tree of mitigation methods, each built around others down to plain objects on a backend of their own, and "
               "runs a batch of experiments through it on exact backends, noiseless or with readout noise that a SPAM correction in the tree "
               "removes, comparing every string with its true expectation and checking which backends jobs reached. Distinct by tree and batch.",
               assumptions=["methods are nested where the circuits they get are ones they are made for: depolarisation-factor correction gets circuits "
                            "which are Clifford but for symbols; spectral filtering is evaluated at grid points with a filter which keeps everything; "
                            "learnt quasi-probabilities are not part of trees (their fit is not unique without noise)",
                            "one device per tree: within a run, SPAM corrections share their characterisation",
                            "circuits for which tket's frame randomisation itself aborts are left out"])
SHOTS = 10 ** 7
GRID = 4
ARCH = Architecture([(Node("node", i), Node("node", j)) for i in range(7) for j in range(i)])


class Line(_BaseExCorrectModel):
    """A user's model: a line, or no correction at all where the data does not determine one."""

    def __init__(self):
        self.p = (1.0, 0.0)

    def calibrate(self, noisy_exp, exact_exp):
        self.p = (1.0, 0.0)
        if max(noisy_exp) - min(noisy_exp) > 0.05:
            self.p = tuple(np.polyfit(noisy_exp, exact_exp, 1))

    def correct(self, noisy_expectation):
        return self.p[0] * noisy_expectation + self.p[1]


class Small(ExactBackend):
    def dist(self, circ):
        if circ.n_qubits > 10 or len(self.jobs) > 600:
            raise SkipCase()  # too large to simulate here
        return super().dist(circ)


def device(rng, n=7, noise=None, limit=0):
    be = Small(n_qubits=n, seed=rng.randrange(1000), noise=noise, shots_limit=limit)
    be.compile_pass = NaivePlacementPass(ARCH)
    return be


class Tree:
    model = Line

    def __init__(self, rng, leaf_kw=None, spam=False):
        self.rng, self.names, self.leaves, self.others = rng, [], [], []
        self.leaf_kw = leaf_kw or {}
        self.noisy, self.random_gates = spam, False
        self.split = rng.random() < 0.25
        self.shots = 30000 if self.split else SHOTS

    def outer(self, sim_=False):
        be = (SimBackend if sim_ else ExactBackend)(n_qubits=7, shots_limit=0)
        be.compile_pass = NaivePlacementPass(ARCH)
        self.others.append(be)
        return be

    def leaf(self):
        be = device(self.rng, limit=40000 if self.split else 0, **self.leaf_kw)
        be.path = " ".join(self.names)
        self.leaves.append(be)
        return be

    # ---- result objects
    def mitres(self, depth):
        rng = self.rng
        if depth <= 0:
            k = rng.choice(["plain", "compiled"] + ([] if self.noisy or "spectral" in self.names or "zne" in self.names else ["checks"]) + (["split", "compiled_split"] if self.split else []))
            be = self.leaf()
            self.names.append(k)
            if k == "plain":
                return MitRes(be, _label="leaf")
            if k == "compiled":
                return gen_compiled_MitRes(be, rng.choice([0, 1, 2]))
            if k == "split":
                return gen_shot_split_MitRes(be, self.shots // rng.choice([1, 2, 3]) + rng.choice([0, 1]))
            if k == "compiled_split":
                return gen_compiled_shot_split_MitRes(be, self.shots // rng.choice([1, 2, 3]) + rng.choice([0, 1]))
            return gen_coherent_pauli_check_mitres(be, rng.choice([DeterministicXPauliSampler, DeterministicZPauliSampler])())
        k = rng.choice(["frames", "uframes"] + ([] if self.noisy else ["spam", "spamfull", "leakage"]))
        if k == "leakage" and "leakage" in self.names[self.mark:]:
            k = "frames"  # its gadget's register can only be added once
        self.names.append(k)
        if k in ("frames", "uframes"):
            self.random_gates = True
            return gen_Frame_Randomisation_MitRes(self.outer(), rng.randint(1, 2), mitres=self.mitres(depth - 1),
                                                  frame_randomisation=FrameRandomisation.PauliFrameRandomisation if k == "frames"
                                                  else FrameRandomisation.UniversalFrameRandomisation)
        if k == "leakage":
            return get_leakage_detection_mitres(self.outer(), mitres=self.mitres(depth - 1))
        return self.spam(k, depth)

    def spam(self, k, depth):
        rng = self.rng
        be = self.outer()
        kw = dict(calibration_mitres=self.plain(), correction_mitres=self.mitres(depth - 1), optimisation_level=0,
                  correction_method=CorrectionMethod.Invert)  # Bayesian correction is regularised, so only approximate
        if k == "spam":
            return gen_UnCorrelated_SPAM_MitRes(be, 10 ** 7, **kw)
        nodes = sorted(be.backend_info.architecture.nodes)
        rng.shuffle(nodes)
        parts = []
        while nodes:
            n = rng.randint(1, 2)
            parts.append(nodes[:n])
            nodes = nodes[n:]
        return gen_FullyCorrelated_SPAM_MitRes(be, 10 ** 7, parts, **kw)

    def plain(self):
        # later SPAM corrections in a run reuse the characterisation of earlier ones
        be = device(self.rng, **self.leaf_kw)
        return MitRes(be, _label="plain")

    # ---- expectation objects
    def mitex(self, depth, ctx):
        """ctx: what the circuits are like: 'symbolic' (Clifford but for symbols), 'fixed' (no symbols)."""
        rng = self.rng
        if depth <= 0:
            self.mark = len(self.names)
            self.names.append("expect")
            d = rng.choice([0, 0, 1, 1, 2])
            if self.noisy:
                k = rng.choice(["spam", "spamfull"])
                self.names.append(k)
                mr = self.spam(k, rng.choice([1, 1, 2]))
                if rng.random() < 0.3:
                    self.names.append("frames")
                    self.random_gates = True
                    mr = gen_Frame_Randomisation_MitRes(self.outer(), rng.randint(1, 2), mitres=mr)
            else:
                mr = self.mitres(d)
            return MitEx(self.outer(), _label="Ex", mitres=mr)
        opts = ["zne", "reduction"]
        if ctx == "symbolic":
            opts += ["dfsc", "spectral", "cdr"]
        k = rng.choice(opts)
        self.names.append(k)
        if k == "reduction":
            return gen_MeasurementReduction_MitEx(self.outer(), mitex=self.mitex(depth - 1, ctx))
        if k == "zne":
            scal = rng.choice([[1, 3], [3, 1], [1, 3, 5]])
            fit = rng.choice([Fit.linear, Fit.polynomial, Fit.richardson])
            fold = rng.choice([Folding.circuit, Folding.gate, Folding.odd_gate])
            self.random_gates |= fold is not Folding.circuit
            return gen_ZNE_MitEx(self.outer(), scal, experiment_mitex=self.mitex(depth - 1, ctx), fit_type=fit, deg=1, folding_type=fold)
        if k == "dfsc":
            return gen_DFSC_MitEx(self.outer(), experiment_mitex=self.mitex(depth - 1, ctx), characterisation_mitex=self.mitex(min(1, depth - 1), "clifford"))
        if k == "spectral":
            return gen_spectral_filtering_MitEx(self.outer(), GRID, experiment_mitex=self.mitex(depth - 1, ctx),
                                                signal_filter=SmallCoefficientSignalFilter(0.0))
        return gen_CDR_MitEx(self.outer(), self.outer(True), 1, 1, 3, model=self.model(), experiment_mitex=self.mitex(depth - 1, ctx),
                             states_device_mitex=self.mitex(0, "fixed"), states_simulator_mitex=self.mitex(0, "fixed"))


def experiment(rng, shots):
    while True:
        qs = gens.new_qubits(rng, rng.randint(1, 3))
        if all(q.reg_name != "node" for q in qs):
            break
    c = gens.blank(qs)
    syms = gens.symbols(rng, rng.randint(1, 2))
    for q in qs:
        c.H(q)
    todo = [("s", s) for s in syms] + [(rng.choice("2211"), None)] * rng.randint(1, 4) + [("s", rng.choice(syms))]
    rng.shuffle(todo)
    for k, s in todo:
        if k == "s":
            c.add_gate(rng.choice([OpType.Rx, OpType.Ry, OpType.Rz]), s, [rng.choice(qs)])
        elif k == "2" and len(qs) > 1:
            c.add_gate(rng.choice([OpType.CX, OpType.CZ, OpType.CX]), rng.sample(qs, 2))
        else:
            c.add_gate(rng.choice(gens.CLIFF1), [rng.choice(qs)])
    e = Exp(rng, circ=c, n_strings=rng.randint(1, 3), shots=shots)
    e.syms = syms
    e.vals = {s: rng.choice([0.5, 1.5, 1.0, 0.0]) for s in syms}
    return e


def run(rng, mon, tree, depth, tol):
    ex = tree.mitex(depth, "symbolic")
    name = " ".join(tree.names)
    if tree.split:
        tol *= 5
    grid = "spectral" in tree.names
    exps = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        e = experiment(rng, tree.shots)
        if not grid:
            e.vals = {s: round(rng.uniform(0, 2), 3) for s in e.syms}
        exps.append(e)
    for r in range(rng.choice([1, 1, 1, 2])):
        objs = [e.experiment() for e in exps]
        with native(mon):
            out = ex.run(objs)
        mon.check(len(out) == len(exps), "number of results", tree=name)
        for e, o in zip(exps, out):
            check_result(mon, e, o, "in a composition", tol=tol, tree=name)
            mon.saw("results")
    for be in tree.others:
        mon.check(not be.jobs, "circuits were run by the default backend although other objects were supplied", tree=name)
    if exps:
        for be in tree.leaves:
            mon.check(bool(be.jobs), "an object supplied was not used", path=be.path, tree=name, exps=[e.describe() for e in exps])
            mon.saw("parts_used")
        for n in set(tree.names):
            mon.saw("method_" + n)
    mon.case((name, [e.describe() for e in exps]), bool(exps), name)


NEEDS = {"results": 70, "parts_used": 70, "method_cdr": 5, "method_dfsc": 8, "method_zne": 8, "method_spectral": 8, "method_reduction": 6, "method_frames": 6,
         "method_uframes": 6, "method_leakage": 6, "method_spam": 6, "method_spamfull": 6, "method_checks": 4}


@REG.facet(130, 1500, needs=NEEDS, isolate=True)
def noiseless(rng, mon):
    run(rng, mon, Tree(rng), rng.choice([0, 1, 1, 2, 2]), 1e-3)


def readout(rng):
    e = {}

    def noise(c, d):
        ms = {}
        for cmd in c.get_commands():
            if cmd.op.type == OpType.Measure:
                ms[list(c.bits).index(cmd.bits[0])] = cmd.qubits[0]
        for i, q in ms.items():
            p0, p1 = e.setdefault(str(q), (rng.uniform(0, 0.15), rng.uniform(0, 0.15)))
            new = {}
            for k, v in d.items():
                f = p1 if k[i] else p0
                k2 = k[:i] + (1 - k[i],) + k[i + 1:]
                new[k] = new.get(k, 0) + (1 - f) * v
                new[k2] = new.get(k2, 0) + f * v
            d = new
        return d

    return noise


@REG.facet(80, 800, needs={"results": 40, "parts_used": 40}, isolate=True)
def readout_noise(rng, mon):
    """Every expectation object at the bottom of the tree runs through a SPAM correction."""
    run(rng, mon, Tree(rng, dict(noise=readout(rng)), spam=True), rng.choice([0, 1, 1, 2]), 3e-3)
