"""Runner for the runtime monitors.

A property module registers *facets*: workloads that drive the real qermit code
and report what the monitors saw.  The runner executes numbered, seeded cases of
each facet in several worker processes, turns the first unlisted violation into a
replay file and a VIOLATION line, and writes the evidence file from what the
monitors counted on this run.

Outcomes: exit 0 held on everything observed, 1 violated, 2 inconclusive / error
(harness error, or a deciding monitor that observed too little).
"""
import hashlib
import importlib
import json
import os
import random
import re
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))


class Violation(Exception):
    def __init__(self, msg, key=None, **witness):
        super().__init__(msg)
        self.msg, self.key, self.witness = msg, key, witness


class SkipCase(Exception):
    """The generated case is outside the property's domain (counted)."""


def _short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...<%d more>" % (len(s) - n)


class Facet:
    def __init__(self, name, fn, quick, thorough, min_events, needs, isolate=False):
        self.name, self.fn = name, fn
        self.isolate = isolate
        self.quick, self.thorough = quick, thorough
        self.min_events = min_events
        self.needs = needs


class Registry:
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.facets = []

    def facet(self, quick, thorough, needs=None, isolate=False):
        """needs: {event name: minimum count (per run)} else inconclusive.
        isolate: run each case in a forked child, as native libraries may abort the process."""

        def deco(fn):
            self.facets.append(Facet(fn.__name__, fn, quick, thorough, 1, needs or {}, isolate))
            return fn

        return deco


class Monitor:
    """What the oracles observed, in one worker."""

    def __init__(self):
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.skips = 0
        self.trace = []

    def saw(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def case(self, sig, nontrivial=True, sample=None):
        """Register the signature of a case actually decided by an oracle."""
        if nontrivial:
            h = hashlib.sha1(repr(sig).encode()).hexdigest()[:16]
            self.sigs.add(h)
            if sample is not None and len(self.samples) < 3:
                self.samples.append(_short(sample, 700))
        else:
            self.saw("trivial")

    def check(self, cond, msg, key=None, **witness):
        self.saw("oracle_decisions")
        if not cond:
            raise Violation(msg, key=key, **witness)

    def rejects(self, exc, fn, msg, key=None, **witness):
        """fn() must raise one of exc (documented refusal)."""
        self.saw("oracle_decisions")
        try:
            r = fn()
        except exc:
            return
        raise Violation(msg + " (returned %s)" % _short(r, 200), key=key, **witness)


def case_rng(seed, prop, facet, idx):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, facet, idx)).encode()).digest()
    s = int.from_bytes(h[:8], "big")
    rng = random.Random(s)
    return rng, s


def seed_globals(s):
    import numpy as np

    random.seed(s)
    np.random.seed(s % (2**32))


def in_sut(tb):
    """Does the traceback pass through the code under test *below* the harness?"""
    frames = traceback.extract_tb(tb)
    last_h = -1
    for i, f in enumerate(frames):
        if os.path.abspath(f.filename).startswith(ROOT + os.sep):
            last_h = i
    below = frames[last_h + 1:]
    return any("/qermit/" in f.filename for f in below)


def unreadable(e):
    """An oracle that fails on what the code returned (a missing key or bit, no circuit, a malformed
    matrix, ...) has seen a malformed value: a violation.  A harness that no longer fits the
    interface of the code (names, signatures), or lacks resources, has decided nothing."""
    text = str(e)
    if isinstance(e, (ImportError, NameError, OSError, MemoryError, NotImplementedError)):
        return False
    if isinstance(e, AttributeError):
        return "module '" not in text and "type object '" not in text
    if isinstance(e, TypeError):
        return "argument" not in text
    return isinstance(e, (LookupError, ValueError, ArithmeticError, RuntimeError, AssertionError, StopIteration))


def run_isolated(reg, facet, seed, idx, mon):
    """run_case in a child: a native abort there (third-party code) skips the case and is counted."""
    import pickle

    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            m = Monitor()
            m.samples = [None] * len(mon.samples)
            err = v = None
            try:
                v = run_case(reg, facet, seed, idx, m)
            except BaseException:  # noqa: BLE001
                err = traceback.format_exc()
            data = pickle.dumps((v, err, m.events, m.sigs, [s for s in m.samples if s], m.skips))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        mon.saw("native_aborts")
        mon.skips += 1
        return None
    v, err, events, sigs, samples, skips = pickle.loads(data)
    if err:
        raise RuntimeError(err)
    for k, n in events.items():
        mon.saw(k, n)
    mon.sigs |= sigs
    mon.samples += samples
    mon.skips += skips
    return v


def run_case(reg, facet, seed, idx, mon):
    """Returns None or a violation dict."""
    rng, s = case_rng(seed, reg.prop, facet.name, idx)
    seed_globals(s)
    try:
        facet.fn(rng, mon)
        return None
    except SkipCase:
        mon.skips += 1
        return None
    except Violation as v:
        return {"msg": v.msg, "key": v.key,
                "witness": {k: _short(w) for k, w in v.witness.items()}}
    except Exception as e:  # noqa: BLE001
        tb = sys.exc_info()[2]
        if in_sut(tb) or (type(e).__name__ == "Refused" and any("/qermit/" in f.filename for f in traceback.extract_tb(tb))):
            frames = [f for f in traceback.extract_tb(tb) if "/qermit/" in f.filename]
            where = "%s:%s" % (frames[-1].filename.split("/qermit/", 1)[1], frames[-1].name)
            return {"msg": "valid use raised %s in %s: %s" % (type(e).__name__, where, _short(str(e), 300)),
                    "key": "raise:%s:%s" % (type(e).__name__, where),
                    "witness": {"traceback": _short(traceback.format_exc(), 3000)}}
        if unreadable(e):
            return {"msg": "the oracle could not read what was returned: %s: %s" % (type(e).__name__, _short(str(e), 300)),
                    "key": "unreadable:%s" % type(e).__name__,
                    "witness": {"traceback": _short(traceback.format_exc(), 3000)}}
        raise


def load_known(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def _worker(reg, plan, seed, w, nw, deadline, conn):
    """Runs every facet's cases idx with idx % nw == w, interleaving facets."""
    import gc

    warnings.simplefilter("ignore")  # again: numpy adds filters when imported
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # native libraries print here
    known = {k for k, _ in load_known(reg.prop)}
    mons = {f.name: Monitor() for f, _ in plan}
    done = {f.name: 0 for f, _ in plan}
    secs = {f.name: 0.0 for f, _ in plan}
    found, known_hit, err, stopped = [], {}, None, None
    try:
        pos = {f.name: w for f, _ in plan}
        live = True
        while live and not found and time.monotonic() < deadline:
            live = False
            for f, n in plan:
                # interleave facets in proportion to their case counts
                chunk = max(1, n // 40 // nw)
                for _ in range(chunk):
                    if pos[f.name] >= n or time.monotonic() > deadline:
                        break
                    t = time.monotonic()
                    v = (run_isolated if f.isolate else run_case)(reg, f, seed, pos[f.name], mons[f.name])
                    secs[f.name] += time.monotonic() - t
                    done[f.name] += 1
                    if v is not None:
                        v.update(facet=f.name, idx=pos[f.name], seed=seed)
                        if v["key"] in known:
                            known_hit[v["key"]] = known_hit.get(v["key"], 0) + 1
                        else:
                            found.append(v)
                            break
                    pos[f.name] += nw
                if found:
                    break
                if pos[f.name] < n:
                    live = True
            gc.collect() if os.environ.get("VERIF_GC") else None
    except BaseException:  # noqa: BLE001
        err = traceback.format_exc()
        stopped = dict(pos)
    conn.send({"mons": {k: (m.events, m.sigs, m.samples, m.skips) for k, m in mons.items()},
               "done": done, "secs": secs, "found": found, "known": known_hit,
               "err": err, "stopped": stopped})
    conn.close()


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    warnings.simplefilter("ignore")
    t0 = time.monotonic()
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = {"quick": 540, "thorough": 780}[tier]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import qermit

    where = os.path.abspath(qermit.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        print("error: qermit imported from %s, not %s" % (where, REPO))
        return 2
    reg = importlib.import_module("harness.props.%s" % a.prop.lower()).REG
    if a.replay:
        rp = json.load(open(a.replay))
        a.facet, a.case, a.seed = rp["facet"], rp["idx"], rp["seed"]
    facets = [f for f in reg.facets if not a.facet or f.name == a.facet]
    if a.case is not None:
        v = run_case(reg, facets[0], a.seed, a.case, Monitor())
        print(json.dumps(v, indent=1) if v else "held")
        return 1 if v else 0
    plan = [(f, max(1, int(getattr(f, tier) * a.scale))) for f in facets]

    import multiprocessing as mp

    ctx = mp.get_context("fork")
    deadline = t0 + budget
    nw = max(1, WORKERS)
    procs = []
    for w in range(nw):
        r, s = ctx.Pipe(duplex=False)
        pr = ctx.Process(target=_worker, args=(reg, plan, a.seed, w, nw, deadline, s))
        pr.start()
        s.close()
        procs.append((pr, r))
    res, errs = [], []
    for pr, r in procs:
        try:
            # generous watchdog: firing is inconclusive
            if r.poll(max(1.0, deadline + 90 - time.monotonic())):
                res.append(r.recv())
            else:
                errs.append("worker did not answer before the watchdog")
        except EOFError:
            errs.append("worker died")
        pr.join(timeout=5)
        if pr.is_alive():
            pr.kill()
    found, known_hit = [], {}
    cov = {}
    ev_total, sigs, samples, skips = 0, set(), [], 0
    per = {}
    for x in res:
        if x["err"]:
            errs.append(x["err"] + "\nat " + str(x["stopped"]))
        found += x["found"]
        for k, n in x["known"].items():
            known_hit[k] = known_hit.get(k, 0) + n
        for k, (e, sg, sm, sk) in x["mons"].items():
            d = per.setdefault(k, {"cases": 0, "skipped": 0, "distinct": set(), "events": {}, "cpu_s": 0.0})
            d["cases"] += x["done"][k]
            d["cpu_s"] += x["secs"][k]
            d["skipped"] += sk
            d["distinct"] |= {k + s for s in sg}
            for n, c in e.items():
                d["events"][n] = d["events"].get(n, 0) + c
            if len([s for s in samples if s.startswith(k + ":")]) < 1:
                samples += [k + ": " + s for s in sm[:1]]
    thin = []
    for f, n in plan:
        d = per.get(f.name)
        if not d:
            thin.append("%s: no worker reported" % f.name)
            continue
        need = dict(f.needs)
        need.setdefault("oracle_decisions", 1)
        for name, m in need.items():
            if d["cases"] < n:  # cut short by the deadline
                m = max(1, m * d["cases"] // n)
            if d["events"].get(name, 0) < m:
                thin.append("%s: monitor '%s' observed %d < %d" % (f.name, name, d["events"].get(name, 0), m))
        if d["events"].get("native_aborts", 0) > max(3, d["cases"] // 10):
            thin.append("%s: %d cases aborted in native code" % (f.name, d["events"]["native_aborts"]))
        if d["cases"] < max(1, n // 20):
            thin.append("%s: only %d of %d cases ran in time" % (f.name, d["cases"], n))
    for d in per.values():
        ev_total += d["cases"]
        skips += d["skipped"]
        sigs |= d["distinct"]
        d["distinct"] = len(d["distinct"])
        d["cpu_s"] = round(d["cpu_s"], 2)
    ev = {
        "property": reg.prop, "tier": tier, "seed": a.seed, "level": reg.level,
        "coverage": {
            "evaluations": ev_total,
            "distinct_nontrivial": len(sigs),
            "rule": reg.rule,
            "samples": samples[:12] or ["(no sample)"],
            "facets": per,
            "known_finding_hits": known_hit,
            "skipped_out_of_domain": skips,
        },
        "assumptions": reg.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(found),
    }
    if not a.facet:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", reg.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    else:
        print(json.dumps(per, indent=1))
    for k, txt in load_known(reg.prop):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (reg.prop, txt, known_hit.get(k, 0)))
    if found:
        found.sort(key=lambda v: (v["facet"], v["idx"]))
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in found:
            if v["msg"] in seen:
                continue
            seen.add(v["msg"])
            path = os.path.join(d, "%s-%s-%d-%d.json" % (reg.prop, v["facet"], v["seed"], v["idx"]))
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
            print("# %s case %d: %s" % (v["facet"], v["idx"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (reg.prop, path))
        return 1
    if errs or thin:
        print("%d worker errors" % len(errs))
        for e in errs[:1]:
            print("error:", e)
        for t in thin:
            print("inconclusive:", t)
        return 2
    print("held property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs" % (
        reg.prop, tier, a.seed, ev_total, len(sigs), time.monotonic() - t0))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    from harness.core import main as _main  # one module identity

    sys.exit(_main(sys.argv[1:]))
