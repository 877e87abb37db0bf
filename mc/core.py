"""Explorer core: enumerates the cases of a check on all cores, collects
violations, writes the evidence file and replay files.

A check is a module mc/checks/<id>.py with
    LEVEL      level of the evidence
    RULE       how cases are made and what makes one non-trivial
    cases(tier) -> list of (case_id, payload)     (payload: JSON values)
    run(payload, rec)                             (one case on the real code)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 300


class CaseTimeout(BaseException):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


class Recorder:
    """What one case observed."""

    def __init__(self):
        self.fails = []
        self.keys = set()
        self.counts = {}
        self.samples = []

    def fail(self, what, sig=None, **info):
        """sig names one precise way of failing, for the known findings."""
        if sig is not None:
            info["sig"] = sig
        self.fails.append((what, {k: _plain(v) for k, v in info.items()}))

    def check(self, ok, what, **info):
        if not ok:
            self.fail(what, **info)
        return bool(ok)

    def key(self, *parts):
        """Registers one distinct non-trivial observation."""
        text = repr([_plain(p) for p in parts])
        self.keys.add(hashlib.blake2b(text.encode(), digest_size=8).hexdigest())

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sample(self, **info):
        if len(self.samples) < 2:
            self.samples.append({k: _plain(v) for k, v in info.items()})


def _plain(v):
    import numpy as np
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.size > 400:
            return f"array{v.shape} {v.ravel()[:40].tolist()}..."
        return v.tolist()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def run_case(mod, payload):
    rec = Recorder()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_SECONDS", CASE_SECONDS))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(payload, rec)
    except CaseTimeout:
        rec.fail("no answer within the time of a case")
    except Exception as exc:  # the calls made here are all legal ones
        rec.fail(f"raised {type(exc).__name__}: {exc}",
                 traceback=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec


def _worker(modname, cases, counter, out):
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module(modname)
    # anything the code prints must not end up in the report
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    while True:
        with counter.get_lock():
            ndx = counter.value
            counter.value += 1
        if ndx >= len(cases):
            break
        out.put(("start", os.getpid(), ndx))
        tic = time.time()
        rec = run_case(mod, cases[ndx][1])
        if os.environ.get("MC_STOP") and any("sig" not in info for _, info in rec.fails):
            counter.value = len(cases)
        out.put(("done", os.getpid(), ndx, rec.fails, rec.keys, rec.counts,
                 rec.samples, time.time() - tic))
    out.put(("end", os.getpid()))
    out.close()
    out.join_thread()
    os._exit(0)


def explore(modname, cases, n_workers):
    """Runs every case; returns {ndx: result}."""
    ctx = mp.get_context("fork")
    counter, out = ctx.Value("l", 0), ctx.Queue()
    procs = {}
    for _ in range(max(1, min(n_workers, len(cases)))):
        p = ctx.Process(target=_worker, args=(modname, cases, counter, out))
        p.start()
        procs[p.pid] = p
    running, results = {}, {}
    ended = set()

    def handle(msg):
        if msg[0] == "start":
            running[msg[1]] = msg[2]
        elif msg[0] == "done":
            running.pop(msg[1], None)
            results[msg[2]] = msg[3:]
        else:
            ended.add(msg[1])

    while len(ended) < len(procs):
        try:
            handle(out.get(timeout=1.0))
            continue
        except queue.Empty:
            pass
        for pid, p in procs.items():
            if pid not in ended and not p.is_alive():
                # drain what it still sent before it went away
                try:
                    while True:
                        handle(out.get(timeout=0.5))
                except queue.Empty:
                    pass
                if pid not in ended:
                    ended.add(pid)
                    if pid in running:
                        ndx = running.pop(pid)
                        results[ndx] = ([(f"the process died, exit code {p.exitcode}", {})],
                                        set(), {}, [], 0.0)
    for p in procs.values():
        p.join(timeout=5)
    # cases nobody took because workers died: run them here
    mod = importlib.import_module(modname)
    for ndx in range(len(cases)):
        if ndx not in results and os.environ.get("MC_STOP"):    # development only: first failure ends the run
            results[ndx] = ([], set(), {}, [], 0.0)
        elif ndx not in results:
            rec = run_case(mod, cases[ndx][1])
            results[ndx] = (rec.fails, rec.keys, rec.counts, rec.samples, 0.0)
    return results


def known_findings(prop):
    """case id -> description, from the committed file."""
    found = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(" ", 3)
            if parts[0] == "finding:" and parts[1] == f"property={prop}":
                found[parts[2].split("=", 1)[1]] = parts[3]
    return found


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.property
    modname = f"mc.checks.{prop.lower()}"
    tic = time.time()
    try:
        mod = importlib.import_module(modname)
    except Exception:
        # the package under test cannot even be imported
        return report_import_failure(prop, tier, seed, tic)

    if args.replay:
        data = json.load(open(args.replay))
        rec = run_case(mod, data["payload"])
        print(json.dumps({"case": data["case"], "fails": rec.fails}, indent=1))
        return 1 if rec.fails else 0

    cases = mod.cases(tier)
    assert len({c[0] for c in cases}) == len(cases), "case ids are not unique"
    if args.only:
        cases = [c for c in cases if args.only in c[0]]
    if args.list:
        for c in cases:
            print(c[0])
        return 0
    results = explore(modname, cases, args.workers)

    known = known_findings(prop)
    keys, counts, samples, violations, hit = set(), {}, [], [], set()
    slow = []
    for ndx, (cid, payload) in enumerate(cases):
        fails, k, c, s, sec = results[ndx]
        slow.append((sec, cid))
        keys |= k
        for name, n in c.items():
            counts[name] = counts.get(name, 0) + n
        if s and len(samples) < 6:
            samples.extend({"case": cid, **x} for x in s[:1])
        rest = []
        for what, info in fails:
            name = f"{cid}#{info.get('sig')}"
            if name in known:
                hit.add(name)
            else:
                rest.append((what, info))
        if rest:
            violations.append((cid, payload, rest))

    if not samples:
        samples = [{"case": c[0], "payload": c[1]} for c in cases[:3]]
    coverage = {"evaluations": counts.pop("evaluations", len(cases)),
                "cases": len(cases),
                "distinct_nontrivial": len(keys),
                "rule": mod.RULE, "samples": samples[:6],
                "exhaustive": True}
    coverage.update(counts)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {"property": prop, "tier": tier, "seed": seed,
                "level": mod.LEVEL, "coverage": coverage,
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(time.time() - tic, 2),
                "violations": len(violations)}
    if not args.only and not os.environ.get("MC_STOP"):
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    for cid in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {cid}: {known[cid]}")
    for cid in sorted(set(known) - hit):
        if not args.only:
            print(f"note: listed finding did not show: {cid}")
    print(f"{prop} {tier}: cases={len(cases)} evaluations={coverage['evaluations']} "
          f"distinct={len(keys)} {counts} wall={evidence['wall_s']}s "
          f"slowest={sorted(slow)[-1][0]:.1f}s {sorted(slow)[-1][1]}")
    if not violations:
        return 0
    rdir = os.path.join(HERE, "evidence", "replay") if not os.environ.get("MC_STOP") else "/tmp/mc-replay"
    os.makedirs(rdir, exist_ok=True)
    for n, (cid, payload, fails) in enumerate(violations[:10]):
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "case": cid, "payload": payload,
                       "fails": fails}, fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        for what, info in fails[:3]:
            text = json.dumps(info)
            print(f"   {cid}: {what} {text if len(text) < 900 else text[-900:]}")
    if len(violations) > 10:
        print(f"   and {len(violations) - 10} more failing cases")
    return 1


def report_import_failure(prop, tier, seed, tic):
    text = traceback.format_exc()
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-import.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "case": "import", "payload": None,
                   "fails": [["import failed", {"traceback": text}]]}, fh)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other",
                   "coverage": {"explanation": "the package could not be imported",
                                "evaluations": 0},
                   "wall_s": round(time.time() - tic, 2), "violations": 1}, fh)
    print(text)
    print(f"VIOLATION property={prop} replay={path}")
    return 1
