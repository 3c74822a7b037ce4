"""Shared explorer plumbing: bootstrap, sharded exhaustive runs, verdicts, known findings, evidence."""
import collections
import gc
import glob
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARD_LIMIT = int(os.environ.get("VERIF_SHARD_LIMIT", "600"))

# --- bootstrap: scratch HOME and cwd, sources straight from /repo's working tree -----------------
SCRATCH = tempfile.mkdtemp(prefix="lipsmc.")
_OWNER = os.getpid()
os.environ["HOME"] = SCRATCH
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
os.chdir(SCRATCH)
sys.path.insert(0, REPO)
import warnings  # noqa
warnings.simplefilter("ignore")
import lips  # noqa
assert os.path.realpath(lips.__file__).startswith(os.path.realpath(REPO) + os.sep), lips.__file__
warnings.simplefilter("ignore")


class Hang(BaseException):
    pass


class Result:
    """What one shard explored (picklable, mergeable)."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()          # canonical (hashable) states / case keys
        self.n_states = 0            # states counted but not stored
        self.traces = 0
        self.outcomes = collections.Counter()
        self.violations = []         # (key, description, case dict)
        self.samples = []
        self.counts = collections.Counter()
        self.current = None
        self.fail_keys = collections.Counter()

    def case(self, key=None, outcome=None, sample=None):
        self.evaluations += 1
        if key is not None:
            self.states.add(key)
        if outcome is not None:
            self.outcomes[outcome] += 1
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def fail(self, key, desc, **case):
        """key identifies the specific failing input/history (used for the known-findings file)."""
        self.fail_keys[str(key)] += 1
        if len(self.violations) < 200 and self.fail_keys[str(key)] <= 3:
            self.violations.append((str(key), str(desc)[:1000], {k: _js(v) for k, v in case.items()}))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.states |= o.states
        self.n_states += o.n_states
        self.traces += o.traces
        self.outcomes.update(o.outcomes)
        self.violations += o.violations
        self.counts.update(o.counts)
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


def _js(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)[:2000]


def guard(res, key, what, func, *args, **kw):
    """Run one case; an unexpected exception of the code under test is a violation of the property."""
    try:
        return True, func(*args, **kw)
    except Hang:
        raise
    except Exception as e:
        res.fail(key, "%s: unexpected %s: %s" % (what, type(e).__name__, str(e)[:300]), what=what, traceback=traceback.format_exc()[-1500:])
        return False, None


def _alarm(*_):
    raise Hang()


def _run_shard(arg):
    worker, shard, limit = arg
    res = Result()
    gc.collect()
    gc.disable()            # collections at arbitrary points only make the number libraries print noise
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        worker(shard, res)
    except Hang:
        res.fail("hang:%s" % (str(shard)[:80],), "no result within %d s; last case: %s" % (limit, res.current), shard=str(shard)[:300], last=str(res.current)[:500])
    except Exception:
        res.fail("crash:%s" % (str(shard)[:80],), "unexpected exception; last case: %s\n%s" % (res.current, traceback.format_exc()[-1500:]),
                 shard=str(shard)[:300], last=str(res.current)[:500])
    finally:
        signal.alarm(0)
    if os.environ.get("VERIF_TIMING"):
        print("shard %s %.1fs" % (str(shard)[:70], time.time() - t), file=sys.stderr)
    return res


class Check:
    def __init__(self, pid, level="model_checking", argv=None):
        argv = sys.argv[1:] if argv is None else argv
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        for a in argv:
            if a in ("quick", "thorough"):
                self.tier = a
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.res = Result()
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))
        self.notes = {}
        self.assumptions = []
        self.exhaustive = True
        self.rule = ""

    def run(self, worker, shards, limit=None):
        """Explore every shard (in parallel processes), merging what they covered."""
        shards = list(shards)
        limit = limit or SHARD_LIMIT
        args = [(worker, s, limit) for s in shards]
        if self.jobs <= 1 or len(shards) == 1:
            out = map(_run_shard, args)
            for r in out:
                self.res.merge(r)
            return
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(self.jobs, len(shards))) as pool:
            for r in pool.imap_unordered(_run_shard, args, chunksize=1):
                self.res.merge(r)

    # ------------------------------------------------------------------
    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        try:
            with open(path) as f:
                data = json.load(f)
        except FileNotFoundError:
            return []
        return [e for e in data.get("findings", []) if e.get("property") == self.pid and e.get("status") == "open"]

    def finish(self):
        r = self.res
        known = self.known()
        fresh, hits = [], {}
        for key, desc, case in r.violations:
            for e in known:
                if key in e["keys"]:
                    hits.setdefault(e["id"], e)
                    break
            else:
                fresh.append((key, desc, case))
        for e in hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        nstates = len(r.states) + r.n_states
        cov = {"samples": [_js(s) for s in r.samples] or ["(none)"], "exhaustive": bool(self.exhaustive),
               "outcomes": {str(k): v for k, v in sorted(r.outcomes.items(), key=lambda kv: str(kv[0]))[:40]}}
        if self.level == "model_checking":
            cov.update(states=nstates, transitions=r.transitions or r.evaluations, traces_validated_against_impl=r.traces or r.evaluations)
        else:
            cov.update(evaluations=r.evaluations, distinct_nontrivial=nstates, rule=self.rule)
        cov["rule"] = self.rule
        cov.update({k: _js(v) for k, v in self.notes.items()})
        cov.update({k: v for k, v in r.counts.items()})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d.tmp" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        code = 0
        if nstates == 0 and not fresh:
            fresh.append(("vacuous", "nothing was explored", {}))
        for old in glob.glob(os.path.join(VERIF, "evidence", "replay", self.pid + "-*.json")):
            os.remove(old)
        if fresh:
            code = 1
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (key, desc, case) in enumerate(fresh[:int(os.environ.get("VERIF_MAXFAIL", "20"))]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "description": desc, "case": case, "seed": self.seed, "tier": self.tier,
                               "rerun": "cd /verif && ./run.sh %s %s" % (self.pid, self.tier)}, f, indent=1, ensure_ascii=False, default=repr)
                if i < 5:
                    print("  %s | %s" % (key[:200], desc[:400].replace("\n", " / ")))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(d, "%s-0.json" % self.pid)))
        print("%s %s: %s states=%d transitions=%d evaluations=%d outcomes=%d violations=%d (known %d) %.1fs" % (
            self.pid, self.tier, "ok" if code == 0 else "FAIL", nstates, r.transitions or r.evaluations, r.evaluations, len(r.outcomes),
            len(fresh), len(hits), time.time() - self.t0))
        sys.stdout.flush()
        if os.getpid() == _OWNER and os.path.basename(SCRATCH).startswith("lipsmc."):
            os.chdir("/")
            shutil.rmtree(SCRATCH, ignore_errors=True)
        os._exit(code)


def chunks(seq, n):
    """n interleaved shards of seq."""
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]
