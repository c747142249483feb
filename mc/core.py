"""Explorer core shared by every check.

A check is a module ``mc.checks.cNN`` with

    ID, TITLE           the property
    def shards(tier)    -> list of picklable shard descriptions (a partition of the bounded space)
    def explore(shard, rec)
                        explore one shard completely, against the real code, calling
                          rec.state(key)        a canonical state/configuration was reached
                          rec.op(n=1)           n real-API operations (transitions) were executed
                          rec.trace(...)        a complete history was executed and compared
                          rec.outcome(key)      an observable outcome (to see that the space is not vacuous)
                          rec.bad(case, msg)    the property fails on `case`
    BOUNDS(tier)        human-readable description of what the bounds are

Shards are explored in forked worker processes; every shard is explored to its end, there is no
time cap inside a check, and no sampling: a shard list is a partition of the bounded space.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp_
import os
import resource
import signal
import sys
from concurrent.futures import ProcessPoolExecutor
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))  # MC_REPO: only for trying changes in a scratch copy
OUT = VERIF if REPO == "/repo" else os.path.join(REPO, ".mc")
EVID = os.path.join(OUT, "evidence")
REPL = os.path.join(OUT, "replays")
FAIL_FAST = bool(os.environ.get("MC_FAIL_FAST"))  # only for trying many changes in scratch copies
CASE_LIMIT_S = int(os.environ.get("MC_CASE_LIMIT", "60"))  # one operation history that takes this long is reported as not terminating


def digest(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=12).digest()


class DidNotTerminate(BaseException):
    """Not an Exception, so that the code under test cannot swallow it."""


class StopShard(BaseException):
    """The shard is abandoned after a violation that makes going on pointless (an operation that hangs)."""


def _alarm(signum, frame):
    raise DidNotTerminate("no answer within the time limit of a case")


class Rec:
    """Per-shard recorder."""

    MAX_BAD = 40

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.ops = 0
        self.traces = 0
        self.bads = []
        self.nbad = 0
        self.samples = []
        self.notes = {}
        self.known = {}

    def state(self, key):
        d = digest(key)
        new = d not in self.states
        if new:
            self.states.add(d)
        return new

    def op(self, n=1):
        self.ops += n

    def trace(self, sample=None, n=1):
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def outcome(self, key):
        self.outcomes.add(digest(key))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def bad(self, case, msg):
        """case: JSON-able description that identifies the failing input/history."""
        k = canon(case)
        if k in _KNOWN:
            self.known[k] = str(msg)[:300]
            return
        self.nbad += 1
        if len(self.bads) < self.MAX_BAD:
            self.bads.append((json.loads(k), str(msg)[:600]))
        if FAIL_FAST:
            raise StopShard

    @contextlib.contextmanager
    def case(self, case, limit=CASE_LIMIT_S):
        """Run the body as one case: an unexpected exception or a hang of the real code is a violation."""
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            yield
        except DidNotTerminate as e:
            self.bad(case, f"the operation did not terminate ({e})")
            if _HANGS is not None:
                with _HANGS.get_lock():
                    _HANGS.value += 1
                if _HANGS.value >= 3:
                    raise StopShard from None
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if f.filename.startswith(REPO + "/")]
            self.bad(case, f"unexpected {type(e).__name__}: {e} (in {' < '.join(reversed(where[-3:])) or 'harness'})")
        finally:
            signal.alarm(0)


class HarnessError(Exception):
    """The harness itself is inconsistent (never a verdict about the code)."""


def quiet(fn, *a, **k):
    """Call real code with its prints and warnings suppressed."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def raises(fn, *a, **k):
    """(True, exc) if the real code rejects, else (False, value)."""
    try:
        return False, quiet(fn, *a, **k)
    except Exception as e:  # noqa: BLE001
        return True, e


_MOD = None
_KNOWN = {}
_HANGS = None
MEM_LIMIT = 3 << 30


def _init():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    base = int(open("/proc/self/statm").read().split()[0]) * 4096
    resource.setrlimit(resource.RLIMIT_AS, (base + MEM_LIMIT, hard))


def _work(shard):
    warnings.simplefilter("ignore")
    rec = Rec()
    if _HANGS is not None and _HANGS.value >= 3:
        return rec  # the violation is already recorded; every further shard would hang too
    try:
        _MOD.explore(shard, rec)
    except StopShard:
        pass
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001 -- outside any case(): still attributable to the real code or the harness
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + "/") for f in tb):
            rec.bad({"shard": repr(shard)}, f"unexpected {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].name}")
        else:
            raise
    return rec


def load_known(pid):
    """known_findings.txt lines:  KNOWN property=<id> case=<json>  # what fails      (suppresses exactly that case)
                                  fixed: property=<id> <commit> <what failed>         (suppresses nothing)"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("KNOWN "):
            continue
        head, _, what = line.partition("  # ")
        f = head.split(" ", 2)
        if f[1] != f"property={pid}":
            continue
        case = json.loads(f[2][len("case="):])
        out[canon(case)] = what
    return out


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def main(argv):
    global _MOD, _KNOWN, _HANGS
    pid = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.setrecursionlimit(1000)
    warnings.simplefilter("ignore")
    os.makedirs(EVID, exist_ok=True)
    import mentpy  # noqa: F401

    if not os.path.realpath(mentpy.__file__).startswith(REPO + "/"):
        print(f"mentpy is imported from {mentpy.__file__}, not {REPO}", file=sys.stderr)
        return 2
    _MOD = importlib.import_module(f"mc.checks.{pid.lower()}")
    if replay:
        want = json.load(open(replay))
        tier = want.get("tier", tier)
    known = _KNOWN = load_known(pid)
    shards = list(_MOD.shards(tier))
    workers = min(int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4)), max(1, len(shards)))
    recs = []
    if workers == 1:
        for s in shards:
            recs.append(_work(s))
            if FAIL_FAST and recs[-1].nbad:
                break
    else:
        ctx = mp_.get_context("fork")
        _HANGS = ctx.Value("i", 0)
        with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init) as pool:
            for r in pool.map(_work, shards, chunksize=1):
                recs.append(r)
    states, outcomes, notes = set(), set(), {}
    ops = traces = nbad = 0
    bads, samples = [], []
    for r in recs:
        states |= r.states
        outcomes |= r.outcomes
        ops += r.ops
        traces += r.traces
        nbad += r.nbad
        bads += r.bads
        samples += r.samples
        for k, v in r.notes.items():
            notes[k] = notes.get(k, 0) + v
    hit = {}
    for r in recs:
        hit.update(r.known)
    fresh = bads
    if replay:
        k = canon(want["case"])
        bads = bads + [(json.loads(c), m) for c, m in hit.items()]
        for case, msg in bads:
            if canon(case) == k:
                print(f"REPRODUCED {msg}")
                return 1
        print("NOT REPRODUCED")
        return 0
    for k in known:
        if k in hit:
            print(f"KNOWN-FINDING: property={pid} {known[k]} [{hit[k][:160]}]")
        else:
            print(f"note: listed known finding did not occur: {k} {known[k]}")
    if not samples:
        samples = ["none"]
    step = max(1, len(samples) // 6)
    cov = {
        "states": len(states),
        "transitions": ops,
        "traces_validated_against_impl": traces,
        "distinct_observed_outcomes": len(outcomes),
        "exhaustive": True,
        "bounds": _MOD.BOUNDS(tier),
        "shards": len(shards),
        "samples": samples[::step][:8],
    }
    if notes:
        cov["counts"] = notes
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(_MOD, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": list(getattr(_MOD, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print(
        f"{pid} [{tier}] states={len(states)} transitions={ops} traces={traces} "
        f"outcomes={len(outcomes)} shards={len(shards)} wall={ev['wall_s']}s"
    )
    if notes:
        print("   ", " ".join(f"{k}={v}" for k, v in sorted(notes.items())))
    minimum = getattr(_MOD, "MIN_STATES", 2)
    if len(states) < minimum and not fresh:
        print(f"harness error: vacuous exploration ({len(states)} states)", file=sys.stderr)
        return 2
    if fresh:
        os.makedirs(REPL, exist_ok=True)
        fresh.sort(key=lambda cm: (len(canon(cm[0])), canon(cm[0])))
        for case, msg in fresh[: int(os.environ.get("VERIF_SHOW", "3"))]:
            name = f"{pid}-{hashlib.sha1(canon(case).encode()).hexdigest()[:10]}.json"
            path = os.path.join(REPL, name)
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "case": case, "message": msg,
                           "rerun": f"python -m mc {pid} --replay {path}"}, f, indent=1, default=str)
                f.write("\n")
            print(f"VIOLATION property={pid} replay={path}")
            print(f"    case: {canon(case)[:400]}")
            print(f"    {msg}")
        print(f"{nbad} failing cases in total ({len(fresh)} kept)")
        return 1
    return 0
