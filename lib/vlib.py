"""Shared harness: runs TLC on the specifications in /verif/spec, feeds traces
recorded from the real cloudnetpy code to the trace specifications and turns
TLC's verdicts into the check's exit status and evidence file.

The harness itself never decides whether a property holds: every verdict line
("BAD ...") is printed by TLC while it evaluates a trace specification.
"""
from __future__ import annotations

import contextlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
FILL = -999999  # a masked value
NAN = -888888  # NaN in the output
INF = -777777  # +-inf in the output
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["TZ"] = "UTC"
time.tzset()
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))


class MachineryError(Exception):
    """Something in the verification machinery (not the code) failed."""


class CallTimeout(Exception):
    """A call into the code under test did not return in time."""


@contextlib.contextmanager
def time_limit(seconds: int):
    def handler(_s, _f):
        raise CallTimeout(f"call exceeded {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def outcome(fn, *args, limit: int = 120, **kwargs):
    """Calls the code under test; returns (status, value).

    status is "ok" or the name of the exception class.
    """
    try:
        with time_limit(limit):
            return "ok", fn(*args, **kwargs)
    except CallTimeout:
        return "TIMEOUT", None
    except MachineryError:
        raise
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, e


def where(err) -> str:
    """An exception and the innermost places it passed through."""
    tb = traceback.extract_tb(getattr(err, "__traceback__", None))[-3:]
    return (repr(err) + " at " + " < ".join(f"{Path(f.filename).name}:{f.lineno} {f.name}" for f in reversed(tb)))[:400]


def enc(value, scale: float = 1, digits: int | None = None):
    """Encodes a number / (masked) array as (nested lists of) integers."""
    import numpy as np
    from numpy import ma

    if ma.is_masked(value) and np.ndim(value) == 0:
        return FILL
    if np.ndim(value) == 0:
        if value is ma.masked:
            return FILL
        if isinstance(value, ma.MaskedArray):
            value = value.item()
        x = float(value)
        if np.isnan(x):
            return NAN
        if np.isinf(x):
            return INF
        x = x * scale
        if abs(x) > 2_000_000_000:
            return 2_000_000_000 if x > 0 else -2_000_000_000
        return int(np.floor(x + 0.5))
    arr = ma.masked_array(value)
    mask = ma.getmaskarray(arr)
    data = np.asarray(arr.data, dtype=float)
    with np.errstate(all="ignore"):
        out = np.floor(np.clip(data * scale, -2e9, 2e9) + 0.5)
    out = np.where(np.isnan(data), NAN, out)
    out = np.where(np.isinf(data), INF, out)
    out = np.where(mask, FILL, out)
    return out.astype(np.int64).tolist()


class TlcResult:
    def __init__(self) -> None:
        self.ok = False
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.prints: list = []
        self.output = ""
        self.violated = ""
        self.actions: dict[str, int] = {}


def run_tlc(
    module: str,
    cfg: str,
    *,
    workers: str = "1",
    env: dict | None = None,
    timeout: int = 600,
    heap: str = "6g",
    extra: list[str] | None = None,
    coverage: bool = True,
) -> TlcResult:
    work = Path(tempfile.mkdtemp(prefix="tlc_"))
    try:
        cfgfile = SPEC / cfg
        cmd = [
            "java",
            f"-Xmx{heap}",
            "-Xss64m",
            "-XX:+UseParallelGC",
            "-Dtlc2.tool.Simulator.extendedStatistics=false",
            "-cp",
            TLA_JAR + ":" + _community_jar(),
            "tlc2.TLC",
            "-noGenerateSpecTE",
            "-metadir",
            str(work / "meta"),
            "-workers",
            workers,
        ]
        if coverage:
            cmd += ["-coverage", "60"]
        if extra:
            cmd += extra
        cmd += ["-config", str(cfgfile), str(SPEC / f"{module}.tla")]
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = str(work)
        p = subprocess.run(
            cmd,
            cwd=work,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            check=False,
        )
        out = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as exc:
        msg = f"TLC timed out on {module}/{cfg}"
        raise MachineryError(msg) from exc
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res = TlcResult()
    res.output = out
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                res.prints.append(json.loads(line))
            except json.JSONDecodeError:
                res.prints.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
        if m:
            res.generated, res.distinct = int(m[1]), int(m[2])
        m = re.match(r"^The depth of the complete state graph search is (\d+)", line)
        if m:
            res.depth = int(m[1])
        m = re.match(r"^<(\w+) line \d+.*>: (\d+):(\d+)", line)
        if m:
            res.actions[m[1]] = int(m[3])
        m = re.match(r"^Error: (Invariant|Action property|Temporal prop\S*) (\S+) ", line)
        if m:
            res.violated = m[2]
    res.ok = "Model checking completed. No error has been found." in out
    return res


_CJ = None


def _community_jar() -> str:
    global _CJ
    if _CJ is None:
        hits = sorted(Path("/opt/veriftools/tla").glob("*ommunity*.jar"))
        _CJ = ":".join(str(h) for h in hits)
    return _CJ


class Check:
    """One property check: model checking + conformance of the real code."""

    def __init__(self, pid: str, level: str = "model_checking") -> None:
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif_{pid}_"))
        self.states = 0
        self.transitions = 0
        self.models: list[dict] = []
        self.traces = 0
        self.events = 0
        self.bad: list[dict] = []
        self.samples: list = []
        self.assumptions: list[str] = []
        self.extra: dict = {}
        self.clauses: dict[str, int] = {}

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def n(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def nprng(self, salt: str = ""):
        import numpy as np

        return np.random.default_rng(abs(hash_str(f"{self.pid}-{self.seed}-{salt}")))

    def log(self, *a) -> None:
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- design level -------------------------------------------------------
    def model_check(
        self, module: str, cfg: str, *, min_distinct: int = 2, workers: str = "4", **kw
    ) -> TlcResult:
        """Exhaustive TLC run of the design; its invariants must hold."""
        res = run_tlc(module, cfg, workers=workers, **kw)
        if not res.ok:
            print(res.output[-4000:])
            msg = f"TLC rejected the design {module}/{cfg}: {res.violated}"
            raise MachineryError(msg)
        if res.distinct < min_distinct:
            msg = f"{module}/{cfg}: only {res.distinct} states, the model is vacuous"
            raise MachineryError(msg)
        never = sorted(a for a, n in res.actions.items() if n == 0 and a != "Init")
        self.states += res.distinct
        self.transitions += res.generated
        self.models.append(
            {
                "module": module,
                "cfg": cfg,
                "distinct": res.distinct,
                "generated": res.generated,
                "depth": res.depth,
                "actions_never_taken": never,
            }
        )
        self.log(
            f"TLC {module}/{cfg}: {res.distinct} distinct states, "
            f"{res.generated} generated, no invariant violated"
        )
        return res

    def cases(self, res: TlcResult, tag: str = "CASE ") -> list:
        """Behaviours the specification printed, to be replayed in the code."""
        out = []
        seen = set()
        for p in res.prints:
            if isinstance(p, str) and p.startswith(tag):
                s = p[len(tag) :]
                if s not in seen:
                    seen.add(s)
                    out.append(json.loads(s))
        out.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return out

    # -- conformance --------------------------------------------------------
    def validate(
        self,
        module: str,
        events: list[dict],
        *,
        cfg: str = "Trace.cfg",
        meta: list | None = None,
        traces: int | None = None,
        chunk: int = 4000,
        timeout: int = 800,
        parallel: int = 1,
    ) -> None:
        """Has TLC judge the recorded events with the trace specification."""
        if not events:
            msg = f"{module}: no events recorded"
            raise MachineryError(msg)

        def judge(start: int) -> TlcResult:
            f = self.scratch / f"{module}_{start}.ndjson"
            with open(f, "w") as fp:
                for ev in events[start : start + chunk]:
                    fp.write(json.dumps(ev) + "\n")
            try:
                return run_tlc(
                    module,
                    cfg,
                    env={"TRACE": str(f)},
                    workers="1",
                    timeout=timeout,
                    coverage=False,
                    heap="6g" if parallel == 1 else "3g",
                )
            finally:
                f.unlink()

        start, rejected = 0, 0
        ready = {}
        if parallel > 1:
            with ThreadPoolExecutor(parallel) as pool:
                starts = range(0, len(events), chunk)
                ready = dict(zip(starts, pool.map(judge, starts)))
        while start < len(events):
            part = events[start : start + chunk]
            res = ready.pop(start, None) or judge(start)
            done = len(part)
            outside = None
            if not res.ok:
                if not res.generated or "Starting..." not in res.output:
                    print(res.output[-6000:])
                    msg = f"TLC failed on the trace of {module}"
                    raise MachineryError(msg)
                # The specification cannot be evaluated on this event: a
                # recorded value lies outside of its domain (a number too
                # large for TLC's integers, a result of the wrong shape).
                done = outside = res.generated
            elif res.distinct != len(part) + 1:
                print(res.output[-3000:])
                msg = f"{module}: {res.distinct - 1} of {len(part)} events judged"
                raise MachineryError(msg)
            self.states += res.distinct
            self.transitions += res.generated
            for p in res.prints:
                if isinstance(p, str) and p.startswith("BAD "):
                    b = json.loads(p[4:])
                    idx = start + b["line"] - 1
                    self.bad.append(
                        {
                            "module": module,
                            "clauses": sorted(b["clauses"]),
                            "event": events[idx],
                            "meta": meta[idx] if meta else None,
                        }
                    )
                elif isinstance(p, str) and p.startswith("HIT "):
                    self.clauses[p[4:]] = self.clauses.get(p[4:], 0) + 1
            if outside is not None:
                idx = start + outside - 1
                err = [x for x in res.output.splitlines() if x.startswith("Error:")]
                self.log(f"{module}: event {idx} outside of the domain: {err[:1]}")
                self.bad.append(
                    {
                        "module": module,
                        "clauses": ["OUTSIDE_OF_DOMAIN"],
                        "event": events[idx],
                        "meta": [err[:2], meta[idx] if meta else None],
                    }
                )
                rejected += 1
            start += done
            if rejected >= 3:
                self.log(f"{module}: the remaining events are not judged")
                break
        self.events += len(events)
        self.traces += traces if traces is not None else len(events)
        self.log(f"TLC {module}: judged {len(events)} events, {len(self.bad)} bad so far")

    def sample(self, obj) -> None:
        if len(self.samples) < 3:
            s = json.dumps(obj)
            self.samples.append(obj if len(s) < 1500 else s[:1500] + "...")

    # -- verdict -------------------------------------------------------------
    def finish(self) -> int:
        known = load_known(self.pid)
        viol = []
        hit_known = {}
        for b in self.bad:
            k = match_known(known, b)
            if k is None:
                viol.append(b)
            else:
                hit_known.setdefault(k["key"], k)
        # on a listed finding: print whenever it was reproduced in this run
        for k in hit_known.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_judged": self.events,
                "models": self.models,
                "samples": self.samples or ["(none)"],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        with open(VERIF / "evidence" / f"{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        (VERIF / "replays" / f"{self.pid}.json").unlink(missing_ok=True)
        if viol:
            rdir = VERIF / "replays"
            rdir.mkdir(exist_ok=True)
            rp = rdir / f"{self.pid}.json"
            with open(rp, "w") as f:
                json.dump(viol[:20], f, indent=1, default=str)
            for b in viol[:5]:
                self.log("violated:", b["module"], b["clauses"], str(b["meta"])[:300])
            print(f"VIOLATION property={self.pid} replay={rp}", flush=True)
            return 1
        self.log(
            f"held: {self.states} states, {self.traces} traces of the real code validated"
        )
        return 0


def hash_str(s: str) -> int:
    import hashlib

    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")


def load_known(pid: str) -> list[dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    with open(f) as fp:
        data = json.load(fp)
    return [k for k in data["findings"] if k["property"] == pid and k["status"] == "known"]


def match_known(known: list[dict], bad: dict) -> dict | None:
    for k in known:
        if k.get("module") not in (None, bad["module"]):
            continue
        if not set(bad["clauses"]) <= set(k["clauses"]):
            continue
        ev = bad["event"]
        if all(ev.get(f) == v for f, v in k.get("match", {}).items()):
            return k
    return None


def main(check_fn, pid: str) -> None:
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    c = Check(pid)
    try:
        import cloudnetpy.utils  # noqa: F401  (resolves the package's import cycle)

        check_fn(c)
        rc = c.finish()
    except MachineryError as e:
        print(f"MACHINERY ERROR in {pid}: {e}", flush=True)
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 2
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        frames = [str(x.filename) for x in traceback.extract_tb(e.__traceback__)]
        if any(x.startswith(str(REPO) + "/cloudnetpy") for x in frames):
            # the code under test failed on an input on which it has to work
            c.bad.append(
                {
                    "module": "harness",
                    "clauses": ["CODE_FAILED"],
                    "event": {"exception": repr(e)[:500]},
                    "meta": traceback.format_exc()[-1500:],
                }
            )
            c.finish()
            sys.stdout.flush()
            sys.exit(1)
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
