"""Shared machinery: TLC, traces, known findings, evidence."""

from __future__ import annotations

import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path
from typing import Any, Callable, Optional

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path("/repo")
KNOWN_FILE = VERIF / "known_findings.json"

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def setup_import_path() -> None:
    """The code under test comes from /repo. A stand-in is used for `conda` only if it is not installed."""
    sys.path.insert(0, str(REPO))
    try:
        import conda  # noqa: F401
    except ImportError:
        sys.path.append(str(VERIF / "stubs"))
    # Checking a schema (not data) against the meta-schema dominates the time of a patch. Once per schema is enough.
    import jsonschema.validators as jv

    cls = jv.Draft202012Validator
    check = cls.check_schema
    seen: set[str] = set()

    def _check(schema: Any, *a: Any, **kw: Any) -> None:
        key = json.dumps(schema, sort_keys=True, default=repr)
        if key not in seen:
            check(schema, *a, **kw)
            seen.add(key)

    cls.check_schema = _check  # type: ignore[method-assign]


class Ctx:
    """What one run of one check did."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f"{seed}:{prop}")
        self.start = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"crm-{prop}-"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial: set[str] = set()
        self.samples: list[Any] = []
        self.violations: list[dict[str, Any]] = []
        self.known: dict[str, dict[str, Any]] = {}
        self.extra: dict[str, Any] = {}
        self.assumptions: list[str] = []
        self.rules: list[str] = []
        entries = json.loads(KNOWN_FILE.read_text()) if KNOWN_FILE.exists() else []
        self.known_tbl = {
            e["id"]: e for e in entries if e["status"] == "known" and e["property"] == prop
        }

    @property
    def quick(self) -> bool:
        return self.tier == "quick"

    def pick(self, quick: int, thorough: int) -> int:
        return quick if self.quick else thorough

    def tmp(self, name: str) -> Path:
        p = self.scratch / name
        p.mkdir(parents=True, exist_ok=True)
        return p

    def sample(self, s: Any, limit: int = 4) -> None:
        if len(self.samples) < limit:
            self.samples.append(s)

    def nontriv(self, key: Any) -> None:
        self.nontrivial.add(hashlib.md5(json.dumps(key, sort_keys=True, default=str).encode()).hexdigest())

    def fail(self, what: str, replay: Any, finding: Optional[str] = None) -> None:
        """Reports a disagreement between the specification and the code."""
        if finding and finding in self.known_tbl:
            self.known[finding] = {"what": self.known_tbl[finding]["what"]}
            return
        self.violations.append({"what": what, "replay": replay})

    def finish(self) -> int:
        shutil.rmtree(self.scratch, ignore_errors=True)
        ev_dir = VERIF / "evidence"
        ev_dir.mkdir(exist_ok=True)
        for fid, e in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {e['what']}")
        rc = 0
        if self.violations:
            rc = 1
            rdir = ev_dir / "replay"
            rdir.mkdir(exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                path = rdir / f"{self.prop}-{n}.json"
                path.write_text(json.dumps(v, indent=1, default=str))
                print(f"  {v['what'][:600]}")
                print(f"VIOLATION property={self.prop} replay={path}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": " ".join(self.rules),
            "samples": self.samples or ["none"],
            "known_findings_seen": sorted(self.known),
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        (ev_dir / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(
            f"{self.prop} {self.tier}: states={self.states} transitions={self.transitions} "
            f"traces={self.traces} evaluations={self.evaluations} nontrivial={len(self.nontrivial)} "
            f"violations={len(self.violations)} wall={ev['wall_s']}s"
        )
        return rc


class TlcError(RuntimeError):
    pass


class NotAnAnswer(TlcError):
    """The specification can not even evaluate what was recorded of the code (such as nothing in place of a text)."""


def tlc(
    ctx: Ctx,
    module: str,
    cfg: Optional[str] = None,
    env: Optional[dict[str, str]] = None,
    args: Optional[list[str]] = None,
    timeout: int = 800,
    workers: int = 8,
    expect_violation: bool = False,
) -> dict[str, Any]:
    """
    Runs TLC on /verif/spec/<module>.tla. Returns the printed JSON records and the state counts. Anything but a normal
    end of TLC is an error of the machinery, except for an invariant violation of the specification itself.
    """
    meta = ctx.scratch / f"tlc-{module}-{time.time_ns()}"
    meta.mkdir()
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", f"-Djava.io.tmpdir={meta}"]
    cmd += ["-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
    cmd += ["-metadir", str(meta), "-workers", str(workers), "-noGenerateSpecTE", "-config", f"{cfg or module}.cfg"]
    cmd += (args or []) + [f"{module}.tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, check=False)
    except subprocess.TimeoutExpired as ex:
        raise TlcError(f"TLC timed out on {module}") from ex
    out = r.stdout
    records: list[tuple[str, Any]] = []
    for line in out.splitlines():
        if line.startswith('"'):
            try:
                s = json.loads(line)
            except json.JSONDecodeError:
                # TLC escapes only quotes and backslashes
                continue
            tag, _, body = s.partition(" ")
            try:
                records.append((tag, json.loads(body)))
            except json.JSONDecodeError:
                records.append((tag, body))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    m2 = re.search(r"The number of states generated: ([\d,]+)", out)  # simulation
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
    elif m2:
        gen = dist = int(m2.group(1).replace(",", ""))
    inv = re.findall(r"Error: (?:Invariant|Action property|Temporal properties) ?(\S*)", out)
    if r.returncode not in (0,) and not (inv and expect_violation):
        recorded = module.endswith(("Cases", "Trace")) or module == "Subst"
        err = NotAnAnswer if recorded and re.search(r"Attempted to|null|was not in the domain|is not in the domain", out) else TlcError
        raise err(f"TLC failed on {module} (rc={r.returncode}):\n{out[-6000:]}\n{r.stderr[-2000:]}")
    if not m and not m2:
        raise TlcError(f"TLC gave no counts for {module}:\n{out[-3000:]}")
    ctx.states += dist
    ctx.transitions += gen
    shutil.rmtree(meta, ignore_errors=True)
    return {"records": records, "generated": gen, "distinct": dist, "violated": inv, "out": out}


def write_json(path: Path, data: Any) -> Path:
    path.write_text(json.dumps(data))
    return path


def proj(v: Any) -> dict[str, Any]:
    """Projects a Python/YAML value on the data of the specification."""
    if isinstance(v, dict):
        return {"t": "m", "v": "", "e": [{"k": str(k), "d": proj(x)} for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return {"t": "l", "v": "", "e": [{"k": "", "d": proj(x)} for x in v]}
    return {"t": "s", "v": tag(v), "e": []}


def tag(v: Any) -> str:
    """Type-tagged value."""
    if v is None:
        return "z:"
    if isinstance(v, bool):
        return f"b:{'true' if v else 'false'}"
    if isinstance(v, int):
        return f"i:{v}"
    if isinstance(v, float):
        return f"f:{v!r}"
    if isinstance(v, str):
        return "s:" + v.rstrip("\n")
    return f"?{type(v).__name__}:{v!r}"


def judge(ctx: Ctx, module: str, cases: list[dict[str, Any]], describe: Callable[[dict[str, Any]], str], chunk: int = 4000,
          finding: Optional[Callable[[dict[str, Any]], Optional[str]]] = None) -> None:
    """Lets a specification decide recorded cases. One state per case. The specification computes the expectation."""
    for c in range(0, len(cases), chunk):
        part = cases[c : c + chunk]
        f = write_json(ctx.scratch / f"cases-{module}-{c}.json", part)
        r = tlc(ctx, module, env={"CASES_FILE": str(f)})
        f.unlink()
        if r["distinct"] != len(part):
            raise TlcError(f"{module}: {r['distinct']} states for {len(part)} cases")
        for tg, x in r["records"]:
            if tg == "FAIL":
                case = part[x["k"] - 1]
                ctx.fail(describe(case), {"case": case, "expected": x.get("want")}, finding(case) if finding else None)
    ctx.evaluations += len(cases)
    ctx.traces += len(cases)


class Hang(BaseException):
    """Raised where the process is when a time budget runs out."""


def _on_alarm(signum: int, frame: Any) -> None:
    raise Hang("no result within the time budget")


def budget(seconds: int) -> None:
    """Raises Hang wherever this process is after so many seconds (0: no longer)."""
    import signal

    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(seconds)


class Job:
    """A job that ends: code under test that loops or eats the memory becomes an exception with its traceback."""

    def __init__(self, fn: Callable[[Any], Any]) -> None:
        self.fn = fn

    def __call__(self, job: Any) -> Any:
        budget(150 if os.environ.get("VERIF_TIER_NOW", "quick") == "quick" else 3000)
        try:
            return self.fn(job)
        except Hang as e:
            raise RuntimeError("no result within the time budget") from e
        finally:
            budget(0)


def limit_memory() -> None:
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def pmap(fn: Callable[[Any], Any], jobs: list[Any], chunk: int = 4) -> list[Any]:
    """Maps in parallel processes, in order."""
    import multiprocessing as mp

    with mp.get_context("fork").Pool(8, initializer=limit_memory) as pool:
        return list(pool.imap(Job(fn), jobs, chunksize=chunk))
