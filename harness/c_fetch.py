"""Fetchers: archives from a local HTTP server, local git repositories."""

from __future__ import annotations

import bz2
import gc
import hashlib
import io
import json
import lzma
import os
import random
import shutil
import stat
import subprocess
import tarfile
import tempfile
import threading
import zipfile
import zlib
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from typing import Any, Optional

from harness.common import Ctx, judge, pmap, tlc, write_json

NAMES = ["a.txt", "b.py", "setup.cfg", "ü.md", "a b", "README", ".hidden", "x" * 120]
DIRS = ["src", "pkg-1.0", "d", "é", "." + "z"]


def h(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()[:16]


def exc_name(ex: BaseException) -> str:
    from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError, FetchUnsupportedError

    for c in (FetchError, FetchRequiredError, FetchUnsupportedError):
        if isinstance(ex, c):
            return c.__name__
    return f"{type(ex).__name__}: {ex}"


class Web:
    """A server with one answer per path."""

    def __init__(self) -> None:
        self.answers: dict[str, dict[str, Any]] = {}
        self.seen: list[str] = []
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_GET(self) -> None:  # noqa: N802
                outer.seen.append(self.path)
                a = outer.answers.get(self.path)
                if a is None:
                    self.send_response(404)
                    self.send_header("Content-Length", "9")
                    self.end_headers()
                    self.wfile.write(b"not found")
                    return
                how, body = a["how"], a["body"]
                if how == "drop":
                    self.close_connection = True
                    self.connection.close()
                    return
                if how == "redirect":
                    self.send_response(302)
                    self.send_header("Location", a["to"])
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                self.send_response(a.get("status", 200))
                if how == "chunked":
                    self.send_header("Transfer-Encoding", "chunked")
                    self.end_headers()
                    for i in range(0, len(body), 700):
                        c = body[i : i + 700]
                        self.wfile.write(f"{len(c):x}\r\n".encode() + c + b"\r\n")
                    self.wfile.write(b"0\r\n\r\n")
                    return
                self.send_header("Content-Length", str(len(body) + (50 if how == "short" else 0)))
                self.end_headers()
                self.wfile.write(body)
                if how == "short":
                    self.close_connection = True

            def log_message(self, *_a: Any) -> None:
                pass

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.srv.handle_error = lambda *_a: None  # type: ignore[method-assign]
        self.base = f"http://127.0.0.1:{self.srv.server_address[1]}"
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()


_WEB: Optional[Web] = None


def web() -> Web:
    global _WEB
    if _WEB is None:
        _WEB = Web()
    return _WEB


# ---- archives ----
def member(t: str, p: list[str], v: Any = None, x: bool = False, data: bytes = b"", raw: Any = None) -> dict[str, Any]:
    return {"t": t, "p": p, "v": v if v is not None else [], "x": x, "data": data, "raw": raw}


def gen_members(rng: random.Random, kind: str, hostile: bool, scratch: Path) -> list[dict[str, Any]]:
    ms: list[dict[str, Any]] = []
    dirs = [[]] + [[rng.choice(DIRS)] for _ in range(rng.randint(0, 2))]
    dirs += [dirs[-1] + [rng.choice(DIRS)] for _ in range(rng.randint(0, 1)) if dirs[-1]]
    seen: set[str] = set()
    fixed: set[str] = set()
    dset = {"/".join(d) for d in dirs}
    for _ in range(rng.randint(1, 6)):
        p = rng.choice(dirs) + [rng.choice(NAMES)]
        s = "/".join(p)
        if s in fixed:
            continue
        x = rng.random()
        files = [m for m in ms if m["t"] == "f"]
        if kind == "TARBALL" and x < 0.12 and s not in seen:
            # A symbolic link within the archive
            to = rng.choice(["nowhere.txt"] + [m["p"][-1] for m in files if m["p"][:-1] == p[:-1]])
            ms.append(member("l", p, [to]))
            fixed.add(s)
        elif kind == "TARBALL" and x < 0.22 and files and s not in seen:
            to = rng.choice(files)["p"]
            ms.append(member("h", p, to))
            fixed |= {s, "/".join(to)}
        else:
            n = rng.choice([0, 1, 10, 100, 1023, 1024, 1025, 5000])
            n = 60000 if rng.random() < 0.08 else n
            data = rng.randbytes(n) if rng.random() < 0.5 else bytes(rng.choices(b"abcdefgh \n", k=n))
            ms.append(member("f", p, [h(data)], rng.random() < 0.3, data))
        seen.add(s)
    for d in dirs[1:]:
        if rng.random() < 0.4:
            ms.insert(rng.randint(0, len(ms)), member("d", d))
    # A link must follow its target
    ms.sort(key=lambda m: m["t"] == "h")
    if hostile:
        up = rng.randint(1, 5)
        data = b"hostile"
        abs_ = str(scratch / "escaped.txt")
        options = [
            member("x", ["h0"], data=data, raw=("f", "../" * up + "h.txt")),
            member("x", ["h0"], data=data, raw=("f", "src/" + "../" * (up + 1) + "h.txt")),
            member("x", ["h0"], data=data, raw=("f", abs_)),
            member("x", ["h0"], data=data, raw=("f", "../NAME")),
        ]
        if kind == "TARBALL":
            options += [
                member("x", ["h0"], raw=("l", "h1", rng.choice(["../" * up, str(scratch), "/nonexistent"]))),
                member("x", ["h0"], raw=("through", "h1", "../" * up, data)),
                member("x", ["h0"], raw=("through", "h1", str(scratch), data)),
                member("x", ["h0"], raw=("h", "h1", str(scratch / "victim"))),
                member("x", ["h0"], raw=("fifo", "h1")),
                member("x", ["h0"], raw=("chr", "h1")),
            ]
        else:
            options.append(member("x", ["h0"], raw=("zl", "h1", str(scratch), data)))
        ms.insert(rng.randint(0, len(ms)), rng.choice(options))
        ms.sort(key=lambda m: m["t"] == "h")
    return ms


def make_tar(ms: list[dict[str, Any]], comp: str, fmt: int, name: str) -> bytes:
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w:" + comp, format=fmt) as t:

        def add(nm: str, typ: bytes, data: bytes = b"", link: str = "", mode: int = 0o644) -> None:
            i = tarfile.TarInfo(nm)
            i.type, i.size, i.linkname, i.mode = typ, len(data), link, mode
            t.addfile(i, io.BytesIO(data) if data else None)

        for m in ms:
            p = "/".join(m["p"])
            if m["t"] == "f":
                add(p, tarfile.REGTYPE, m["data"], mode=0o755 if m["x"] else 0o644)
            elif m["t"] == "d":
                add(p, tarfile.DIRTYPE, mode=0o755)
            elif m["t"] == "l":
                add(p, tarfile.SYMTYPE, link="/".join(m["v"]), mode=0o777)
            elif m["t"] == "h":
                x = [o["x"] for o in ms if o["p"] == m["v"]][-1]
                add(p, tarfile.LNKTYPE, link="/".join(m["v"]), mode=0o755 if x else 0o644)
            else:
                r = m["raw"]
                if r[0] == "f":
                    add(r[1].replace("NAME", name), tarfile.REGTYPE, m["data"])
                elif r[0] == "l":
                    add(r[1], tarfile.SYMTYPE, link=r[2])
                elif r[0] == "through":
                    add(r[1], tarfile.SYMTYPE, link=r[2])
                    add(r[1] + "/h.txt", tarfile.REGTYPE, r[3])
                elif r[0] == "h":
                    add(r[1], tarfile.LNKTYPE, link=r[2])
                    add(r[1], tarfile.REGTYPE, b"overwritten")
                elif r[0] == "fifo":
                    add(r[1], tarfile.FIFOTYPE)
                else:
                    add(r[1], tarfile.CHRTYPE)
    return raw.getvalue()


def make_zip(ms: list[dict[str, Any]], comp: int, name: str) -> bytes:
    raw = io.BytesIO()
    with zipfile.ZipFile(raw, "w", compression=comp) as z:
        for m in ms:
            p = "/".join(m["p"])
            if m["t"] == "f":
                z.writestr(p, m["data"])
            elif m["t"] == "d":
                z.writestr(p + "/", b"")
            else:
                r = m["raw"]
                if r[0] == "f":
                    z.writestr(r[1].replace("NAME", name), m["data"])
                else:
                    i = zipfile.ZipInfo(r[1])
                    i.external_attr = (stat.S_IFLNK | 0o777) << 16
                    z.writestr(i, r[2])
                    z.writestr(r[1] + "x/h.txt", r[3])
    return raw.getvalue()


def gen_response(rng: random.Random, name: str, scratch: Path, kinds: Optional[list[str]] = None) -> dict[str, Any]:
    """What the specification sees, and under `_` what is served."""
    kind = rng.choice(kinds) if kinds else rng.choices(["ok", "fails", "maybe", "hostile"], [10, 5, 3, 4])[0]
    typ = rng.choice(["TARBALL", "TARBALL", "ZIP"])
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ms = gen_members(rng, typ, kind == "hostile", scratch)
        if typ == "TARBALL":
            comp = rng.choice(["gz", "bz2", "xz", "gz", ""])
            body = make_tar(ms, comp, rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT]), name)
        else:
            comp = "zip"
            body = make_zip(ms, rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]), name)
    ans: dict[str, Any] = {"how": rng.choice(["plain", "plain", "chunked", "redirect"]), "body": body}
    if kind == "fails":
        x = rng.choice(["status", "garbage", "empty", "drop", "short", "cut", "cut", "refused", "loop"])
        ans["how"] = "plain"
        if x == "status":
            ans["status"] = rng.choice([400, 403, 404, 410, 500, 503])
        elif x == "garbage":
            ans["body"] = rng.choice([b"<html>oops</html>", b"7z\xbc\xaf\x27\x1c" + rng.randbytes(50), b"PK", b"\x1f\x8b", rng.randbytes(600)])
        elif x == "empty":
            ans["body"] = b""
        elif x in ("drop", "short"):
            ans["how"] = x
        elif x == "cut":
            # Cut where it must show: in compressed data, or in the directory of a ZIP file
            if comp == "":
                ans["body"] = body[:300]
            elif comp in ("gz", "bz2", "xz"):
                ans["body"] = body[: rng.randint(1, max(1, len(body) * 2 // 3))]
                new = {"gz": lambda: zlib.decompressobj(31), "bz2": bz2.BZ2Decompressor, "xz": lzma.LZMADecompressor}[comp]
                if len(new().decompress(ans["body"])) >= len(new().decompress(body).rstrip(b"\0")):
                    # Only the padding is missing.
                    kind = "maybe"
            else:
                ans["body"] = body[: rng.randint(1, len(body) - 23)]
        elif x == "loop":
            ans["how"], ans["to"] = "redirect", "SELF"
        else:
            ans["how"] = "drop"
    elif kind == "maybe":
        b = bytearray(body)
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 3, 20])):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        else:
            # A damaged block that leaves the beginning and the end alone
            a = rng.randint(len(b) // 5, max(len(b) // 5, len(b) * 2 // 3))
            e = min(a + rng.choice([4, 30, 200]), len(b) * 4 // 5)
            b[a:e] = rng.randbytes(max(0, e - a))
        ans["body"] = bytes(b)
    spec = {"kind": kind, "type": typ, "sha": hashlib.sha256(ans["body"]).hexdigest(),
            "members": [{k: m[k] for k in ("t", "p", "v", "x")} for m in ms]}
    return {"spec": spec, "_": ans}


def tree_of(root: Path, skip: tuple[str, ...] = ()) -> list[dict[str, Any]]:
    out = []
    for dp, dn, fn in os.walk(root):
        rel = [] if Path(dp) == root else list(Path(dp).relative_to(root).parts)
        if not rel:
            dn[:] = [d for d in dn if d not in skip]
        for d in dn + fn:
            p = Path(dp) / d
            st = p.lstat()
            if stat.S_ISLNK(st.st_mode):
                out.append({"t": "l", "p": rel + [d], "v": os.readlink(p).split("/"), "x": False})
            elif stat.S_ISDIR(st.st_mode):
                out.append({"t": "d", "p": rel + [d], "v": [], "x": False})
            elif not stat.S_ISREG(st.st_mode):
                out.append({"t": "s", "p": rel + [d], "v": [], "x": False})
            else:
                out.append({"t": "f", "p": rel + [d], "v": [h(p.read_bytes())], "x": bool(st.st_mode & 0o100)})
    return out


def world(scratch: Path, mine: Path) -> dict[str, str]:
    """Everything but the directories of the fetchers."""
    out = {}
    for dp, dn, fn in os.walk(scratch):
        if Path(dp) == mine:
            dn[:] = []
        for f in dn + fn:
            p = Path(dp) / f
            out[str(p.relative_to(scratch))] = "d" if p.is_dir() and not p.is_symlink() else h(p.read_bytes()) if p.is_file() else "?"
    return out


def run_http(job: dict[str, Any]) -> dict[str, Any]:
    """Runs a history of fetchers on the real code."""
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

    srv = web()
    scratch = Path(job["scratch"])
    mine = scratch / "l1" / "l2" / "l3" / "tmp"
    mine.mkdir(parents=True)
    (scratch / "victim").write_text("victim")
    old_tmp = tempfile.tempdir
    tempfile.tempdir = str(mine)
    fetchers: dict[int, Any] = {}
    own: dict[int, Path] = {}
    steps = []
    w = world(scratch, mine)
    try:
        for e in job["steps"]:
            f = e["f"]
            ret, obs = "ok", {}
            if e["op"] == "new":
                before = set(mine.iterdir())
                fetchers[f] = HttpArtifactFetcher(job["names"][f - 1], srv.base + job["paths"][f - 1])
                made = list(set(mine.iterdir()) - before)
                own[f] = made[0] if len(made) == 1 else Path("/nonexistent")
                obs = {"private": len(made) == 1 and made[0].is_dir() and made[0].stat().st_mode & 0o077 == 0}
            elif e["op"] == "drop":
                del fetchers[f]
                gc.collect()
                obs = {"gone": not own[f].exists()}
            else:
                x = fetchers[f]
                if e["op"] == "fetch":
                    path = job["paths"][f - 1].split("#")[0]
                    a = dict(job["responses"][e["resp"] - 1]["_"])
                    srv.answers = {path: a}
                    if a["how"] == "redirect":
                        to = path if a.get("to") == "SELF" else "/elsewhere/data"
                        srv.answers[path] = {**a, "to": to}
                        if to != path:
                            srv.answers[to] = {"how": "plain", "body": a["body"]}

                def call(x: Any = x, e: Any = e) -> Any:
                    match e["op"]:
                        case "fetch":
                            return x.fetch()
                        case "path":
                            return x.get_path_to_source_code()
                        case "sha":
                            return x.get_archive_sha256()
                        case "type":
                            return x.get_archive_type().name
                        case _:
                            return str(x)

                try:
                    v = call()
                    if e["op"] == "path":
                        obs = {"tree": tree_of(v), "inside": own[f] in v.resolve().parents or own[f] == v.resolve()}
                    else:
                        obs = {"v": str(v)}
                except Exception as ex:  # pylint: disable=broad-exception-caught
                    ret = exc_name(ex)
                x = call = None  # type: ignore[assignment]
            w2 = world(scratch, mine)
            stray = sorted(k for k in set(w) | set(w2) if w.get(k) != w2.get(k))
            stray += sorted(str(p) for p in mine.iterdir() if p not in own.values())
            for k, p in own.items():
                if e["f"] == k and e["op"] == "fetch" and ret == "ok":
                    # Next to the sources there is the archive only.
                    src = fetchers[k].get_path_to_source_code()
                    stray += [str(q) for q in p.iterdir() if q != src and not (q.is_file() and hashlib.sha256(q.read_bytes()).hexdigest() == job["responses"][e["resp"] - 1]["spec"]["sha"])]
            steps.append({"op": e["op"], "f": f, "resp": e.get("resp", 1), "ret": ret, "obs": obs, "outside": stray})
        return {"n": len(job["names"]), "names": job["names"], "paths": job["paths"], "responses": [r["spec"] for r in job["responses"]], "steps": steps}
    finally:
        tempfile.tempdir = old_tmp
        fetchers.clear()
        gc.collect()
        shutil.rmtree(scratch, ignore_errors=True)


PATHS = ["/p/src-1.0.tar.gz", "/a.zip", "/download", "/x/v1.0", "/a/b.tar.bz2?x=1&y=/z", "/a%20b.tgz", "/q/a.7z#frag", "/dir/", "/%C3%BC.tar.xz",
         "/r/src.tar", "/r/pkg-1.0-py3-none-any.whl", "/r/a.conda", "/s/a.tar.gz?sig=" + "s" * 300]
PKG_NAMES = ["foo", "foo_0", "foo-bar_1", "Unknown Recipe", "f.o"]


def http_history(seed: str) -> dict[str, Any]:
    rng = random.Random(seed)
    scratch = Path(tempfile.mkdtemp(prefix="crm-http-"))
    n = rng.choice([1, 1, 2, 3])
    paths = [rng.choice(PATHS) for _ in range(n)]
    responses = []
    for _ in range(rng.randint(1, 4)):
        last = paths[0].split("#")[0].split("?")[0].rstrip("/").split("/")[-1]
        responses.append(gen_response(rng, last, scratch))
    steps: list[dict[str, Any]] = []
    alive: set[int] = set()
    unborn = list(range(1, n + 1))
    for _ in range(rng.randint(4, 12)):
        ops = (["new"] if unborn else []) * (3 if not alive else 1)
        if alive:
            ops += ["fetch"] * 4 + ["path", "path", "sha", "type", "str"] + (["drop"] if rng.random() < 0.15 else [])
        if not ops:
            break
        op = rng.choice(ops)
        if op == "new":
            f = unborn.pop(0)
            alive.add(f)
        else:
            f = rng.choice(sorted(alive))
            if op == "drop":
                alive.discard(f)
        steps.append({"op": op, "f": f, "resp": rng.randint(1, len(responses))})
        if op == "fetch":
            for o in rng.sample(["path", "sha", "type"], rng.randint(0, 3)):
                steps.append({"op": o, "f": f})
    for f in sorted(alive):
        steps.append({"op": "drop", "f": f})
    return run_http({"scratch": str(scratch), "names": [rng.choice(PKG_NAMES) for _ in range(n)], "paths": paths, "responses": responses, "steps": steps})


def _mc_history(job: tuple[list[dict[str, Any]], int]) -> dict[str, Any]:
    hist, n = job
    scratch = Path(tempfile.mkdtemp(prefix="crm-http-"))
    steps = [{"op": "new", "f": f} for f in range(1, n + 1)] + hist + [{"op": "drop", "f": f} for f in range(1, n + 1)]
    return run_http({"scratch": str(scratch), "names": ["foo"] * n, "paths": ["/a/src.tar.gz"] * n, "responses": _MC, "steps": steps})


_MC: list[dict[str, Any]] = []


def _judge_traces(ctx: Ctx, traces: list[dict[str, Any]], chunk: int = 500) -> None:
    for c in range(0, len(traces), chunk):
        part = traces[c : c + chunk]
        f = write_json(ctx.scratch / f"traces-{c}.json", {"traces": part})
        r = tlc(ctx, "FetchTrace", env={"TRACE_FILE": str(f)})
        f.unlink()
        for tg, x in r["records"]:
            if tg == "FAIL":
                t = part[x["tr"] - 1]
                e = t["steps"][x["i"] - 1]
                ctx.fail(f"step {x['i']} ({e['op']} of fetcher {e['f']} on {t['paths'][e['f'] - 1]}): {x['cl']} is wrong: returned {e['ret']}, {e['obs']}, "
                         f"changed {e['outside']}; response {t['responses'][e['resp'] - 1]}", {"trace": t, "spec": x})
        want = sum(len(t["steps"]) + 1 for t in part)
        if r["distinct"] != want and not r["records"]:
            raise RuntimeError(f"FetchTrace: {r['distinct']} states for {want}")
    ctx.traces += len(traces)
    ctx.evaluations += sum(len(t["steps"]) for t in traces)


def check_C23(ctx: Ctx) -> None:
    ctx.rules.append("Every fetch counts; told apart by the response of the server and what was fetched before.")
    ctx.assumptions += ["archives are served by a local HTTP server", "the temporary directory is a scratch directory, deep enough for an escape to stay in it"]
    rng = random.Random(f"{ctx.seed}:C23mc")
    _MC.clear()
    good = [gen_response(rng, "src.tar.gz", ctx.scratch, ["ok"]) for _ in range(2)]
    _MC.extend(good + [gen_response(rng, "src.tar.gz", ctx.scratch, ["fails"])])
    # TLC's comparison of the responses of the model needs different ones.
    n, depth = (1, ctx.pick(4, 5))
    hists: list[Any] = []
    for n, depth in [(1, ctx.pick(4, 5)), (2, ctx.pick(2, 3))]:
        f = write_json(ctx.scratch / "mc.json", {"responses": [r["spec"] for r in _MC], "depth": depth, "n": n})
        r = tlc(ctx, "FetchMC", env={"MC_FILE": str(f)}, expect_violation=True)
        if r["violated"]:
            raise RuntimeError(f"the specification breaks its own properties: {r['violated']}")
        uniq = {json.dumps(x): x for tg, x in r["records"] if tg == "B"}
        hists += [(x, n) for x in uniq.values()]
    ctx.extra["replayed_behaviours"] = len(hists)
    ctx.extra["exhaustive_scope"] = "all histories of fetches (two archives, one failure) and reads of one fetcher up to a depth of 4 (thorough 5), of two up to 2 (3)"
    traces = pmap(_mc_history, hists, 16)
    _judge_traces(ctx, traces, 1500)
    rand = pmap(http_history, [f"{ctx.seed}:C23:{i}" for i in range(ctx.pick(400, 8000))])
    _judge_traces(ctx, rand)
    for t in rand + traces:
        hist: list[Any] = []
        for e in t["steps"]:
            if e["op"] == "fetch":
                hist.append([e["f"], t["responses"][e["resp"] - 1]])
                ctx.nontriv(hist)
    ctx.sample({"paths": rand[0]["paths"], "steps": [[e["op"], e["f"], e["ret"]] for e in rand[0]["steps"]]})


# ---- git ----
GIT_ENV = {"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a",
           "GIT_COMMITTER_EMAIL": "a@x", "GIT_TERMINAL_PROMPT": "0", "GIT_AUTHOR_DATE": "2024-01-01T00:00:00Z", "GIT_COMMITTER_DATE": "2024-01-01T00:00:00Z"}


def git(root: Path, *args: str) -> str:
    return subprocess.run(["git", *args], cwd=root, env={**os.environ, **GIT_ENV}, capture_output=True, text=True, check=True).stdout.strip()


def make_repo(rng: random.Random, root: Path) -> dict[str, Any]:
    """A random repository and what the specification needs to know of it."""
    root.mkdir()
    git(root, "init", "-q", "-b", "main")
    commits: list[list[dict[str, Any]]] = []
    shas: list[str] = []
    cur: dict[str, tuple[str, bool]] = {}
    branches: dict[str, int] = {}
    tags: dict[str, int] = {}
    names = ["a.txt", "src/b.py", "src/sub/c.txt", "docs/x", "docs/y", "v2.0", "é"]

    def commit() -> int:
        n = len(commits)
        cur["id.txt"] = (f"commit {n}", False)
        for p in rng.sample(names, rng.randint(0, 3)):
            if p in cur and rng.random() < 0.3:
                del cur[p]
                (root / p).unlink()
            else:
                cur[p] = (f"{p} {n} {rng.random()}", rng.random() < 0.2)
        for p, (data, x) in cur.items():
            (root / p).parent.mkdir(parents=True, exist_ok=True)
            (root / p).write_text(data)
            (root / p).chmod(0o755 if x else 0o644)
        git(root, "add", "-A")
        git(root, "commit", "-q", "-m", f"c{n}")
        shas.append(git(root, "rev-parse", "HEAD"))
        commits.append([{"p": p.split("/"), "v": [h(d.encode())], "x": x} for p, (d, x) in sorted(cur.items())])
        return n

    bnames = ["dev", "feature/x", "1.0.x", "docs", "release-2"]
    tnames = ["v1.0", "1.2.3", "v2.0", "src", "rel/3"]
    rng.shuffle(bnames)
    rng.shuffle(tnames)
    for _ in range(rng.randint(1, 3)):
        branches["main"] = commit()
    main_state = dict(cur)
    for b in bnames[: rng.randint(0, 3)]:
        git(root, "checkout", "-q", "-f", "-b", b)
        for _ in range(rng.randint(1, 2)):
            branches[b] = commit()
        if rng.random() < 0.7:
            git(root, "checkout", "-q", "-f", "main", "--")
            git(root, "clean", "-qfdx")
            cur = dict(main_state)
    for t in tnames[: rng.randint(0, 3)]:
        n = rng.randrange(len(commits))
        tags[t] = n
        if rng.random() < 0.5:
            git(root, "tag", t, shas[n])
        else:
            git(root, "tag", "-a", "-m", "tag", t, shas[n])
    head_branch = rng.choice(sorted(branches))
    git(root, "checkout", "-q", "-f", head_branch, "--")
    git(root, "clean", "-qfdx")
    revs: dict[str, int] = {}
    for n, s in enumerate(shas):
        revs[s] = n
        revs[s[:10]] = n
    revs.update(tags)
    return {"path": str(root), "commits": commits, "shas": shas, "branches": branches, "tags": tags, "revs": revs, "head": branches[head_branch]}


def spec_repo(r: dict[str, Any], missing: bool = False) -> dict[str, Any]:
    one = lambda d: {k: v + 1 for k, v in d.items()} or {"": 0}  # noqa: E731
    return {"commits": r["commits"], "branches": one(r["branches"]), "tags": one(r["tags"]), "revs": one(r["revs"]), "head": r["head"] + 1, "missing": missing}


def gen_target(rng: random.Random, r: dict[str, Any]) -> dict[str, str]:
    """Conflicting targets are frequent: the one that counts decides."""
    t = {"tag": "", "rev": "", "branch": ""}
    if rng.random() < 0.25:
        # Branches that exist in the remote repository only, some of them named as a file
        t["branch"] = rng.choice(sorted(r["branches"]) + [b for b in r["branches"] if b == "docs"] * 3)
        return t
    if rng.random() < 0.45:
        t["tag"] = rng.choice(sorted(r["tags"]) * 4 + ["nope"])
    if rng.random() < 0.45:
        t["rev"] = rng.choice(sorted(r["revs"]) * 2 + ["0" * 40, "nope"])
    if rng.random() < 0.45:
        t["branch"] = rng.choice(sorted(r["branches"]) * 4 + ["nope"])
    return t


def git_cases(seed: str) -> list[dict[str, Any]]:
    from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher

    os.environ.update(GIT_ENV)
    rng = random.Random(seed)
    scratch = Path(tempfile.mkdtemp(prefix="crm-git-"))
    old = tempfile.tempdir
    (scratch / "tmp").mkdir()
    tempfile.tempdir = str(scratch / "tmp")
    out = []
    try:
        r = make_repo(rng, scratch / "re po")
        for _ in range(8):
            t = gen_target(rng, r)
            missing = rng.random() < 0.08
            url = r["path"]
            dirty = False
            if missing:
                url = rng.choice([str(scratch / "none"), "file://" + str(scratch / "none"), str(scratch / "empty")])
                (scratch / "empty").mkdir(exist_ok=True)
            elif rng.random() < 0.5:
                url = "file://" + url
            elif any(t.values()) and rng.random() < 0.4:
                dirty = True
                (scratch / "re po" / "id.txt").write_text("changed by hand")
                (scratch / "re po" / "untracked").write_text("new")
            before = world(scratch / "re po", scratch)
            kw = {k: v for k, v in t.items() if v}

            def read(f: Any) -> tuple[str, list[Any]]:
                try:
                    return "ok", tree_of(f.get_path_to_source_code(), (".git",))
                except Exception as ex:  # pylint: disable=broad-exception-caught
                    return exc_name(ex), []

            f = GitArtifactFetcher("foo", url, **kw)
            b, _x = read(f)
            try:
                f.fetch()
                ret = "ok"
            except Exception as ex:  # pylint: disable=broad-exception-caught
                ret = exc_name(ex)
            after, tree = read(f)
            del f
            gc.collect()
            same = world(scratch / "re po", scratch) == before and not list((scratch / "tmp").iterdir())
            out.append({"kind": "git", "repo": spec_repo(r, missing), "target": t, "dirty": dirty, "url": url,
                        "obs": {"before": b, "ret": ret, "after": after, "tree": tree, "same": same}})
            if dirty:
                git(scratch / "re po", "checkout", "-q", "-f", "HEAD", "--", ".")
                (scratch / "re po" / "untracked").unlink()
        return out
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


# ---- sources of recipes ----
def recipe_cases(seed: str) -> list[dict[str, Any]]:
    os.environ.update(GIT_ENV)
    rng = random.Random(seed)
    scratch = Path(tempfile.mkdtemp(prefix="crm-src-"))
    old = tempfile.tempdir
    (scratch / "tmp").mkdir()
    tempfile.tempdir = str(scratch / "tmp")
    try:
        repos = [make_repo(rng, scratch / f"repo{i}") for i in range(2)]
        tbl = {}
        for r in repos:
            tbl[r["path"]] = tbl["file://" + r["path"]] = spec_repo(r)
        tbl["file://" + str(scratch / "none")] = spec_repo(repos[0], True)
        return [recipe_case(rng, repos, tbl, scratch) for _ in range(12)]
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


def recipe_case(rng: random.Random, repos: list[dict[str, Any]], tbl: dict[str, Any], scratch: Path) -> dict[str, Any]:
    from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    srv = web()
    srv.answers, srv.seen = {}, []
    ver = rng.randint(0, 1)
    variables: dict[str, str] = {"name": "foo", "version": "1.2.3"}
    used: set[str] = set()

    def var(v: str) -> str:
        used.add(v)
        return ("{{ %s }}" if ver == 0 else "${{ %s }}") % v

    def cm() -> str:
        x = rng.random()
        return "  # [win]" if x < 0.08 else "  # note" if x < 0.16 else ""

    def url() -> tuple[str, str]:
        a = rng.choice(["src", var("name")])
        b = rng.choice(["-2.tar.gz", "-" + var("version") + ".tar.gz", "/archive/v" + var("version")])
        t = f"{srv.base}/{rng.randrange(10**6)}/{a}{b}"
        v = t
        for k, x in variables.items():
            v = v.replace(("{{ %s }}" if ver == 0 else "${{ %s }}") % k, x)
        path = v[len(srv.base):]
        srv.answers[path] = {"how": "plain", "body": make_tar([member("f", ["url.txt"], data=v.encode())], "gz", tarfile.GNU_FORMAT, "x")}
        return t, v

    def source() -> list[tuple[str, str, str]]:
        """Fields: key, text, meaning"""
        kind = rng.choices(["http", "git", "both", "path", "text"], [4, 5, 1, 1, 0.3])[0]
        fs: list[tuple[str, str, str]] = []
        if kind in ("http", "both"):
            fs.append(("url", *url()))
            fs.append(("sha256", "ab" * 32, "ab" * 32))
        if kind in ("git", "both"):
            r = rng.choice(repos)
            u = rng.choice([r["path"], "file://" + r["path"]])
            if rng.random() < 0.05:
                u = "file://" + str(scratch / "none")
            key = (lambda k: k) if ver == 0 else (lambda k: {"git_url": "git"}.get(k, k[4:]))
            fs.append((key("git_url"), u, u))
            t = gen_target(rng, r)
            for k, v in t.items():
                if v:
                    fs.append((key("git_" + k), v, v))
        if kind == "path":
            fs.append((rng.choice(["path", "svn_url", "hg_url", "fn"] if ver == 0 else ["path"]), "../x", "../x"))
        if kind == "text":
            return []
        if rng.random() < 0.3:
            fs.append(("folder", "x", "x"))
        # Names of the other version mean nothing.
        if kind == "path" and rng.random() < 0.3:
            fs.append(("git" if ver == 0 else "git_url", repos[0]["path"], repos[0]["path"]))
        rng.shuffle(fs)
        return fs

    name = rng.choices(["foo", "bar-2", "var", ""], [3, 2, 3, 0.6])[0]
    lines: list[str] = []
    srcs: list[list[tuple[str, str, str]]] = []
    x = rng.random()
    is_list = True
    body: list[str] = []
    if x < 0.45:
        is_list = False
        srcs = [source()]
        if srcs[0]:
            body.append("source:" + cm())
            body += [f"  {k}: {t}{cm()}" for k, t, _v in srcs[0]]
        else:
            body.append("source: text")
    elif x < 0.95:
        body.append("source:" + cm())
        for _ in range(rng.randint(1, 4)):
            s = source()
            if rng.random() < 0.15:
                body.append("  # a comment")
            srcs.append(s)
            if s:
                body += [("  - " if i == 0 else "    ") + f"{k}: {t}{cm()}" for i, (k, t, _v) in enumerate(s)]
            else:
                body.append("  - text")
    multi = rng.random() < 0.2
    key = ("recipe" if ver == 1 and multi else "package") if rng.random() < 0.93 else rng.choice(["recipe", "package"])
    if name:
        n = var("name") if name == "var" else name
        lines += [f"{key}:", f"  name: {n}", "  version: 1.2.3"]
    blocks = [lines, body, ["build:", "  number: 0"]]
    if multi:
        blocks.append(["outputs:"] + (["  - name: out"] if ver == 0 else ["  - package:", "      name: out"]))
    rng.shuffle(blocks)
    head = []
    if ver == 1:
        head = ["schema_version: 1"] + (["context:"] + [f"  {v}: {variables[v]}" for v in sorted(used)] if used else [])
    else:
        head = ['{% set ' + v + ' = "' + variables[v] + '" %}' for v in sorted(used)]
    text = "\n".join(head + [ln for b in blocks for ln in b]) + "\n"
    ignore = rng.random() < 0.6
    obs: dict[str, Any] = {"ret": "ok", "lazy": True, "sources": []}
    try:
        m = from_recipe(rng.choice([RecipeParser, RecipeReader])(text), *([ignore] if ignore or rng.random() < 0.5 else []))
        obs["lazy"] = not srv.seen and not any(any(d.iterdir()) for d in (scratch / "tmp").iterdir())
        for p, f in m.items():
            got: dict[str, Any] = {"ret": "ok", "what": "", "v": "", "n": 0}
            try:
                f.fetch()
                root = f.get_path_to_source_code()
                if (root / "url.txt").exists():
                    got.update(what="http", v=(root / "url.txt").read_text())
                else:
                    got.update(what="git", n=int((root / "id.txt").read_text().split()[-1]) + 1)
                    if not any(str(r["path"]) for r in repos):
                        got["what"] = "?"
            except Exception as ex:  # pylint: disable=broad-exception-caught
                got.update(ret=exc_name(ex), what="git")
            obs["sources"].append({"path": p, "name": str(f), "got": got})
    except Exception as ex:  # pylint: disable=broad-exception-caught
        obs["ret"] = exc_name(ex)
    finally:
        m = f = None  # type: ignore[assignment]
        gc.collect()
    full = {"foo": "foo", "bar-2": "bar-2", "var": "foo", "": ""}[name]
    return {"kind": "recipe", "ver": ver, "names": {"package": full if key == "package" else "", "recipe": full if key == "recipe" else ""}, "multi": multi, "sources": [[{"k": k, "v": v} for k, _t, v in s] for s in srcs], "is_list": is_list, "ignore": ignore,
            "repos": tbl, "obs": obs, "text": text}


def check_C24(ctx: Ctx) -> None:
    ctx.rules.append("Every fetch from a repository and every recipe counts; told apart by the repository and target, or the text of the recipe and the option.")
    ctx.assumptions += ["git is installed", "sources are local repositories and a local HTTP server"]
    gits = [c for cs in pmap(git_cases, [f"{ctx.seed}:C24g:{i}" for i in range(ctx.pick(40, 600))], 1) for c in cs]
    recs = [c for cs in pmap(recipe_cases, [f"{ctx.seed}:C24r:{i}" for i in range(ctx.pick(30, 500))], 1) for c in cs]

    def describe(c: dict[str, Any]) -> str:
        if c["kind"] == "git":
            return f"fetch from {c['url']} (branches {c['repo']['branches']}, tags {c['repo']['tags']}, head {c['repo']['head']}), target {c['target']}, dirty {c['dirty']}: {c['obs']}"
        return f"from_recipe, ignore unsupported {c['ignore']}: {c['obs']} from {c['text']!r}"

    judge(ctx, "FetchCases", gits + recs, describe, chunk=400)
    for c in gits:
        ctx.nontriv([c["repo"], c["target"], c["url"].startswith("file:"), c["dirty"]])
    for c in recs:
        ctx.nontriv([c["text"], c["ignore"]])
    ctx.sample({"target": gits[0]["target"], "tags": gits[0]["repo"]["tags"], "result": gits[0]["obs"]["ret"]})
    ctx.sample({"recipe": recs[0]["text"], "sources": recs[0]["obs"]["sources"]})
    known_C24(ctx)


def known_C24(ctx: Ctx) -> None:
    from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
    from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher
    from conda_recipe_manager.parser.recipe_reader import RecipeReader
    from harness.c_recipe import probe

    srv = web()
    body = make_tar([member("f", ["a"], data=b"a")], "gz", tarfile.GNU_FORMAT, "x")
    srv.answers = {"/m/a.tar.gz": {"how": "plain", "body": body}}

    def mirrors() -> Any:
        t = f"package:\n  name: foo\nsource:\n  url:\n    - {srv.base}/m/a.tar.gz\n    - {srv.base}/n/a.tar.gz\n"
        f = from_recipe(RecipeReader(t))["/source"]
        f.fetch()
        return f.get_archive_sha256()  # type: ignore[attr-defined]

    probe(ctx, "KF-mirrors", "a list of mirrors is fetched from the first that answers", mirrors, hashlib.sha256(body).hexdigest())
    os.environ.update(GIT_ENV)
    r = make_repo(random.Random(1), ctx.tmp("known") / "r")

    def again() -> Any:
        f = GitArtifactFetcher("foo", "file://" + r["path"])
        f.fetch()
        f.fetch()
        return "ok"

    probe(ctx, "KF-git-again", "a remote repository can be fetched again", again, "ok")
