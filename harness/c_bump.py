"""bump-recipe, with a local HTTP server as the network."""

from __future__ import annotations

import gzip
import hashlib
import io
import random
import re
import shutil
import tarfile
import tempfile
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from typing import Any, Optional

from harness.c_commands import PARSE_ERRORS, invoke, procs, snapshot
from harness.common import Ctx, judge
from harness.recipe_gen import NOM, Gen, Node, node, refs_table, strip_src


def tarball(seed: str) -> bytes:
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        d = f"content of {seed}".encode()
        i = tarfile.TarInfo("src/file.txt")
        i.size = len(d)
        t.addfile(i, io.BytesIO(d))
    return gzip.compress(raw.getvalue(), mtime=0)


class Server:
    """Serves an archive at every path. A path can fail a number of times before it answers."""

    def __init__(self) -> None:
        self.fails: dict[str, int] = {}
        self.how = "garbage"
        self.seen: dict[str, int] = {}
        self.bodies: dict[str, bytes] = {}
        self.lock = threading.Lock()
        outer = self

        class H(BaseHTTPRequestHandler):
            def do_GET(self) -> None:  # noqa: N802
                with outer.lock:
                    outer.seen[self.path] = outer.seen.get(self.path, 0) + 1
                    bad = outer.seen[self.path] <= outer.fails.get(self.path, 0)
                if bad and outer.how == "drop":
                    self.close_connection = True
                    return
                body = outer.bodies.get(self.path, b"")
                if not body:
                    body = tarball(self.path)
                if bad:
                    body = b"<html>not here</html>" if outer.how != "short" else body[: len(body) // 2]
                self.send_response(404 if bad and outer.how == "404" else 200)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *_a: Any) -> None:
                pass

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.base = f"http://127.0.0.1:{self.srv.server_address[1]}"
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def reset(self) -> None:
        self.fails, self.seen, self.how, self.bodies = {}, {}, "garbage", {}


_SERVER: Optional[Server] = None


def server() -> Server:
    global _SERVER
    if _SERVER is None:
        _SERVER = Server()
    return _SERVER


VERSIONS = ["2.0.1", "1.10.0rc1", "2024.1.0", "0.9.9", "3.0.0.post1", "1.2.3"]


class BGen(Gen):
    """Recipes as bump-recipe meets them."""

    def s(self, k: str, src: str, v: Optional[str] = None, r: Optional[str] = None) -> Node:
        n = node("sca", k, v or "s:" + src, r or src, self.m())
        n["src"] = src
        return n

    def use(self, var: str) -> str:
        return ("{{ %s }}" if self.ver == 0 else "${{ %s }}") % var

    def bump_state(self, base: str) -> dict[str, Any]:
        rng = self.rng
        has = {v for v in ["name", "version"] if rng.random() < 0.6}
        hv = rng.choice([[], [], ["sha256"], ["sha256"], ["hash"], ["hash_val"], ["hash_value"], ["sha256", "hash_val"]])
        vals = {"name": "foo", "version": rng.choice(["1.2.3", "0.1.0"]), **{h: "0a" * 32 for h in hv}}
        names = [v for v in ["name", "version"] if v in has] + hv
        rng.shuffle(names)
        if rng.random() < 0.2:
            names.append("other")
            vals["other"] = "x"
        self.urls: dict[str, list[dict[str, Any]]] = {}
        self.templates: list[list[dict[str, Any]]] = []
        gi = 0

        def url() -> str:
            nonlocal gi
            gi += 1
            segs = [{"var": False, "s": f"{base}/{gi}/"}]
            for v in rng.sample(["name", "version"], rng.choice([0, 1, 2, 2])):
                segs.append({"var": True, "s": v} if v in has else {"var": False, "s": vals[v]})
                segs.append({"var": False, "s": rng.choice(["-", "/", "_v"])})
            segs.append({"var": False, "s": rng.choice(["a.tar.gz", "pkg-src.tgz", "x"])})
            t = "".join(self.use(g["s"]) if g["var"] else g["s"] for g in segs)
            self.urls["s:" + t] = segs
            return t

        def one() -> list[Node]:
            kind = rng.choices(["http", "git", "path", "none"], [8, 1.2, 0.8, 0.3])[0]
            c = []
            if kind == "http":
                c.append(self.s("url", url()))
                x = rng.random()
                if x < 0.5 and hv:
                    c.append(self.s("sha256", self.use(rng.choice(hv))))
                elif x < 0.85:
                    c.append(self.s("sha256", "ab" * 32))
                elif x < 0.9:
                    n = node("nul", "sha256", m=self.m())
                    n["src"] = ""
                    c.append(n)
                if rng.random() < 0.15:
                    c.append(self.s("git_url" if self.ver == 0 else "git", "https://example.com/a.git"))
            elif kind == "git":
                c.append(self.s("git_url" if self.ver == 0 else "git", "https://example.com/a.git"))
                c.append(self.s("git_tag" if self.ver == 0 else "tag", "v1"))
            elif kind == "path":
                c.append(self.s("path", "../x"))
                if rng.random() < 0.5:
                    c.append(self.s("sha256", "cd" * 32))
            else:
                c.append(self.s("folder", "x"))
            if rng.random() < 0.3:
                c.append(node("seq", "patches", m=self.m(), c=[self.s("", "0001-a.patch")]))
            rng.shuffle(c)
            return c

        def kids(c: list[Node]) -> list[Node]:
            out: list[Node] = []
            for i, x in enumerate(c):
                if i and rng.random() < self.p_full:
                    out.append(node("com", r="# a comment"))
                out.append(x)
            return out

        top: list[Node] = []
        x = rng.random()
        if x < 0.95:
            c = [self.s("name", self.use("name") if "name" in has and rng.random() < 0.8 else "foo")]
            if rng.random() < 0.9:
                c.append(self.s("version", self.use("version") if "version" in has and rng.random() < 0.8 else vals["version"]))
            elif rng.random() < 0.3:
                n = node("nul", "version", m=self.m())
                n["src"] = ""
                c.append(n)
            top.append(node("map", "package", m=self.m(), c=kids(c)))
        elif x < 0.97:
            top.append(self.s("package", "foo"))
        x = rng.random()
        if x < 0.6:
            top.append(node("map", "source", m=self.m(), c=kids(one())))
        elif x < 0.9:
            top.append(node("seq", "source", m=self.m(), c=kids([node("map", c=kids(one())) for _ in range(rng.randint(1, 3))])))
        x = rng.random()
        if x < 0.9:
            c = []
            y = rng.random()
            if y < 0.65:
                num = str(rng.choice([0, 1, 3, 9, 41, 99, 199, 1000, -1, -4]))
                c.append(self.s("number", num, "i:" + num))
            elif y < 0.72:
                c.append(self.s("number", self.use("build")))
            elif y < 0.76:
                c.append(self.s("number", *rng.choice([("1.5", "f:1.5"), ("true", "b:true")])))
            elif y < 0.8:
                n = node("nul", "number", m=self.m())
                n["src"] = ""
                c.append(n)
            if rng.random() < 0.7 or not c:
                c.append(self.s("script", "make install"))
            rng.shuffle(c)
            top.append(node("map", "build", m=self.m(), c=kids(c)))
        elif x < 0.94:
            top.append(node("nul", "build", m=self.m()))
        elif x < 0.96:
            top.append(self.s("build", "foo"))
        for k in rng.sample(["requirements", "about", "extra"], rng.randint(0, 2)):
            top.append(self.value(k, 2))
        if rng.random() < 0.4:
            rng.shuffle(top)
        vs = []
        pre: list[Node] = []
        if self.ver == 1:
            pre.append(node("sca", "schema_version", "i:1", "1"))
            if names:
                pre.append(node("map", "context", m=self.m(), c=[self.s(v, vals[v]) for v in names]))
        else:
            vs = [{"k": v, "v": "s:" + vals[v], "r": f'"{vals[v]}"'} for v in names]
        if not top:
            top.append(self.s("about", "x"))
        self.hv = hv
        self.has = has
        self.vals = vals
        return {"ver": self.ver, "root": node("map", c=pre + top), "vars": vs, "mod": False}


def bump_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.commands.bump_recipe import bump_recipe

    rng = random.Random(seed)
    srv = server()
    srv.reset()
    root = Path(tempfile.mkdtemp(prefix="crm-bump-"))
    try:
        g = BGen(rng, rng.randint(0, 1), comments=rng.choice([0.0, 0.15, 0.3]), jinja=0.0)
        st = g.bump_state(srv.base)
        text = g.text(st)
        if g.ver == 0 and "sha256:" in text and "hash" not in g.hv and rng.random() < 0.15:
            v = rng.choice(["hash_type", "hashtype", "hash"])
            text = "{% set " + v + ' = "sha256" %}\n' + re.sub(r"(?m)^(\s+(?:- )?)sha256:", rng.choice([r"\1{{ %s }}:" % v, r"\1'{{ %s }}':" % v]), text)
        target = rng.choice(VERSIONS + ["1.10", "3"] if g.ver == 0 and "version" in g.has else VERSIONS)
        has_target = rng.random() < 0.7
        build = rng.random() < (0.25 if has_target else 0.97)
        dry = rng.random() < 0.25
        interval = 2
        # All URLs that the recipe can mean
        sha: dict[str, str] = {}
        fails: dict[str, int] = {}
        srv.how = rng.choice(["garbage", "404", "drop", "short"])
        p_fail = rng.choice([0, 0, 0.3])
        for segs in g.urls.values():
            for ver in {target, g.vals["version"]}:
                u = "".join((ver if s["s"] == "version" else g.vals[s["s"]]) if s["var"] else s["s"] for s in segs)
                path = u[len(srv.base):]
                sha[u] = hashlib.sha256(tarball(path)).hexdigest()
                if rng.random() < p_fail:
                    fails[u] = rng.choice([1, 2, 4, 5, 9])
                    srv.fails[path] = fails[u]
        if set(fails.values()) & {2, 4} and rng.random() < 0.5:
            interval = 40
        what = rng.choices(["ok", "usage", "io", "parse"], [40, 1.2, 0.9, 0.5])[0]
        f = root / rng.choice(["recipe.yaml", "meta.yaml", "a b"])
        if what == "io":
            if rng.random() < 0.5:
                f.mkdir()
            else:
                f.write_bytes(b"package:\n  name: \xff\xfe\n")
        elif what == "parse":
            f.write_text(rng.choice(PARSE_ERRORS))
        else:
            f.write_text(text)
        args = [str(f)]
        opts = []
        if build:
            opts.append([rng.choice(["-b", "--build-num"])])
        if has_target:
            opts.append([rng.choice(["-t", "--target-version"]), target])
        if dry:
            opts.append([rng.choice(["-d", "--dry-run"])])
        opts.append([rng.choice(["-i", "--retry-interval"]), str(interval / 1000)])
        if what == "usage":
            bad = rng.choice(["none", "empty", "interval", "missing"])
            if bad == "none":
                opts = [o for o in opts if o[0] not in ("-b", "--build-num", "-t", "--target-version")]
            elif bad == "empty":
                opts.append(["-t", ""])
            elif bad == "interval":
                opts.append(["-i", rng.choice(["0", "-1", "x"])])
            else:
                args = [str(f) + "x"]
        elif not build and not has_target:
            what = "usage"
        rng.shuffle(opts)
        if what == "usage":
            # The last one of two equal options counts.
            opts.sort(key=lambda o: o[-1] in ("", "0", "-1", "x"))
        k = rng.randint(0, len(opts))
        args = sum(opts[:k], []) + args + sum(opts[k:], [])
        before = snapshot(root)
        t0 = time.monotonic()
        r = invoke(bump_recipe, args, root)
        ms = int((time.monotonic() - t0) * 1000)
        after = snapshot(root)
        obs = {
            "code": r["code"], "out": r["out"][:-1].split("\n"), "file": f.read_text(errors="replace").split("\n") if f.is_file() else [],
            "same": before[f.name] == after[f.name], "others": sorted(x for x in set(before) | set(after) if x != f.name), "ms": ms,
            "requests": [{"url": srv.base + p, "n": n} for p, n in sorted(srv.seen.items())],
        }
        return {"what": what, "init": strip_src(st), "build": build, "has_target": has_target, "target": target, "dry": dry, "interval": interval,
                "urls": g.urls or {"s:": []}, "sha": sha or {"": ""}, "fails": fails or {"": 0},
                "refs": refs_table() | {"s:" + g.use(v): [v] for v in ("sha256", "hash", "hash_val", "hash_value")},
                "obs": obs, "args": args, "source": text, "exc": r["exc"]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check_C22(ctx: Ctx) -> None:
    ctx.rules.append("Every run of the command counts; told apart by its arguments, the recipe and the behaviour of the network.")
    ctx.assumptions.append("The network is a local HTTP server that serves an archive per path and fails as often as the case says.")
    n = ctx.pick(500, 8000)
    for o in range(0, n, 2000):
        cases = procs(bump_case, [f"{ctx.seed}:C22:{i}" for i in range(o, min(n, o + 2000))])
        for c in cases:
            ctx.nontriv([c["args"], c["source"], c["fails"]])
        ctx.sample({"args": cases[0]["args"], "recipe": cases[0]["source"], "result": cases[0]["obs"]["code"]})
        judge(ctx, "BumpCases", cases, lambda c: f"bump-recipe {c['args']} ({c['what']}) on {c['source']!r}, failing downloads {c['fails']}: exit code "
                                                 f"{c['obs']['code']}, file {c['obs']['file']}, requests {c['obs']['requests']} {c['exc'][-300:]}", chunk=700)
    known_C22(ctx)


def known_C22(ctx: Ctx) -> None:
    from conda_recipe_manager.commands.bump_recipe import bump_recipe
    from harness.c_recipe import probe
    from harness.recipe_drive import independent_yaml

    def _number() -> Any:
        f = ctx.tmp("known") / "meta.yaml"
        f.write_text("package:\n  name: foo\n  version: 1.2.3\nbuild:\n  number: 0\n")
        invoke(bump_recipe, ["-t", "1.10", str(f)], f.parent)
        return str(independent_yaml(f.read_text())["package"]["version"])

    probe(ctx, "KF-bump-number", "the version 1.10 is read as it was given", _number, "1.10")
