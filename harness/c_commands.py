"""The commands that convert, patch and build recipe files."""

from __future__ import annotations

import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import shutil
import tempfile
import traceback
from pathlib import Path
from typing import Any, Callable

from harness import recipe_drive as rd
from harness import recipe_gen as rg
from harness.common import Ctx, Job, limit_memory, judge
from harness.c_convert import CGen
from harness.recipe_drive import guard

OK_RECIPE = "package:\n  name: foo\n  version: 1.2.3\nbuild:\n  number: {n}\nabout:\n  home: https://example.com\n  license: MIT\n  license_file: LICENSE\n  summary: s\n"
WARN_RECIPE = "package:\n  name: foo\nbuild:\n  number: {n}\nsource:\n  svn_url: https://x\nabout:\n  license: MIT\n"
ERR_RECIPE = "package:\n  name: foo\nbuild:\n  script: x\n  script_env:\n    - A=b=c{n}\nabout:\n  license: MIT\n  license_file: L\n"
ERR_WARN_RECIPE = ERR_RECIPE.replace("license: MIT", "license: foo bar baz")
V1_RECIPE = "schema_version: 1\n\npackage:\n  name: foo{n}\n"
PARSE_ERRORS = ["a:\n  b: [c\n", "package:\n  name: {% if x %}a{% endif %}\n", "a: @b\n", "k: {a: b\n"]


def procs(fn: Callable[[Any], Any], jobs: list[Any]) -> list[Any]:
    """Processes that may have processes of their own."""
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork"), initializer=limit_memory) as pool:
        try:
            return list(pool.map(Job(fn), jobs, chunksize=4))
        except Exception:
            pool.shutdown(wait=False, cancel_futures=True)
            raise


def snapshot(root: Path) -> dict[str, Any]:
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))}


def written(root: Path, before: dict[str, Any]) -> list[dict[str, str]]:
    out = []
    after = snapshot(root)
    for k in sorted(set(before) | set(after)):
        if k not in after:
            out.append({"path": k, "text": "<REMOVED>"})
        elif k not in before or before[k] != after[k]:
            out.append({"path": k, "text": "<DIR>" if after[k] is None else after[k].decode("utf-8", "replace").strip("\n")})
    return out


def invoke(cmd: Any, args: list[str], cwd: Path) -> dict[str, Any]:
    from click.testing import CliRunner

    old = os.getcwd()
    os.chdir(cwd)
    try:
        ok, r = guard(lambda: CliRunner().invoke(cmd, args), 120)
    finally:
        os.chdir(old)
    if not ok:
        return {"code": -1, "out": str(r), "err": str(r), "exc": str(r)}
    exc = ""
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        exc = "".join(traceback.format_exception(r.exception))[-1500:]
    return {"code": r.exit_code if not exc else -1, "out": r.stdout, "err": r.stderr, "exc": exc}


def text_of(f: Path) -> str:
    return f.read_text(errors="replace") if f.is_file() else "<not a file>"


# ---- convert ----
def faults() -> None:
    """Makes stages of the conversion fail for texts that ask for it. Only public functions are wrapped."""
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert as R

    if getattr(R, "_verif", False):
        return
    R._verif = True
    pre, ren = R.pre_process_recipe_text, R.render_to_v1_recipe_format

    def _pre(content: str) -> str:
        if "raise-pre" in content:
            raise RuntimeError("requested")
        return pre(content)

    def _ren(self: Any) -> Any:
        if "raise-render" in self.render():
            raise RuntimeError("requested")
        return ren(self)

    R.pre_process_recipe_text = staticmethod(_pre)
    R.render_to_v1_recipe_format = _ren


def outcome(data: bytes | None) -> dict[str, Any]:
    """What the library makes of a recipe."""
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.types import MessageCategory

    none: dict[str, Any] = {"errs": [], "warns": [], "content": ""}
    if data is None:
        return {"c": "read", **none}
    try:
        # As a text file is read
        text = data.decode("utf-8").replace("\r\n", "\n")
    except UnicodeDecodeError:
        return {"c": "read", **none}
    ok, text = guard(lambda: RecipeParserConvert.pre_process_recipe_text(text))
    if not ok:
        return {"c": "pre", **none}
    ok, p = guard(lambda: RecipeParserConvert(text))
    if not ok:
        return {"c": "parse", **none}
    if p.get_schema_version() != SchemaVersion.V0:
        return {"c": "v1", **none}
    ok, r = guard(p.render_to_v1_recipe_format)
    if not ok:
        return {"c": "render", **none}
    return {"c": "done", "content": r[0].strip("\n"), "errs": list(r[1].get_messages(MessageCategory.ERROR)),
            "warns": list(r[1].get_messages(MessageCategory.WARNING))}


def recipe_bytes(rng: random.Random, mostly: str) -> bytes | None:
    x = mostly if rng.random() < 0.7 else rng.choice(["ok", "warn", "err", "v1", "parse", "read", "pre", "render", "gen", "dir", "utf8"])
    n = rng.randint(0, 3)
    if x == "ok":
        return OK_RECIPE.replace("{n}", str(n)).encode()
    if x == "warn":
        return WARN_RECIPE.replace("{n}", str(n)).encode()
    if x == "err":
        return rng.choice([ERR_RECIPE, ERR_RECIPE, ERR_WARN_RECIPE]).replace("{n}", str(n)).encode()
    if x == "v1":
        return V1_RECIPE.replace("{n}", str(n)).encode()
    if x == "parse":
        return rng.choice(PARSE_ERRORS).encode()
    if x == "read":
        return b"package:\n  name: \xff\xfe\n"
    if x == "pre":
        return b"package:\n  name: raise-pre\n"
    if x == "render":
        return b"package:\n  name: raise-render\n"
    if x == "dir":
        return None
    if x == "utf8":
        return (OK_RECIPE.replace("{n}", "1") + "extra:\n  who: Jürgen Ünïcode 日本\n").encode()
    g = CGen(rng)
    return rg.Gen(rng).text(g.recipe()).encode()


def convert_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.commands.convert import convert

    faults()
    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="crm-conv-"))
    try:
        base = root / rng.choice(["feedstocks", "my recipes", "f"])
        base.mkdir()
        n = rng.choice([0, 1, 1, 1, 1, 2, 3, 4, 5, 7, 8, 11])
        mostly = rng.choice(["ok", "ok", "gen", "warn", "err"])
        files = []
        for i in range(n):
            d = base / rng.choice([f"r{i}", f"a/b{i}/recipe", f"x-{i} feedstock/recipe", f"same/{i}", f".hidden{i}"])
            d.mkdir(parents=True)
            data = recipe_bytes(rng, mostly)
            if data is None and n == 1:
                data = b"\xff"
            f = d / "meta.yaml"
            if data is None:
                f.mkdir()
            else:
                f.write_bytes(data)
            files.append({"path": str(f.relative_to(base)), **outcome(data)})
        # Files that are none of the command's business
        if rng.random() < 0.5:
            (base / "other").mkdir()
            (base / "other" / rng.choice(["meta.yml", "recipe.yaml.bak", "conda_build_config.yaml", "xmeta.yaml"])).write_text("a: 1\n")
            (base / "other" / rng.choice(["README.md", "keep.txt"])).write_text("x\n")
        args = []
        output = ""
        oname = rng.choice(["recipe.yaml", "recipe.yaml", "out.yaml", "new-recipe.yml"])
        if rng.random() < 0.5:
            output = oname
            args += [rng.choice(["-o", "--output"]), oname if n > 1 else str(root / oname)]
        minimum = 80
        if rng.random() < 0.7:
            good = sum(1 for f in files if f["c"] == "done" and not f["errs"])
            pct = round(100 * good / n) if n else 0
            minimum = rng.choice([0, 100, 50, pct, pct, min(100, pct + 1), max(0, pct - 1)])
            args += [rng.choice(["-m", "--min-success-rate"]), str(minimum / 100)]
        truncate = rng.random() < 0.3
        if truncate:
            args.append(rng.choice(["-t", "--truncate"]))
        if rng.random() < 0.15:
            args.append("-d")
        target = base
        if n == 1 and rng.random() < 0.6:
            target = base / files[0]["path"]
            if rng.random() < 0.3:
                new = target.with_name("some-recipe.txt")
                target.rename(new)
                target = new
        before = snapshot(root)
        rel = rng.random() < 0.3
        args.insert(rng.choice([0, len(args)]), str(target.relative_to(root)) if rel else str(target))
        r = invoke(convert, args, root)
        lines = [ln for ln in r["err"].split("\n") if ln.strip()]
        obs: dict[str, Any] = {"code": r["code"], "lines": lines, "written": written(root, before)}
        debug = "-d" in args
        if n <= 1:
            obs["out"] = r["out"].strip("\n")
            # Messages can be longer than a line.
            obs["warns"] = msgs(r["err"], "[WARNING]: ", files[0]["warns"] if n else [])
            obs["errs"] = msgs(r["err"], "[ERROR]: ", files[0]["errs"] if n else [])
            obs["name"] = any("recipe.yaml" in ln and "WARNING" in ln and "[WARNING]" not in ln for ln in lines)
            if debug and n:
                obs["lines"] = [ln for ln in lines if "found" in ln or "xcept" in ln.lower() or "ILLEGAL" in ln]
        else:
            obs |= bulk_obs(r["out"])
            for f in files:
                f["out"] = str((base / f["path"]).parent.relative_to(root) / oname)
        return {"kind": "convert", "files": files, "output": output, "base": oname, "min": minimum, "truncate": truncate,
                "directory": target.name if n else "", "args": args, "obs": obs, "exc": r["exc"], "stdout": r["out"][-1500:], "stderr": r["err"][-1500:]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def msgs(err: str, pre: str, want: list[str]) -> list[str]:
    """The messages of a category. What is expected only helps to find where a message that has several lines ends."""
    out = []
    for part in ("\n" + err).split("\n" + pre)[1:]:
        full = [w for w in want if part.startswith(w + "\n")]
        out.append(max(full, key=len) if full else part.split("\n")[0])
    return out


def bulk_obs(stdout: str) -> dict[str, Any]:
    try:
        d = json.loads(stdout)
        s = d["statistics"]
        pct = lambda k: round(s[k] * 100) if abs(s[k] * 100 - round(s[k] * 100)) < 1e-6 else -1  # noqa: E731
        hist = lambda k: [{"k": a, "n": b} for a, b in d[k].items()]  # noqa: E731
        out: dict[str, Any] = {"command": d["info"]["command_name"], "directory": d["info"]["directory"], "herr": hist("error_histogram")}
        st = {"files": s["total_recipe_files"], "processed": s["total_recipes_processed"], "errors": s["total_errors"]}
        if "warnings_histogram" in d:
            out |= {"hwarn": hist("warnings_histogram"), "hexcept": sum(d["exception_histogram"].values())}
            st |= {"warnings": s["total_warnings"], "nexcept": s["num_recipe_exceptions"], "nerrors": s["num_recipe_errors"],
                   "nwarnings": s["num_recipe_warnings"], "nsuccess": s["num_recipe_success"], "ntheory": s["num_theoretical_recipe_success"],
                   "pexcept": pct("percent_recipe_exceptions"), "perrors": pct("percent_recipe_errors"), "pwarnings": pct("percent_recipe_warnings"),
                   "psuccess": pct("percent_recipe_success"), "ptheory": pct("percent_recipe_theoretical_success")}
            names = ["recipes_with_exceptions", "recipes_with_errors", "recipes_with_warnings"]
            out["lists"] = any(x in d for x in names)
            out |= {a: d.get(b, []) for a, b in zip(["lexcept", "lerr", "lwarn"], names)}
        else:
            st |= {"psuccess": pct("percent_success"), "perrors": pct("percent_errors")}
            out["lists"] = "recipes_with_build_error_code" in d
            out["lerr"] = d.get("recipes_with_build_error_code", [])
        return {**out, "stats": st}
    except Exception as e:  # pylint: disable=broad-exception-caught
        z = {k: -1 for k in ["files", "processed", "errors", "warnings", "nexcept", "nerrors", "nwarnings", "nsuccess", "ntheory", "pexcept", "perrors",
                             "pwarnings", "psuccess", "ptheory"]}
        return {"command": f"EXC:{type(e).__name__}", "directory": "", "herr": [], "hwarn": [], "hexcept": -1, "lists": False, "lexcept": [], "lerr": [],
                "lwarn": [], "stats": z}


def show(c: dict[str, Any]) -> str:
    return f"{c['kind']} {c['args']} on {[(f['path'], f.get('c', f.get('code'))) for f in c.get('files', [])]}: exit code {c['obs']['code']} {c['exc'][-300:]}"


def run_cases(ctx: Ctx, fn: Callable[[str], dict[str, Any]], n: int, desc: Callable[[dict[str, Any]], str] = show) -> None:
    for o in range(0, n, 2000):
        cases = procs(fn, [f"{ctx.seed}:{ctx.prop}:{i}" for i in range(o, min(n, o + 2000))])
        for c in cases:
            ctx.nontriv([c["args"], c.get("files"), c.get("source")])
        ctx.sample({k: v for k, v in cases[0].items() if k not in ("init", "ops")})
        judge(ctx, "CommandCases", cases, desc, chunk=1000)


def check_C20(ctx: Ctx) -> None:
    ctx.rules.append("Every run of the command counts; told apart by its arguments and the outcomes of its files.")
    run_cases(ctx, convert_case, ctx.pick(300, 5000))


# ---- patch ----
def patch_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.commands.patch import patch

    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="crm-patch-"))
    try:
        ver = rng.randint(0, 1)
        g = rg.Gen(rng, ver)
        st = g.state(3)
        text = g.text(st, True)
        what = rng.choices(["ok", "json", "parse", "missing", "io"], [30, 1, 1, 0.5, 0.5])[0]
        s = rd.Session(text, set(), rng)
        ops: list[Any] = []
        blobs: list[Any] = []
        if s.ok:
            og = rd.OpGen(g, s, {"patch": 12, "badpatch": rng.choice([0, 0, 0.4])})
            for _ in range(rng.choice([0, 1, 1, 2, 4, 7])):
                op, py = og.next()
                if op["op"] == "read":
                    continue
                ret = s.perform(op, py)
                if op["op"] == "patch":
                    # Long lists of patches that succeed are rare otherwise.
                    if ret == "F" and rng.random() < 0.6:
                        continue
                    b = {"op": op["o"], "path": rd.pstr(op["p"])}
                    if op["o"] in ("add", "replace", "test"):
                        b["value"] = py
                    if op["o"] in ("move", "copy"):
                        b["from"] = rd.pstr(op["from"])
                else:
                    b = py if rng.random() < 0.8 else rng.choice([3, "x", None, True])
                ops.append(op)
                blobs.append(b)
        data: Any = blobs[0] if len(blobs) == 1 and rng.random() < 0.5 else blobs
        jf, rf = root / "p.json", root / rng.choice(["recipe.yaml", "meta.yaml", "a b.yaml"])
        jf.write_text(json.dumps(data, indent=rng.choice([None, 2])) if what != "json" else rng.choice(["{", "", "not json", "[1,"]))
        rf.write_text(text if what != "parse" else rng.choice(PARSE_ERRORS))
        if what == "json" and rng.random() < 0.3:
            jf.write_bytes(b"[\xff]")
        if what == "io":
            x = rf if rng.random() < 0.5 else jf
            if x == rf and rng.random() < 0.5:
                x.write_bytes(b"a: \xff\n")
            else:
                x.unlink()
                x.mkdir()
        before = snapshot(root)
        a, b2 = str(jf), str(rf)
        if what == "missing":
            a, b2 = rng.choice([(a + "x", b2), (a, b2 + "x")])
        r = invoke(patch, [a, b2], root)
        obs = {"code": r["code"], "text": text_of(rf).split("\n"), "written": [w["path"] for w in written(root, before)],
               "lines": [ln for ln in (r["out"] + r["err"]).split("\n") if ln.strip()]}
        return {"kind": "patch", "what": what, "init": rg.strip_src(st), "ops": ops, "obs": obs, "args": [text_of(jf)], "source": text, "file": rf.name,
                "exc": r["exc"]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check_C21(ctx: Ctx) -> None:
    ctx.rules.append("Every run of the command counts; told apart by the recipe and the patches.")
    run_cases(ctx, patch_case, ctx.pick(500, 8000), lambda c: f"patch {c['args'][0][:300]} ({c['what']}) on {c['source']!r}: exit code {c['obs']['code']}, "
                                                              f"file {c['obs']['text']} {c['exc'][-300:]}")


# ---- rattler-bulk-build ----
STUB = """#!/bin/sh
printf '%s\\0' "$@" > "$CRM_LOG/$$.$(date +%N)"
f="$3"
sed -n 's/^#out //p' "$f"
sed -n 's/^#err //p' "$f" >&2
sleep $(sed -n 's/^#sleep //p' "$f")
exit $(sed -n 's/^#code //p' "$f")
"""
ERRORS = ["Error: Failed to resolve dependencies", "Error:   unknown variant `x`", "Error: Script failed with status 1", "Error: 'a' is \"b\" & c", "Error: é"]
NOISE = ["warning: something", "error: lower case", "Error without a colon", "  × not it", ""]


_TIMEOUT_WORKS = True


def probe_timeout(_: Any) -> bool:
    """Can the time limit be set from outside? If not, a build that takes too long just goes on until its end."""
    import conda_recipe_manager.commands.rattler_bulk_build as rbb

    if not hasattr(rbb, "DEFAULT_RATTLER_BUILD_TIMEOUT"):
        return False
    root = Path(tempfile.mkdtemp(prefix="crm-rattler-"))
    try:
        for d in ("log", "bin", "in"):
            (root / d).mkdir()
        (root / "bin" / "rattler-build").write_text(STUB)
        (root / "bin" / "rattler-build").chmod(0o755)
        (root / "in" / "recipe.yaml").write_text("#code 0\n#sleep 6\n")
        os.environ |= {"PATH": f"{root}/bin:{os.environ['PATH']}", "CRM_LOG": str(root / "log")}
        rbb.DEFAULT_RATTLER_BUILD_TIMEOUT = 2
        r = invoke(rbb.rattler_bulk_build, [str(root / "in")], root)
        return not (r["code"] == 0 and bulk_obs(r["out"])["stats"].get("psuccess") == 100)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def rattler_case(seed: str) -> dict[str, Any]:
    import conda_recipe_manager.commands.rattler_bulk_build as rbb

    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="crm-rattler-"))
    try:
        log, bin_ = root / "log", root / "bin"
        base = root / "in" / rng.choice(["feedstocks", "my recipes", "f'q"])
        for d in (log, bin_, base):
            d.mkdir(parents=True)
        (bin_ / "rattler-build").write_text(STUB)
        (bin_ / "rattler-build").chmod(0o755)
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 11])
        timeouts = rng.random() < 0.08 and _TIMEOUT_WORKS
        p_bad = rng.choice([0.0, 0.1, 0.3, 0.9])
        files = []
        for i in range(n):
            d = base / rng.choice([f"r{i}", f"a/b{i}/recipe", f"x-{i} feedstock/recipe", f"z$HOME{i}", f"q\"{i}"])
            d.mkdir(parents=True)
            code = rng.choice([1, 2, 3, 42, 101, 255]) if rng.random() < p_bad else 0
            errs = rng.sample(ERRORS, rng.choice([1, 1, 2, 3])) if code and rng.random() < 0.9 or rng.random() < 0.05 else []
            if errs and rng.random() < 0.2:
                errs.append(errs[0])
            out = []
            for e in errs:
                if rng.random() < 0.4:
                    out.append("#err " + rng.choice(NOISE))
                out.append("#err " + rng.choice(["", "", "  × ", "at 3: "]) + e)
            out += ["#out " + rng.choice(ERRORS + NOISE) for _ in range(rng.randint(0, 2))]
            sleep = timeouts and rng.random() < 0.4
            if sleep:
                code, errs = 43, ["Recipe build dry-run timed out."]
            rng2 = "\n".join(["schema_version: 1"] + out + [f"#code {code}", f"#sleep {9 if sleep else 0}"])
            (d / "recipe.yaml").write_text(rng2 + "\n")
            files.append({"path": str((d / "recipe.yaml").relative_to(base)), "file": str(d / "recipe.yaml"), "code": code, "errs": errs})
        if rng.random() < 0.5:
            (base / "other").mkdir()
            (base / "other" / rng.choice(["recipe.yml", "meta.yaml", "xrecipe.yaml", "recipe.yaml.bak"])).write_text("a: 1\n")
        extra = rng.choice([[], [], ["--render-only"], ["--experimental", "--output-dir", "a b"], ["--channel", "c;d"], ["-vv", "--x=$HOME"]])
        args = [str(base)]
        minimum = 80
        opts: list[list[str]] = []
        if rng.random() < 0.7:
            good = sum(1 for f in files if f["code"] == 0)
            pct = round(100 * good / n) if n else 0
            minimum = rng.choice([0, 100, 50, pct, pct, min(100, pct + 1), max(0, pct - 1)])
            opts.append([rng.choice(["-m", "--min-success-rate"]), str(minimum / 100)])
        truncate = rng.random() < 0.3
        if truncate:
            opts.append([rng.choice(["-t", "--truncate"])])
        lname = ""
        if rng.random() < 0.5:
            lname = "in/debug.json"
            opts.append([rng.choice(["-l", "--debug-log"]), str(root / lname)])
        rng.shuffle(opts)
        k = rng.randint(0, len(opts))
        args = sum(opts[:k], []) + args + sum(opts[k:], []) + extra
        before = snapshot(root / "in")
        old = dict(os.environ)
        os.environ |= {"PATH": f"{bin_}:{old['PATH']}", "CRM_LOG": str(log)}
        limit = getattr(rbb, "DEFAULT_RATTLER_BUILD_TIMEOUT", None)
        if timeouts:
            rbb.DEFAULT_RATTLER_BUILD_TIMEOUT = 4
        try:
            r = invoke(rbb.rattler_bulk_build, args, root)
        finally:
            os.environ.clear()
            os.environ.update(old)
            if timeouts:
                rbb.DEFAULT_RATTLER_BUILD_TIMEOUT = limit
        calls = [f.read_text().split("\0")[:-1] for f in log.iterdir()]
        obs: dict[str, Any] = {"code": r["code"], "calls": calls, "written": ["in/" + w["path"] for w in written(root / "in", before)], "log": []}
        if n:
            obs |= bulk_obs(r["out"])
        if lname and n:
            def _log() -> Any:
                d = json.loads((root / lname).read_text())["errors"]
                return [{"error": x["error"], "count": x["recipe_count"], "recipes": x["recipes"], "sorted": x["recipes"] == sorted(x["recipes"])} for x in d]

            ok, v = guard(_log)
            obs["log"] = v if ok else [{"error": str(v), "count": -1, "recipes": [], "sorted": False}]
        return {"kind": "rattler", "files": files, "args": extra, "cli": args, "min": minimum, "truncate": truncate, "log": lname if n else "", "obs": obs,
                "directory": base.name, "exc": r["exc"], "stdout": r["out"][-1500:], "stderr": r["err"][-1500:]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check_C29(ctx: Ctx) -> None:
    ctx.rules.append("Every run of the command counts; told apart by its arguments and the results of its builds.")
    ctx.assumptions.append("rattler-build is a stand-in that ends, prints and takes its time as each recipe says.")
    global _TIMEOUT_WORKS  # pylint: disable=global-statement
    _TIMEOUT_WORKS = procs(probe_timeout, [0])[0]
    if not _TIMEOUT_WORKS:
        ctx.assumptions.append("The time limit could not be set: builds that take too long are left out.")
    run_cases(ctx, rattler_case, ctx.pick(500, 4000))
