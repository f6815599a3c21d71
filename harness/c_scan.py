"""Dependency scanners: generated Python projects and pyproject.toml files."""

from __future__ import annotations

import random
import shutil
import sys
import tempfile
from pathlib import Path
from typing import Any

from harness.common import Ctx, TlcError, pmap, tlc, write_json

STDLIB = ["os", "sys", "json", "xml", "typing", "__future__", "_thread", "unittest", "tomllib"]
THIRD = ["requests", "numpy", "yaml", "PIL", "git", "cv", "cv2", "OpenGL", "sklearn", "tables", "attr", "foo_bar", "conda", "x", "distutils", "osx", "pyyaml", "py"]
NAMES = ["a.py", "b.py", "test_a.py", "a_test.py", "Test_b.py", "B_TEST.py", "tests.py", "conftest.py", "testa.py", "test.py", "mytest_a.py", "a_test_b.py", "_test.py",
         "__init__.py", "setup.py", "requests.py", "yaml.py", "foo_bar.py", "git.py", "json.py", "é.py", "cv2.py", "a b.py", ".hidden.py", "a.b.py", ".test_a.py"]
OTHER = ["a.pyi", "notes.txt", "test_a.txt", "x.py.bak", "a.PY", "yaml.md"]
DIRS = [[], [], [], ["pkg"], ["pkg"], ["pkg", "sub"], ["tests"], ["requests"], ["x"], [".hidden"], ["numpy"], ["test_dir"]]


def gen_import(rng: random.Random, mods: list[str]) -> tuple[dict[str, Any], str]:
    def dotted() -> list[str]:
        m = [rng.choice(mods)]
        while rng.random() < 0.3:
            m.append(rng.choice(["sub", "os", "yaml", "c"]))
        return m

    if rng.random() < 0.5:
        ns = [dotted() for _ in range(rng.choice([1, 1, 2, 3]))]
        t = "import " + ", ".join(".".join(n) + (f" as q{rng.randint(0, 9)}" if rng.random() < 0.3 else "") for n in ns)
        return {"from": False, "level": 0, "names": ns}, t
    level = rng.choice([0, 0, 0, 1, 2])
    what = rng.choice(["c", "yaml", "c as d", "(c,\n        requests)", "*", "c, \\\n        d"])
    if level and rng.random() < 0.4:
        return {"from": True, "level": level, "names": []}, f"from {'.' * level} import {what}"
    m = dotted()
    return {"from": True, "level": level, "names": [m]}, f"from {'.' * level}{'.'.join(m)} import {what}"


def gen_file(rng: random.Random, name: str, d: list[str]) -> tuple[dict[str, Any], bytes]:
    mods = rng.sample(THIRD, 4) + rng.sample(STDLIB, 2) + ["a", "pkg", "requests", "yaml"]
    out: list[str] = []
    imports = []
    enc = "utf-8"
    head = b""
    x = rng.random()
    if x < 0.05:
        head = b"\xef\xbb\xbf"
    elif x < 0.1:
        out.append("# -*- coding: latin-1 -*-")
        enc = "latin-1"
    if rng.random() < 0.2:
        out.append('"""A docstring.\n\nimport nothing\n"""')
    for _ in range(rng.randint(0, 5)):
        imp, t = gen_import(rng, mods)
        star = t.endswith("*")
        w = rng.choice(["{}", "{}", "try:\n    {}\nexcept ImportError:\n    pass", "if TYPE_CHECKING:\n    {}", "def f():\n    def g():\n        {}\n    return g",
                        "class A:\n    {}", "x = 1; {}", "async def h():\n    {}", "match 1:\n    case 1:\n        {}", "{}  # import comment_only", "if 0: {}"])
        if star and ("def " in w or "class" in w):
            w = "{}"
        imports.append(imp)
        out.append(w.format(t))
        if rng.random() < 0.3:
            out.append(rng.choice(['s = "import in_string"', "# import in_comment", "t = '''\nimport in_text\n'''", 'm = __import__("dynamic")', "i\u0301mport = 1", 'u = "é"']))
    text = "\n".join(out) + ("\n" if rng.random() < 0.9 else "")
    try:
        data = head + text.encode(enc)
    except UnicodeEncodeError:
        text = text.replace("i\u0301mport = 1", "")
        data = head + text.encode(enc)
    bad = rng.random() < 0.12
    if bad:
        data += rng.choice([b"\nimport\n", b"\nprint 'x'\n", b"\nx = '\xff\xfe'\n", b"\ndef f(:\n", b"\n" + b"(" * 300 + b"\n", b"\n  x = 1\n y = 2\n", b"\nfrom import x\n", b"\nx" + b".a" * 20000 + b"\n",
                            b"\n" + b"-" * 100000 + b"1\n", b"\nx = " + b"1" * 5000 + b"\n"])
        if enc == "latin-1" and b"\xff" in data:
            bad = False
    return {"dir": d, "name": name, "bad": bad, "imports": imports}, data


def gen_project(rng: random.Random) -> dict[tuple[str, ...], tuple[dict[str, Any], bytes]]:
    fs: dict[tuple[str, ...], tuple[dict[str, Any], bytes]] = {}
    for _ in range(rng.randint(0, 7)):
        d, n = rng.choice(DIRS), rng.choice(NAMES + OTHER[: rng.randint(0, 6)])
        fs[(*d, n)] = gen_file(rng, n, d)
    return fs


def put(root: Path, fs: dict[tuple[str, ...], tuple[dict[str, Any], bytes]]) -> None:
    for p in list(root.iterdir()):
        shutil.rmtree(p) if p.is_dir() else p.unlink()
    for k, (_f, data) in fs.items():
        f = root.joinpath(*k)
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(data)


def msgs(scanner: Any) -> tuple[list[int], list[str]]:
    from conda_recipe_manager.types import MessageCategory as M

    t = scanner.get_message_table()
    return [len(t.get_messages(c)) for c in (M.EXCEPTION, M.ERROR, M.WARNING)], [m for c in M for m in t.get_messages(c)]


def py_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner

    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="crm-scan-"))
    try:
        arg = rng.choice([root, str(root)])
        sc = PythonDependencyScanner(arg)
        scans = []
        fs = gen_project(rng)
        seen = 0
        for n in range(rng.choice([1, 1, 1, 2, 3])):
            if n:
                x = rng.random()
                if x < 0.5 and fs:
                    fs = dict(fs)
                    fs.pop(rng.choice(sorted(fs)))
                    fs.update(gen_project(rng))
                elif x < 0.8:
                    fs = gen_project(rng)
            put(root, fs)
            try:
                deps = [{"name": d.data.name, "section": d.type.name} for d in sc.scan()]
            except Exception as e:  # pylint: disable=broad-exception-caught
                deps = [{"name": f"EXC {type(e).__name__}: {e}", "section": ""}]
            counts, all_ = msgs(sc)
            new = all_[seen:]
            seen = len(all_)
            named = [list(k) for k in fs if any(str(root.joinpath(*k)) in m for m in new)]
            scans.append({"files": [f for f, _ in fs.values()], "obs": {"deps": deps, "msgs": counts, "named": named},
                          "text": {"/".join(k): d.decode("utf-8", "replace") for k, (_f, d) in fs.items()}})
        return {"kind": "py", "scans": scans}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def quote(s: str, rng: random.Random) -> str:
    return f"'{s}'" if "'" not in s and rng.random() < 0.4 else '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def arr(xs: list[str], rng: random.Random) -> str:
    sep = rng.choice([", ", ",\n  ", ",  # note\n  "])
    return "[" + sep.join(quote(x, rng) for x in xs) + ("," if xs and rng.random() < 0.3 else "") + ("\n]" if "\n" in sep else "]")


def toml_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str
    from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner

    rng = random.Random(seed)
    names = ["requests", "numpy", "py-yaml", "foo_bar", "foo.bar", "a", "zope.interface", "b2", "conda-build"]
    vers = ["", "", ">=1.0", "==2.*", "~=1.4", ">=1,<2", "!=3", "<=0.1"]
    # One way to write a version per project, as equal dependencies may be merged
    sep = rng.choice(["", " "])
    weird = ["foo[extra]>=1", "foo; python_version < '3.8'", "foo[a,b]", "foo @ git+https://example.com/a.git", "foo (>=1)", 'x; extra == "y"', "foo ; os_name == \"nt\""]
    plain: dict[str, str] = {}

    def dep() -> dict[str, str]:
        if rng.random() < 0.2:
            return {"text": rng.choice(weird), "name": ""}
        n, v = rng.choice(names), rng.choice(vers)
        t = n + (sep + v if v else "")
        plain[t] = n
        return {"text": t, "name": n}

    state = rng.choices(["ok", "missing", "broken", "noproject"], [10, 1, 1.5, 1])[0]
    has_deps, has_groups = rng.random() < 0.85, rng.random() < 0.75
    deps = [dep() for _ in range(rng.randint(0, 6))] if has_deps else []
    gnames = rng.sample(["dev", "test", "conda_build", "a-b", "all"], rng.randint(0, 3)) if has_groups else []
    groups = [[dep() for _ in range(rng.randint(0, 4))] for _ in gnames]
    if deps and groups and groups[0] and rng.random() < 0.5:
        groups[0].append(rng.choice(deps))
    parts = []
    proj = ["[project]" if state != "noproject" else "[tool.project]", 'name = "foo"', 'version = "1.0"']
    if has_deps:
        proj.append("dependencies = " + arr([d["text"] for d in deps], rng))
    else:
        proj.append('dynamic = ["dependencies"]')
    if rng.random() < 0.3:
        proj.append("classifiers = " + arr(["A :: b", "requests"], rng))
    parts.append("\n".join(proj))
    if has_groups:
        if rng.random() < 0.3 and state == "ok":
            parts[0] += "\noptional-dependencies = {" + ", ".join(f"{g} = [" + ", ".join(quote(d["text"], rng) for d in ds) + "]" for g, ds in zip(gnames, groups)) + "}"
        else:
            h = "[project.optional-dependencies]" if state != "noproject" else "[tool.project.optional-dependencies]"
            parts.append("\n".join([h] + [f"{g} = " + arr([d["text"] for d in ds], rng) for g, ds in zip(gnames, groups)]))
    parts.append('[build-system]\nrequires = ["setuptools", "wheel"]')
    if rng.random() < 0.4:
        parts.append('[tool.x]\ndependencies = ["not-one"]\noptional-dependencies = { a = ["not-two"] }')
    if rng.random() < 0.3:
        rng.shuffle(parts)
    data = ("\n\n".join(parts) + "\n").encode()
    if state == "broken":
        data += rng.choice([b"[project\n", b"x = \n", b"a = 1\na = 2\n", b'y = "\xff\xfe"\n', b"[project]\n[project]\n", b"= 1\n", b'z = "x\n'])
    root = Path(tempfile.mkdtemp(prefix="crm-toml-"))
    try:
        fn = rng.choice(["pyproject.toml", "pyproject.toml", "other.toml", "dir/x.toml"])
        f = root / fn
        f.parent.mkdir(exist_ok=True)
        if state != "missing":
            f.write_bytes(data)
        elif rng.random() < 0.5:
            (root / "wrong.toml").write_bytes(data)
        args = [] if fn == "pyproject.toml" and rng.random() < 0.7 else [fn]
        sc = PyProjectDependencyScanner(rng.choice([root, str(root)]), *args)
        try:
            got = []
            for d in sc.scan():
                t = dependency_data_render_as_str(d.data)
                got.append({"text": t, "name": d.data.name if t in plain else "", "section": d.type.name})
        except Exception as e:  # pylint: disable=broad-exception-caught
            got = [{"text": f"EXC {type(e).__name__}: {e}", "name": "", "section": ""}]
        counts, all_ = msgs(sc)
        return {"kind": "toml", "state": state, "deps": deps, "groups": groups, "text": data.decode("utf-8", "replace"), "file": fn,
                "obs": {"deps": got, "msgs": counts, "named": any(fn in m for m in all_)}}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _judge(ctx: Ctx, cases: list[dict[str, Any]], chunk: int = 1500) -> None:
    for c in range(0, len(cases), chunk):
        part = cases[c : c + chunk]
        # The names of the modules of the standard library are those of the interpreter.
        f = write_json(ctx.scratch / f"scan-{c}.json", {"stdlib": sorted(sys.stdlib_module_names), "cases": part})
        r = tlc(ctx, "ScanCases", env={"CASES_FILE": str(f)})
        f.unlink()
        if r["distinct"] != len(part):
            raise TlcError(f"ScanCases: {r['distinct']} states for {len(part)} cases")
        for tg, x in r["records"]:
            if tg == "FAIL":
                case = part[x["k"] - 1]
                obs = case["obs"] if case["kind"] == "toml" else [[s["text"], s["obs"]] for s in case["scans"]]
                ctx.fail(f"{case['kind']}: {x['want']['fails']} wrong: observed {obs}; expected {x['want']['deps']}; {case.get('text', '')!r}", {"case": case, "expected": x["want"]})
    ctx.evaluations += len(cases)
    ctx.traces += len(cases)


def check_C26(ctx: Ctx) -> None:
    ctx.rules.append("Every scan of a project with at least one Python file counts; told apart by the files.")
    ctx.assumptions.append("conda.models.match_spec is a validated stand-in if conda is not installed (it is not in this sandbox)")
    cases = pmap(py_case, [f"{ctx.seed}:C26:{i}" for i in range(ctx.pick(9000, 60000))], 32)
    _judge(ctx, cases)
    for c in cases:
        for s in c["scans"]:
            if s["files"]:
                ctx.nontriv(s["text"])
    ctx.sample({"project": cases[0]["scans"][0]["text"], "dependencies": cases[0]["scans"][0]["obs"]["deps"]})


def check_C27(ctx: Ctx) -> None:
    ctx.rules.append("Every file counts; told apart by its text.")
    ctx.assumptions.append("conda.models.match_spec is a validated stand-in if conda is not installed (it is not in this sandbox)")
    cases = pmap(toml_case, [f"{ctx.seed}:C27:{i}" for i in range(ctx.pick(9000, 60000))], 32)
    _judge(ctx, cases)
    for c in cases:
        ctx.nontriv([c["text"], c["state"]])
    ctx.sample({"text": cases[0]["text"], "dependencies": cases[0]["obs"]["deps"]})
