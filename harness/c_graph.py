"""Graphs of recipes and their shell (C25)."""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
from pathlib import Path
from typing import Any, Iterator

from harness import recipe_gen as rg
from harness.c_commands import procs
from harness.c_deps import DGen
from harness.common import Ctx, TlcError, tlc, write_json

PKGS = ["alpha", "python", "numpy", "foo", "foo-bar", "libzlib", "pip", "ruamel.yaml", "lib-x", "gamma"]
BAD = [b"package:\n\tname: x\n", b"a: [1, 2\n", b"\xff\xfe\x00", b"package:\n  name: 'x\n", b"a: b: c\n", b"- a\nb: c\n"]
# The library refuses these; checked at every run
_BAD: list[bytes] = []


class GGen(DGen):
    """Recipes whose packages need each other."""

    def __init__(self, rng: random.Random, ver: int):
        super().__init__(rng, ver)
        self.names = PKGS[: rng.choice([6, 10])] + self.names[3:5]


def bad_texts() -> list[bytes]:
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

    if not _BAD:
        for b in BAD:
            try:
                RecipeReaderDeps(b.decode("utf-8"))
            except Exception:  # pylint: disable=broad-exception-caught
                _BAD.append(b)
    return _BAD


@contextlib.contextmanager
def canvas() -> Iterator[list[dict[str, Any]]]:
    """Drawings are recorded. A line on the output tells when."""
    import matplotlib

    matplotlib.use("Agg")
    import multiprocessing as mp

    import matplotlib.pyplot as plt
    import networkx as nx
    from networkx.drawing import nx_agraph

    from conda_recipe_manager.grapher import recipe_graph as mod

    drawn: list[dict[str, Any]] = []

    def draw(g: Any, *_: Any, **kw: Any) -> None:
        drawn.append({"nodes": [str(n) for n in g.nodes()], "edges": [[str(a), str(b)] for a, b in g.edges()]})
        print(f"@@PLOT {len(drawn) - 1}")

    def layout(g: Any, *_: Any, **kw: Any) -> Any:
        return {n: (0, 0) for n in g.nodes()}

    saved: list[tuple[Any, str, Any]] = []

    def put(o: Any, k: str, v: Any) -> None:
        """Also wherever the code under test has another name for it."""
        if not hasattr(o, k):
            return
        was = getattr(o, k)
        mods = [m for n, m in list(sys.modules.items()) if n.startswith("conda_recipe_manager")]
        for x, n in [(o, k)] + [(m, n) for m in mods for n, w in list(vars(m).items()) if w is was and callable(w)]:
            saved.append((x, n, was))
            setattr(x, n, v)

    for k in ("draw", "draw_networkx"):
        put(nx, k, draw)
    for o in (nx_agraph, mod, nx.drawing):
        put(o, "graphviz_layout", layout)
    put(plt, "show", lambda *_, **kw: plt.close("all"))
    put(mp, "cpu_count", lambda: 2)
    try:
        yield drawn
    finally:
        for o, k, v in reversed(saved):
            setattr(o, k, v)
        plt.close("all")


def write_files(rng: random.Random, root: Path) -> list[dict[str, Any]]:
    files: list[dict[str, Any]] = []
    texts: list[tuple[Any, str]] = []
    for i in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8])):
        d = root / rng.choice(["", f"r{i}", f"a b{i}/recipe", f"x/y/z{i}", "shared", f"é{i}", f"recipe.yaml.d{i}"])
        name = rng.choice(["meta.yaml", "recipe.yaml"])
        path = d / name
        if path.exists():
            continue
        d.mkdir(parents=True, exist_ok=True)
        x = rng.random()
        if x < 0.15:
            path.write_bytes(rng.choice(bad_texts()))
            files.append({"kind": "bad", "path": path.as_posix()})
            continue
        if x < 0.25:
            (d / rng.choice(["other.yaml", "meta.yml", "META.yaml", "meta.yaml.bak", "recipe.yaml~", "xrecipe.yaml", "recipe.json"])).write_text("package:\n  name: hidden\n  version: 1\n")
            continue
        if texts and x < 0.35:
            st, text = rng.choice(texts)
        else:
            g = GGen(rng, rng.randrange(2))
            st = g.state()
            text = rg.Gen(rng, g.ver).text(st, False)
            texts.append((st, text))
        path.write_text(text, encoding="utf-8")
        files.append({"kind": "good", "path": path.as_posix(), "st": rg.strip_src(st), "text": text})
    return files


def stats_of(s: Any, raw: Any = None) -> dict[str, Any]:
    d = raw if raw is not None else {k: getattr(s, k) for k in ("package_name_duplicates", "recipes_failed_to_parse", "recipes_failed_to_parse_dependencies", "total_parsed_recipes", "total_recipes", "total_packages")}
    return {"dups": sorted(d["package_name_duplicates"]), "failed": sorted(map(str, d["recipes_failed_to_parse"])),
            "fdeps": [{"id": k, "names": sorted(v)} for k, v in sorted(d["recipes_failed_to_parse_dependencies"].items())],
            "total": d["total_recipes"], "parsed": d["total_parsed_recipes"], "packages": d["total_packages"]}


NONE = {"nodes": [], "edges": []}
NOSTATS = {"dups": [], "failed": [], "fdeps": [], "total": -1, "parsed": -1, "packages": -1}


def use_lib(rng: random.Random, root: Path) -> dict[str, Any]:
    from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk
    from conda_recipe_manager.grapher.types import GraphDirection, GraphType

    with canvas() as drawn, contextlib.redirect_stdout(io.StringIO()):
        g = RecipeGraphFromDisk(rng.choice([root, str(root)]), rng.choice([0, 1, 2, 3]))

        def plot(*a: Any) -> dict[str, Any]:
            n = len(drawn)
            try:
                g.plot(*a)
            except Exception as e:  # pylint: disable=broad-exception-caught
                return {"nodes": [f"EXC {type(e).__name__}: {e}"], "edges": []}
            return drawn[-1] if len(drawn) == n + 1 else {"nodes": [f"{len(drawn) - n} drawings"], "edges": []}

        names = PKGS + ["mypkg", "mypkg-lib", "hidden", "nope", "", "Alpha", "all", "lib-"]
        got = [{"n": n, "got": bool(g.contains_package_name(n))} for n in names]
        known = [x["n"] for x in got if x["got"]]
        o: dict[str, Any] = {"truth": bool(g), "stats": stats_of(g.get_package_stats()), "names": got, "parts": []}
        for _ in range(rng.randint(0, 5) if known else 0):
            ty, dr, p = rng.choice(["build", "test"]), rng.choice(["depends", "needed-by"]), rng.choice(known)
            dv = {"depends": GraphDirection.DEPENDS_ON, "needed-by": GraphDirection.NEEDED_BY}[dr]
            a: list[Any] = [GraphType(ty), dv, p]
            if dr == "depends" and rng.random() < 0.3:
                o["parts"].append({"ty": ty, "dir": dr, "pkg": p, "draw": _named(plot, g, GraphType(ty), p)})
                continue
            o["parts"].append({"ty": ty, "dir": dr, "pkg": p, "draw": plot(*a)})
        o["build"], o["test"] = plot(GraphType.BUILD), plot(GraphType.TEST)
    return o


def _named(plot: Any, g: Any, ty: Any, p: str) -> Any:
    """The direction has a default."""
    from conda_recipe_manager.grapher.types import GraphDirection

    return plot(ty, GraphDirection.DEPENDS_ON, p)


def session_lines(rng: random.Random, known: list[str]) -> list[str]:
    if rng.random() < 0.12:
        lines = []
    else:
        lines = ["plot build all", "plot test all"]
    part = bool(lines)
    rng.shuffle(lines)
    for _ in range(rng.randint(0, 10)):
        x = rng.random()
        ty = rng.choice(["build", "test", "build", "test", "host", "run", "builds", "all"])
        if x < 0.35:
            s = f"plot {ty} {rng.choice(['depends', 'needed-by', 'depends', 'needed-by', 'needed', 'needed_by', 'all', 'needs'])} {rng.choice(known * 3 + PKGS[:4] + ['nope', 'all', 'mypkg'])}"
            if not part:
                s = f"plot {ty}"
        elif x < 0.45:
            s = f"plot {ty} all" if part else "plot"
        elif x < 0.6:
            s = rng.choice(["stats", "statistics"])
        elif x < 0.7:
            s = rng.choice(["help", "h"])
        elif x < 0.76:
            s = rng.choice(["exit", "esc", "quit", "q"])
        else:
            s = " ".join(rng.choice(["plot", "build", "test", "depends", "needed-by", "all", "stats", "help", "exit", "q", "", "foo", "é", "?", "plots", "python", "-h"]) for _ in range(rng.randint(0, 5)))
        if rng.random() < 0.2:
            s = rng.choice([s.upper(), s.title(), "  " + s.replace(" ", "   ") + " ", s.replace(" ", "\t")])
        lines.append(s)
    if rng.random() < 0.6:
        lines.append(rng.choice(["exit", "esc", "quit", "q", "Q", "EXIT "]))
        if rng.random() < 0.3:
            lines += ["stats", "exit"]
    return lines


def use_shell(rng: random.Random, root: Path, known: list[str]) -> dict[str, Any]:
    from click.testing import CliRunner

    from conda_recipe_manager.commands.graph import graph

    lines = session_lines(rng, known)
    with canvas() as drawn:
        r = CliRunner().invoke(graph, [str(root)], input="".join(s + "\n" for s in lines))
    out = r.stdout
    o: dict[str, Any] = {"exit": r.exit_code, "lines": len(lines), "steps": [], "named": root.as_posix() in r.output, "build": [], "test": [], "seen": False,
                         "exc": f"{type(r.exception).__name__}: {r.exception}" if r.exception and not isinstance(r.exception, SystemExit) else ""}
    n = [int(x) for x in re.findall(r"Failed to parse (\d+) out of (\d+) recipe files", out)[0]] if "Failed to parse" in out else [-1, -1]
    f = [int(x) for x in (re.findall(r"from (\d+) out of (\d+) recipe files", out) or [("-1", "-1")])[0]]
    pct = [round(float(x) * 100) for x in re.findall(r"\(([\d.]+)% success\)", out)] + [-1, -1]
    o["intro"] = {"failed": n[0], "total": n[1], "pct": pct[0], "ffailed": f[0], "ftotal": f[1], "fpct": pct[1]}
    parts = re.split(r"(?m)^> ", out)[1:]
    edges: dict[str, Any] = {}
    for line, seg in zip(lines, parts):
        st: dict[str, Any] = {"w": line.split(), "kind": "", "arg": "", "stats": NOSTATS, "draw": NONE}
        t = seg.strip("\n")
        m = re.fullmatch(r"Unrecognized graph type: (.*)", t)
        m2 = re.fullmatch(r"Package not found: (.*)", t)
        plots = re.findall(r"@@PLOT (\d+)", t)
        if m:
            st["kind"], st["arg"] = "type", m[1]
        elif m2:
            st["kind"], st["arg"] = "unknown", m2[1]
        elif t == "Unrecognized graph direction.":
            st["kind"] = "direction"
        elif t == "Invalid command.":
            st["kind"] = "invalid"
        elif t.startswith("Closing"):
            st["kind"] = "exit"
        elif len(plots) == 1:
            st["kind"], st["draw"] = "plot", drawn[int(plots[0])]
            w = line.lower().split()
            if len(w) == 3:
                edges.setdefault(w[1], st["draw"]["edges"])
        elif "Commands:" in t and all(x in t for x in ("plot", "stats", "help")):
            st["kind"] = "help"
        else:
            try:
                st["stats"] = stats_of(None, json.loads(t))
                st["kind"] = "stats"
            except (ValueError, KeyError, TypeError):
                st["kind"] = "? " + t
        o["steps"].append(st)
    if {"build", "test"} <= set(edges):
        o.update(build=edges["build"], test=edges["test"], seen=True)
    return o


def case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="crm-graph-"))
    try:
        files = write_files(rng, root)
        for f in files:
            if f["kind"] == "good":
                try:
                    f["sha"] = hashlib.sha256(RecipeReaderDeps(f["text"]).render().encode()).hexdigest()
                except Exception as e:  # pylint: disable=broad-exception-caught
                    f["sha"] = f"EXC {e}"
        try:
            lib = use_lib(rng, root)
        except Exception as e:  # pylint: disable=broad-exception-caught
            lib = {"truth": False, "stats": NOSTATS | {"failed": [f"EXC {type(e).__name__}: {e}"]}, "names": [], "parts": [], "build": NONE, "test": NONE}
        shell = use_shell(rng, root, [x["n"] for x in lib["names"] if x["got"]])
        return {"files": files, "lib": lib, "shell": shell}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check_C25(ctx: Ctx) -> None:
    os.environ.setdefault("MPLCONFIGDIR", str(ctx.tmp("mpl")))
    ctx.rules.append("Directories with at least one recipe count, told apart by its files; and every line of a session, told apart by line and files.")
    ctx.assumptions.append("conda.models.match_spec is a validated stand-in if conda is not installed (it is not in this sandbox)")
    ctx.assumptions.append("drawing and layout are replaced by stand-ins that record the graph they are given; package names are in lower case")
    r = tlc(ctx, "GraphMC", cfg="GraphMC" if ctx.quick else "GraphMCBig", expect_violation=True)
    if r["violated"]:
        raise TlcError(f"the specification of graphs breaks {r['violated']}")
    cases = procs(case, [f"{ctx.seed}:C25:{i}" for i in range(ctx.pick(400, 6000))])
    if not bad_texts():
        raise TlcError("no text is refused")
    infos = [GGen(random.Random(0), v).info() for v in (0, 1)]
    for v, info in enumerate(infos):
        for p in PKGS:
            info.setdefault("s:" + p, {"s": p, "n": p})
    for c in range(0, len(cases), 500):
        part = cases[c : c + 500]
        f = write_json(ctx.scratch / f"graph-{c}.json", {"infos": infos, "cases": part})
        r = tlc(ctx, "GraphCases", env={"CASES_FILE": str(f)})
        f.unlink()
        if r["distinct"] != len(part):
            raise TlcError(f"GraphCases: {r['distinct']} states for {len(part)} cases")
        for tg, x in r["records"]:
            if tg == "FAIL":
                cs = part[x["k"] - 1]
                ctx.fail(f"{x['want']['fails']}: library {json.dumps(cs['lib'])[:300]}, shell {json.dumps(cs['shell'])[:300]}", {"case": cs, "expected": x["want"]})
    ctx.traces += 2 * len(cases)
    for c in cases:
        fs = [[f["path"].split("/", 3)[-1], f.get("text", "")] for f in c["files"]]
        ctx.evaluations += 3 + len(c["lib"]["parts"]) + len(c["shell"]["steps"])
        if fs:
            ctx.nontriv(fs)
            for s in c["shell"]["steps"]:
                ctx.nontriv([fs, s["w"]])
    ctx.sample({"session": [[" ".join(s["w"]), s["kind"], s["arg"]] for s in max(cases[:50], key=lambda c: len(c["shell"]["steps"]))["shell"]["steps"]]})
