"""Dependencies of recipes: reads (C17) and edits (C18)."""

from __future__ import annotations

import random
from typing import Any

from harness import recipe_drive as rd
from harness import recipe_gen as rg
from harness.c_recipe import probe
from harness.common import Ctx, pmap, tlc, write_json
from harness.recipe_gen import NOM, com, node

VARS = {"name": "mypkg", "version": "1.2.3", "other": "Zeta"}
# text, text with the variables substituted, name
DEPS = [(s, s, n) for s, n in [
    ("python", "python"), ("python >=3.9", "python"), ("numpy", "numpy"), ("numpy >=1.20,<2", "numpy"), ("NumPy 1.21.*", "numpy"),
    ("foo-bar", "foo-bar"), ("foo_bar >=2", "foo_bar"), ("foo", "foo"), ("foo 1.2 h0_1", "foo"), ("conda-forge::foo >=3", "foo"),
    ("libzlib", "libzlib"), ("7zip", "7zip"), ("pip", "pip"), ("_openmp_mutex", "_openmp_mutex"), ("ruamel.yaml >0.1", "ruamel.yaml"),
    ("r", "r"), ("r >=4", "r"),
]]
BAD = [("foo ??", "foo ??", "foo ??")]
SECS = {0: ["build", "host", "run", "run_constrained", "run_exports", "requires", "junk"],
        1: ["build", "host", "run", "run_constraints", "run_exports", "run_constrained", "ignore"]}
COMS = [com("# [win]", "win"), com("# [linux and py>=39]", "linux and py>=39"), com("# note", "", "note"), com("# [osx] only", "osx", "only"),
        com("# see note [unix]", "unix", "see note")]


def jdeps(ver: int) -> list[tuple[str, str, str]]:
    d = "" if ver == 0 else "$"
    out = []
    for s in ("{{ compiler('c') }}", "{{ pin_compatible('numpy', max_pin='x.x') }}", "python >={{ pyver }}"):
        # What can not be resolved is left in one notation for both versions.
        r = s.replace("{{", "${{")
        out.append((s.replace("{{", d + "{{"), r, r))
    out += [(f"{d}{{{{ name }}}}", "mypkg", "mypkg"), (f"{d}{{{{ name }}}} >={d}{{{{ version }}}}", "mypkg >=1.2.3", "mypkg"),
            (f"lib{d}{{{{ other | lower }}}} 2.*", "libzeta 2.*", "libzeta"), (f"numpy =={d}{{{{ version }}}}", "numpy ==1.2.3", "numpy")]
    return out


class DGen:
    def __init__(self, rng: random.Random, ver: int):
        self.rng, self.ver = rng, ver
        self.pool = DEPS + jdeps(ver) + BAD
        # Sections that are empty somewhere
        self.nulls: set[str] = set()
        d = "$" if ver == 1 else ""
        self.names = ["alpha", "beta", "gamma", f"{d}{{{{ name }}}}", f"{d}{{{{ name }}}}-lib", "lib-x"]

    def m(self, p: float = 0.25) -> dict[str, str]:
        return self.rng.choice(COMS) if self.rng.random() < p else NOM

    def dep(self) -> Any:
        if self.rng.random() < 0.04:
            n = node("sca", v="z:", r="null")
            return n
        s = self.rng.choice(self.pool)[0]
        return node("sca", v="s:" + s, r=s, m=self.m())

    def section(self, k: str) -> Any:
        if self.rng.random() < 0.08:
            self.nulls.add(k)
            return node("nul", k, m=self.m(0.1))
        c = []
        for _ in range(self.rng.randint(1, 4)):
            if self.rng.random() < 0.15:
                c.append(node("com", r=self.rng.choice(rg.FULL_COMMENTS)))
            c.append(self.dep())
            if len(c) > 1 and c[0]["t"] == "sca" and self.rng.random() < 0.15:
                name = c[0]["v"][2:].split(" ")[0]
                same = [x[0] for x in DEPS if x[2] == name] or [c[0]["v"][2:] or "foo"]
                x = self.rng.choice(same)
                c.append(node("sca", v="s:" + x, r=x, m=self.m()))
        return node("seq", k, m=self.m(0.1), c=c)

    def reqs(self) -> Any:
        if self.rng.random() < 0.04:
            return node("nul", "requirements")
        ks = self.rng.sample(SECS[self.ver], self.rng.randint(1, 4))
        c = []
        for k in ks:
            if self.rng.random() < 0.1:
                c.append(node("com", r="# a comment"))
            c.append(self.section(k))
        return node("map", "requirements", c=c)

    def name(self, k: str, s: str) -> Any:
        return node("sca", k, "s:" + s, s, self.m(0.1))

    def state(self) -> dict[str, Any]:
        r, v1 = self.rng, self.ver == 1
        top: list[Any] = []
        if v1:
            top += [node("sca", "schema_version", "i:1", "1"),
                    node("map", "context", c=[node("sca", k, "s:" + v, v) for k, v in VARS.items()])]
        n_out = r.choice([0, 0, 1, 2, 3])
        names = r.sample(self.names, 4)
        if r.random() < 0.08:
            names[r.randrange(4)] = names[0]
        missing = r.randrange(4) if r.random() < 0.06 else 9
        version = node("sca", "version", "s:1.2.3", "1.2.3")

        def named(i: int) -> list[Any]:
            return ([] if i == missing else [self.name("name", names[i])])

        head = "recipe" if v1 and n_out else "package"
        top.append(node("map", head, c=named(0) + [version]))
        if r.random() < 0.2:
            top.append(node("com", r="# a comment"))
        if not n_out or r.random() < 0.5:
            top.append(self.reqs())
        if n_out:
            outs = []
            for i in range(1, n_out + 1):
                if r.random() < 0.1:
                    outs.append(node("com", r="# another"))
                kids: list[Any] = [node("map", "package", c=named(i) + [version])] if v1 else named(i) + [version]
                if r.random() < 0.85:
                    kids.append(self.reqs())
                outs.append(node("map", c=kids))
            top.append(node("seq", "outputs", c=outs))
        top.append(node("map", "about", c=[node("sca", "home", "s:https://example.com", "https://example.com", self.m(0.1))]))
        vs = [] if v1 else [{"k": k, "v": "s:" + v, "r": f'"{v}"'} for k, v in VARS.items()]
        return {"ver": self.ver, "root": node("map", c=top), "vars": vs, "mod": False}

    def info(self) -> dict[str, dict[str, str]]:
        d = "" if self.ver == 0 else "$"
        t = {"s:" + s: {"s": x, "n": n} for s, x, n in self.pool}
        for a in ("alpha", "beta", "gamma", "lib-x"):
            t["s:" + a] = {"s": a, "n": a}
        t[f"s:{d}{{{{ name }}}}"] = {"s": "mypkg", "n": "mypkg"}
        t[f"s:{d}{{{{ name }}}}-lib"] = {"s": "mypkg-lib", "n": "mypkg-lib"}
        t["z:"] = {"s": "", "n": ""}
        t["s:1.2.3"] = {"s": "1.2.3", "n": "1.2.3"}
        return t


def session(text: str, rng: Any) -> Any:
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

    s = rd.Session(text, {"text"}, rng)
    s.cls = RecipeParserDeps
    s.ok, s.p = rd.guard(lambda: RecipeParserDeps(text))
    return s


def sel_text(x: Any) -> str:
    s = x.render() if x is not None else ""
    return s[1:-1] if s.startswith("[") else s


def observe(s: Any, chk: set[str]) -> dict[str, Any]:
    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str

    p, o = s.p, {}
    if not s.ok:
        e = str(p)
        return {"text": [e], "deps": {"exc": e, "e": []}, "pkgs": {"exc": e, "e": []}, "ppaths": [], "multi": False, "name": e, "dpaths": [[e]]}
    order = ["text"] * ("text" in chk) + ["deps"] * ("deps" in chk) + ["pkgs", "ppaths", "multi", "name"] * ("pkgs" in chk) + ["dpaths"] * (
        "dpaths" in chk)
    s.rng.shuffle(order)

    def deps() -> Any:
        out = []
        first, again = p.get_all_dependencies(), p.get_all_dependencies()
        if first != again or any(hash(x.data) != hash(y.data) for k in first for x, y in zip(first[k], again[k])):
            return {"exc": "TWO READINGS DIFFER", "e": []}
        data = [d.data for ds in first.values() for d in ds]
        if any(x == y and x.name != y.name for x in data for y in data):
            return {"exc": "DIFFERENT DEPENDENCIES ARE EQUAL", "e": []}
        for pkg, ds in first.items():
            out.append({"n": pkg, "ds": [
                {"by": d.required_by, "p": rd.toks(d.path), "ty": d.type.name, "s": dependency_data_render_as_str(d.data),
                 "nm": d.data.name, "sel": sel_text(d.selector)} for d in ds]})
        return {"exc": "", "e": out}

    fns: dict[str, Any] = {
        "deps": (deps, lambda e: {"exc": e[4:], "e": []}),
        "pkgs": (lambda: {"exc": "", "e": [{"n": k, "p": rd.toks(v)} for k, v in p.get_package_names_to_path().items()]},
                 lambda e: {"exc": e[4:], "e": []}),
        "ppaths": (lambda: [rd.toks(x) for x in p.get_package_paths()], lambda e: [[e]]),
        "multi": (p.is_multi_output, lambda e: e),
        "name": (lambda: "<none>" if p.get_recipe_name() is None else p.get_recipe_name(), lambda e: e),
        "dpaths": (lambda: [rd.toks(x) for x in p.get_dependency_paths()], lambda e: [[e]]),
    }
    for k in order:
        o[k] = s.lines() if k == "text" else s._call(*fns[k])
    return o


def dep_op(g: DGen, s: Any) -> dict[str, Any]:
    r = g.rng
    paths = s._call(lambda: [rd.toks(x) for x in s.p.get_dependency_paths()], [])
    x = r.random()
    base: list[str]
    if paths and x < 0.7:
        p = list(r.choice(paths))
        if r.random() < 0.35:
            p[-1] = r.choice(["0", "1", "2", "3", "9"])
        if r.random() < 0.25:
            p[-2] = r.choice(SECS[g.ver][:6])
    else:
        outs = s._call(lambda: [rd.toks(x) for x in s.p.get_package_paths()], [[]])
        base = list(r.choice(outs))
        p = base + ["requirements", r.choice(SECS[g.ver]), r.choice(["0", "1", "5"])]
    nulls = [k for k in g.nulls if len(p) in (3, 5)]
    if nulls and r.random() < 0.2:
        p[-2] = r.choice(sorted(nulls))
    abs_ = True
    if r.random() < 0.08:
        k = r.random()
        if k < 0.25:
            p = p[:-1]
        elif k < 0.5:
            p = p + ["0"]
        elif k < 0.7:
            p[-1] = r.choice(["-", "x", "-1"])
        elif k < 0.85:
            abs_ = False
        else:
            p[0] = r.choice(["test", "build", "requirement"])
    txt, _, _ = r.choice([d for d in g.pool if "{{" not in d[0] or r.random() < 0.3])
    if p[-2:-1] and p[-2] in g.nulls and r.random() < 0.2:
        txt = r.choice(["r", "r >=4"])
    t = g.info()["s:" + txt]
    # A dependency that is built by a user is not substituted, and Jinja makes it a name of its own.
    name = txt if "{{" in txt else t["n"]
    return {"op": "dep_add", "p": p, "abs": abs_, "val": node("sca", v="s:" + txt, r=txt), "name": name, "txt": txt,
            "mode": r.choice(["REPLACE", "REPLACE", "IGNORE", "USE_BOTH", "EXACT_POSITION"]), "smode": r.choice(["REPLACE", "AND", "OR"]),
            "s": r.choice(["", "", "win", "osx and py<310", "linux"])}


def perform(s: Any, op: dict[str, Any]) -> str:
    from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str
    from conda_recipe_manager.parser.enums import SelectorConflictMode
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.types import SchemaVersion

    if not s.ok:
        return str(s.p)
    path = ("/" if op.get("abs", True) else "") + "/".join(op["p"])
    sel = SelectorParser(f"[{op['s']}]", SchemaVersion.V0) if op.get("s") else None
    d = Dependency("x", path, DependencySection.RUN, dependency_data_from_str(op.get("txt", "foo")), sel)
    if op["op"] == "dep_add":
        ok, v = rd.guard(lambda: s.p.add_dependency(d, DependencyConflictMode[op["mode"]], SelectorConflictMode[op["smode"]]))
    else:
        ok, v = rd.guard(lambda: s.p.remove_dependency(d))
    return {True: "T", False: "F"}.get(v, repr(v)) if ok else v


def other_op(g: DGen, s: Any) -> dict[str, Any]:
    """An edit that is not one of dependencies."""
    r = g.rng
    paths = s._call(lambda: [rd.toks(x) for x in s.p.get_dependency_paths()], []) or [["about", "home"]]
    p = list(r.choice(paths))
    x = r.random()
    if x < 0.35:
        return {"op": "selector_add", "p": p, "s": r.choice(["win", "osx"]), "mode": r.choice(["REPLACE", "AND", "OR"]), "bad": False}
    if x < 0.5:
        return {"op": "selector_rm", "p": p}
    if x < 0.6:
        return {"op": "comment", "p": p, "x": "a word", "bad": False}
    txt = r.choice(g.pool)[0]
    return {"op": "patch", "o": r.choice(["add", "replace"]), "p": p, "from": [], "val": node("sca", v="s:" + txt, r=txt), "txt": txt}


def history(a: Any) -> dict[str, Any]:
    seed, ver, n_ops, edits, chk = a
    rng = random.Random(seed)
    g = DGen(rng, ver)
    st = g.state()
    gg = rg.Gen(rng, ver)
    text = gg.text(st, False)
    s = session(text, rng)
    tr: dict[str, Any] = {"init": rg.strip_src(st), "info": g.info(), "obs": observe(s, chk), "steps": [], "source": text}
    if not s.ok:
        return tr
    for _ in range(n_ops):
        if rng.random() < edits:
            op = dep_op(g, s)
            if rng.random() < 0.2:
                op = {"op": "dep_rm", "p": op["p"]}
                obj = s._call(s.p.render_to_object, {})
                par: Any = obj
                for t in op["p"][:-1]:
                    par = par[int(t)] if isinstance(par, list) and t.isdigit() and int(t) < len(par) else par.get(t) if isinstance(par, dict) else None
                if not isinstance(par, list) or len(par) < 2 or op["p"][-1:] == ["-"] or any(ln.lstrip().startswith("#") for ln in s.lines()):
                    continue
            ret = perform(s, op)
        else:
            op = other_op(g, s)
            ret = s.perform(op, f"[{op['s']}]" if op["op"] == "selector_add" else op.get("x", op.get("txt")))
        tr["steps"].append({"op": op, "ret": ret, "obs": observe(s, chk)})
    return tr


def traces(ctx: Ctx, chk: set[str], n: int, n_ops: int, edits: float) -> None:
    trs = pmap(history, [(f"{ctx.seed}:{ctx.prop}:{i}", i % 2, n_ops, edits, chk) for i in range(n)])
    for c in range(0, n, 400):
        part = trs[c : c + 400]
        f = write_json(ctx.scratch / "t.json", {"chk": sorted(chk), "traces": [
            {"init": t["init"], "info": t["info"], "obs": t["obs"], "steps": t["steps"]} for t in part]})
        r = tlc(ctx, "RecipeDepsTrace", env={"TRACE_FILE": str(f)})
        for tg, x in r["records"]:
            if tg != "FAIL":
                continue
            t = part[x["tr"] - 1]
            step = t["steps"][x["i"] - 1] if x["i"] else None
            ctx.fail(f"clauses {x['cl']} after step {x['i']} {step['op'] if step else '(initial read)'}",
                     {"recipe": t["source"], "ops": [{"op": q["op"], "ret": q["ret"]} for q in t["steps"][: x["i"]]], "clauses": x["cl"],
                      "expected_return": x["want"], "expected_text": "\n".join(x["text"]), "expected": x["detail"],
                      "observed": step["obs"] if step else t["obs"], "returned": step["ret"] if step else ""})
    ctx.traces += n
    for t in trs:
        ctx.evaluations += 1 + len(t["steps"])
        ctx.nontriv(t["source"])
        for q in t["steps"]:
            ctx.nontriv([t["source"], q["op"], q["ret"]])
    ctx.sample(trs[0]["source"])
    ctx.sample({"recipe": trs[1]["source"], "ops": [[q["op"], q["ret"]] for q in trs[1]["steps"]][:4]})
    ctx.assumptions.append("conda.models.match_spec is a validated stand-in if conda is not installed (it is not in this sandbox)")
    ctx.rules.append("Every recipe counts once, and every edit, told apart by recipe, operation and result.")


def rdeps(text: str) -> Any:
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

    return [[(rd.toks(d.path)[-1], d.data.name) for d in v] for v in RecipeReaderDeps(text).get_all_dependencies().values()]


def check_C17(ctx: Ctx) -> None:
    traces(ctx, {"deps", "pkgs", "dpaths"}, ctx.pick(2000, 8000), 4, 0.3)
    probe(ctx, "KF-conditional-deps", "the dependency map of a V1 recipe with conditional dependencies",
          lambda: rdeps("schema_version: 1\npackage:\n  name: a\nrequirements:\n  run:\n    - if: win\n      then: foo\n    - bar\n"),
          [[("0", "foo"), ("1", "bar")]])
    probe(ctx, "KF-run-exports-groups", "the dependency map of a V1 recipe with groups of run exports",
          lambda: [n for _, n in rdeps("schema_version: 1\npackage:\n  name: a\nrequirements:\n  run_exports:\n    weak:\n      - foo\n")[0]], ["foo"])
    probe(ctx, "KF-output-requirements-list", "the dependency map of a V0 output whose requirements are a list",
          lambda: rdeps("package:\n  name: a\noutputs:\n  - name: b\n    requirements:\n      - foo\n")[1], [("0", "foo")])
    probe(ctx, "KF-scalar-section", "the dependency map of a section with a text instead of a list",
          lambda: [n for _, n in rdeps("package:\n  name: a\nrequirements:\n  run: foo\n")[0]], ["foo"])
    probe(ctx, "KF-number-dep", "the dependency map of a recipe with a number as a dependency",
          lambda: len(rdeps("package:\n  name: a\nrequirements:\n  run:\n    - 42\n")[0]), 1)


def check_C18(ctx: Ctx) -> None:
    traces(ctx, {"text", "ret", "deps", "dpaths"}, ctx.pick(1600, 8000), ctx.pick(8, 12), 0.85)
