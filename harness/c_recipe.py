"""Checks of the recipe properties: spec/Recipe.tla against the real parser, in both directions."""

from __future__ import annotations

import os
import random
from typing import Any, Optional

from harness import recipe_drive as rd
from harness import recipe_gen as rg
from harness.common import Ctx, pmap, tag, tlc, write_json
from harness.recipe_gen import com, node

MIX_EDIT = {"patch": 6, "selector_add": 1.5, "selector_rm": 1, "comment": 1, "var_set": 0.7, "var_del": 0.4,
            "read": 0.3, "badpatch": 0.3, "search_patch": 0.7}


def _one(a: tuple[Any, ...]) -> dict[str, Any]:
    seed, k, chk, mix, n_ops, args = a
    rng = random.Random(f"{seed}:{k}")
    return rd.history(rng, k % 2, set(chk), mix, n_ops, **args)


def traces(ctx: Ctx, chk: set[str], mix: dict[str, float], n: int, n_ops: int, **args: Any) -> None:
    """Random histories of the real code, decided by the trace specification."""
    jobs = [(f"{ctx.seed}:{ctx.prop}", k, sorted(chk), mix, n_ops, args) for k in range(n)]
    trs = pmap(_one, jobs)
    nchunk = max(1, (n + 399) // 400)
    for c in range(nchunk):
        part = trs[c::nchunk]
        f = write_json(
            ctx.scratch / f"traces-{c}.json",
            {"chk": sorted(chk), "refs": rg.refs_table(), "traces": [
                {"init": t["init"], "obs": t["obs"], "steps": [{x: s[x] for x in ("op", "ret", "obs")} for s in t["steps"]]}
                for t in part]},
        )
        r = tlc(ctx, "RecipeTrace", env={"TRACE_FILE": str(f)})
        f.unlink()
        for tg, x in r["records"]:
            if tg != "FAIL":
                continue
            t = part[x["tr"] - 1]
            step = t["steps"][x["i"] - 1] if x["i"] else None
            what = f"clauses {x['cl']} after step {x['i']}" + (
                f" {step['op']['op']} {step['op'].get('o', '')} {rd.pstr(step['op'].get('p', []))} {step['py'][:80]}" if step else
                " (initial read)")
            ctx.fail(what, {"recipe": t["source"], "ops": [{"op": s["op"], "value": s["py"], "ret": s["ret"]}
                                                         for s in t["steps"][: x["i"]]],
                            "clauses": x["cl"], "expected_return": x["want"], "expected_text": "\n".join(x["text"]),
                            "expected": x["detail"],
                            "observed": {k: v for k, v in (step["obs"] if step else t["obs"]).items()
                                         if k in x["cl"] or k == "text"}})
    ctx.traces += len(trs)
    for t in trs:
        ctx.evaluations += 1 + len(t["steps"])
        for s in t["steps"]:
            if s["op"]["op"] != "read":
                ctx.nontriv([s["op"], s["ret"], t["source"]])
    for t in trs[:2]:
        ctx.sample({"recipe": t["source"][:200], "ops": [[s["op"]["op"], rd.pstr(s["op"].get("p", [])), s["ret"]]
                                                          for s in t["steps"]][:6]})


# ---- exhaustive small scope: behaviours of the specification, replayed on the code ----
def S(k: str, src: str, m: Any = None) -> Any:
    v: Any = int(src) if src.isdigit() else src
    return node("sca", k, tag(v), src, m)


W, NOTE, U = com("# [win]", "win"), com("# note", "", "note"), com("# [unix] only here", "unix", "only here")


def small_recipes() -> list[Any]:
    r1 = node("map", c=[
        node("map", "package", c=[S("name", "foo", W)]),
        node("map", "build", m=NOTE, c=[S("number", "0"), node("nul", "script", m=W)]),
        node("map", "requirements", c=[node("seq", "host", c=[S("", "python"), node("com", r="# a comment"), S("", "numpy >=1.20", U)])]),
    ])
    r2 = node("map", c=[
        S("schema_version", "1"),
        node("map", "source", c=[S("url", "foo", U), S("sha256", "abc", W)]),
        node("seq", "tests", m=W, c=[
            node("map", c=[S("script", "foo", W), S("k1", "bar")]),
            node("map", c=[node("map", "python", c=[node("seq", "imports", c=[S("", "foo"), S("", "bar", NOTE)])])]),
        ]),
    ])
    r3 = node("map", c=[
        node("com", r="# top"),
        node("map", "about", c=[
            node("blk", "description", "s:a\n  b", "|", NOTE, [node("lin", r="a"), node("lin", r="  b")]), S("home", "x")]),
        node("seq", "extra", c=[S("", "foo"), S("", "bar", W), S("", "foo"), S("", "/")]),
    ])
    r4 = node("map", c=[
        S("schema_version", "1"),
        node("map", "context", c=[S("name", "foo", NOTE), S("version", "7")]),
        node("map", "package", c=[S("name", "x-${{ name }}"), S("version", "${{ version }}", W)]),
    ])
    return [{"ver": v, "root": r, "vars": vs, "mod": False} for v, r, vs in (
        (0, r1, [{"k": "name", "v": "s:foo", "r": '"foo"'}]), (1, r2, []), (0, r3, []), (1, r4, []))]


def _paths(n: Any, p: Optional[list[str]] = None) -> list[list[str]]:
    p = p or []
    out = []
    i = 0
    for x in n["c"] if n["t"] in ("map", "seq") else []:
        if x["t"] == "com":
            continue
        q = p + ([x["k"]] if n["t"] == "map" else [str(i)])
        i += 1
        out += [q] + _paths(x, q)
    return out


def _new_paths(n: Any, p: Optional[list[str]] = None) -> list[list[str]]:
    """Paths that can be added."""
    p = p or []
    out = []
    if n["t"] == "map":
        out.append(p + ["new"])
    if n["t"] == "seq":
        k = len([x for x in n["c"] if x["t"] != "com"])
        out += [p + ["-"], p + [str(k)], p + [str(k + 1)]]
    if n["t"] == "nul":
        out += [p + ["-"], p + ["new"]]
    i = 0
    for x in n["c"] if n["t"] in ("map", "seq") else []:
        if x["t"] != "com":
            out += _new_paths(x, p + ([x["k"]] if n["t"] == "map" else [str(i)]))
            i += 1
    return out


def small_ops(st: Any, full: bool, kinds: set[str], rng: random.Random, limit: int) -> list[tuple[Any, Any]]:
    fixed = [["schema_version"], ["context"]]
    ex = [p for p in _paths(st["root"]) if p not in fixed]
    new = [p for p in _new_paths(st["root"]) if p[:1] != ["context"] or "ctx" in kinds]
    bad = [["nope"], ex[-1] + ["nope"], ex[0] + ["0"], ["tests", "9"], ["build", "foo"]]
    vals: list[tuple[Any, Any]] = [
        ("v", node("sca", v="s:v", r="v")), (7, node("sca", v="i:7", r="7")),
        (["a", "b"], node("seq", c=[node("sca", v="s:a", r="a"), node("sca", v="s:b", r="b")])),
        ({"k": "x", "l": ["y"]}, node("map", c=[node("sca", "k", "s:x", "x"), node("seq", "l", c=[node("sca", v="s:y", r="y")])])),
        ("l1\nl2", node("blk", v="s:l1\nl2", r="|-", c=[node("lin", r="l1"), node("lin", r="l2")])),
    ]
    nul = node("nul")
    ops: list[tuple[Any, Any]] = []

    def patch(o: str, p: list[str], frm: Any = (), n: Any = nul, v: Any = None) -> None:
        ops.append(({"op": "patch", "o": o, "p": p, "from": list(frm), "val": n}, v))

    if "patch" in kinds or "ctx" in kinds:
        for p in ex + new + bad:
            for v, n in vals:
                patch("add", p, n=n, v=v)
                patch("replace", p, n=n, v=v)
            patch("test", p, n=vals[0][1], v="v")
            patch("remove", p)
        for p in ex:
            patch("test", p, n=node("sca", v="s:foo", r="foo"), v="foo")
        for p in ex:
            # Values have no members.
            for c in ("k", "-", "0"):
                if p + [c] not in ex + new:
                    patch("add", p + [c], n=vals[0][1], v="v")
        for f in ex + bad[:2]:
            for p in ex + new + bad[:2]:
                patch("copy", p, f)
                patch("move", p, f)
    if "ctx" in kinds:
        # Patches that touch the variables.
        ops = [o for o in ops if "context" in (o[0]["p"][:1] + o[0]["from"][:1])]
    if "sel" in kinds:
        for p in ex + bad[:2]:
            for mode in ("REPLACE", "AND", "OR"):
                for s in ("osx", "not win"):
                    ops.append(({"op": "selector_add", "p": p, "s": s, "mode": mode, "bad": False}, f"[{s}]"))
            ops.append(({"op": "selector_rm", "p": p}, None))
            ops.append(({"op": "selector_add", "p": p, "s": "x", "mode": "REPLACE", "bad": True}, "x"))
    if "com" in kinds:
        for p in ex + bad[:2]:
            ops.append(({"op": "comment", "p": p, "x": "hello", "bad": False}, "hello"))
            ops.append(({"op": "comment", "p": p, "x": "", "bad": True}, "[win]"))
            ops.append(({"op": "selector_rm", "p": p}, None))
    if "var" in kinds:
        for k in ("name", "version"):
            for v in ("foo", "bar", 3, 1, True):
                r = f'"{v}"' if isinstance(v, str) and st["ver"] == 0 else str(v) if st["ver"] == 0 else str(v).lower()
                ops.append(({"op": "var_set", "k": k, "val": node("sca", v=tag(v), r=r)}, v))
            if st["ver"] == 0:
                ops.append(({"op": "var_del", "k": k}, None))
    if not full and len(ops) > limit:
        ops = rng.sample(ops, limit)
    return ops


def _replay(a: tuple[Any, ...]) -> Optional[dict[str, Any]]:
    text, beh, ops, obs = a
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    ok, p = rd.guard(lambda: RecipeParser(text))
    if not ok:
        return {"what": f"the recipe can not be parsed: {p}", "recipe": text}
    s = object.__new__(rd.Session)
    s.ok, s.p, s.cls, s.text = True, p, RecipeParser, text
    first = text.splitlines()
    for h in beh["hist"]:
        op, py = ops[h["k"] - 1]
        ret = s.perform(op, py)
        if ret != h["ret"]:
            return {"what": f"{op['op']} {op.get('o', '')} {rd.pstr(op.get('p', []))} {py!r} returned {ret}, expected {h['ret']}",
                    "recipe": text, "ops": [[ops[x["k"] - 1], x["ret"]] for x in beh["hist"]]}
    got = s.lines()
    if got != beh["text"]:
        return {"what": f"text differs after {[ops[x['k'] - 1][0]['op'] + ' ' + ops[x['k'] - 1][0].get('o', '') + ' ' + rd.pstr(ops[x['k'] - 1][0].get('p', [])) for x in beh['hist']]}",
                "recipe": text, "ops": [[ops[x["k"] - 1], x["ret"]] for x in beh["hist"]], "expected_text": "\n".join(beh["text"]),
                "observed_text": "\n".join(got)}
    if obs == "mod":
        seen = (bool(p.is_modified()), p.diff() != "")
        # An edit may put back what was there before: the recipe counts as modified, and the difference is empty.
        want = (beh["mod"], beh["mod"] and "\n".join(beh["text"]).splitlines() != first)
        if seen != want:
            return {"what": f"(modified, has a difference) is {seen}, expected {want}", "recipe": text,
                    "ops": [[ops[x["k"] - 1], x["ret"]] for x in beh["hist"]]}
    if obs == "vars":
        o: dict[str, Any] = {}
        s._o_vars(o)
        # The specification keeps the values of variables that are not collections.
        o["vars"] = [{**v, "v": "" if v["v"].startswith("?") else v["v"]} for v in o["vars"]]
        if o["vars"] != beh["vars"] or not o["absent"]:
            return {"what": f"the variables are {o}, expected {beh['vars']}", "recipe": text,
                    "ops": [[ops[x["k"] - 1], x["ret"]] for x in beh["hist"]]}
    return None


def exhaustive(ctx: Ctx, kinds: set[str], depth: int, limit: int, obs: str = "") -> None:
    inits = small_recipes()
    ops = [small_ops(st, False, kinds, ctx.rng, limit) for st in inits]
    g = rg.Gen(random.Random(1), 0)
    g._noise = False
    texts = []
    for st in inits:
        g.ver = st["ver"]
        texts.append(g.text(st, False))
    f = write_json(ctx.scratch / "mc.json", {"inits": inits, "ops": [[o for o, _ in x] for x in ops], "depth": depth, "all": True})
    r = tlc(ctx, "RecipeMC", env={"MC_FILE": str(f)}, expect_violation=True)
    if r["violated"]:
        raise RuntimeError(f"the specification breaks its own properties: {r['violated']}\n{r['out'][-5000:]}")
    behs = [b for tg, b in r["records"] if tg == "B"]
    res = pmap(_replay, [(texts[b["ini"] - 1], b, ops[b["ini"] - 1], obs) for b in behs], 64)
    for b, x in zip(behs, res):
        ctx.nontriv(b["hist"] + [b["ini"]])
        if x is not None:
            ctx.fail(x["what"], x)
    ctx.traces += len(behs)
    ctx.evaluations += len(behs)
    ctx.extra["replayed_behaviours"] = ctx.extra.get("replayed_behaviours", 0) + len(behs)
    ctx.extra["exhaustive_scope"] = f"{len(inits)} recipes x {[len(x) for x in ops]} operations, all sequences up to length {depth}"


RULE = ("A step counts if it calls an operation other than a read; steps are told apart by the recipe they act on, "
        "the operation and the result.")


def _std(ctx: Ctx) -> None:
    ctx.rules.append(RULE)
    ctx.assumptions += [
        "conda.models.match_spec is a validated stand-in if conda is not installed (it is not in this sandbox)",
        "recipes are in the block style that the project documents; see DESIGN.md for the forms left out",
    ]


# ---- known findings ----
def parser(text: str) -> Any:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    return RecipeParser(text)


def probe(ctx: Ctx, fid: str, what: str, fn: Any, expected: Any) -> None:
    """A specific input for which the code is known to break the property."""
    ok, v = rd.guard(fn)
    if v != expected:
        ctx.fail(f"{what}: expected {expected!r}, observed {v!r}", {"finding": fid, "what": what, "expected": expected, "observed": v}, fid)


def _patched(text: str, patch: Any) -> Any:
    p = parser(text)
    p.patch(patch)
    return p


def known_C01(ctx: Ctx) -> None:
    probe(ctx, "KF-quoted-number", 'the string "1.10" is rendered without its quotes',
          lambda: rd.independent_yaml(parser('package:\n  version: "1.10"\n').render()), {"package": {"version": "1.10"}})
    probe(ctx, "KF-quoted-hash", "a # in a quoted string is kept",
          lambda: rd.independent_yaml(parser('about:\n  summary: "a # b"\n').render()), {"about": {"summary": "a # b"}})
    probe(ctx, "KF-jinja-statement", "a Jinja statement other than `set` is kept",
          lambda: "{% if x %}" in parser("{% if x %}\nbuild:\n  number: 0\n{% endif %}\n").render(), True)
    probe(ctx, "KF-variable-selector", "the selector of a variable is kept",
          lambda: "# [win]" in parser('{% set version = "1.0" %}  # [win]\nbuild:\n  number: 0\n').render(), True)
    probe(ctx, "KF-indentless-list", "a list at the indentation of its key belongs to the key",
          lambda: parser("a:\n  b:\n  - x\n  - y\n").render_to_object(), {"a": {"b": ["x", "y"]}})
    probe(ctx, "KF-indent4", "four-space indentation is supported",
          lambda: parser("a:\n    b:\n        c: 1\n    d: 2\ne: 3\n").render_to_object(), {"a": {"b": {"c": 1}, "d": 2}, "e": 3})


def known_C02(ctx: Ctx) -> None:
    t = "build:\n  number: 0\n  skip: true\n  e: []\n  n:\n  l:\n    - a\n"
    probe(ctx, "KF-patch-quoted-number", 'patching in the string "1.10" gives a string',
          lambda: _patched(t, {"op": "add", "path": "/build/x", "value": "1.10"}).get_value("/build/x"), "1.10")
    probe(ctx, "KF-patch-hash", "patching in a string with a # gives that string",
          lambda: rd.independent_yaml(_patched(t, {"op": "add", "path": "/build/x", "value": "a # b"}).render())["build"]["x"], "a # b")
    probe(ctx, "KF-patch-empty-string", "patching in an empty string gives an empty string",
          lambda: rd.independent_yaml(_patched(t, {"op": "add", "path": "/build/x", "value": ""}).render())["build"]["x"], "")
    probe(ctx, "KF-test-bool-number", "the number 1 is not equal to true",
          lambda: parser(t).patch({"op": "test", "path": "/build/skip", "value": 1}), False)
    probe(ctx, "KF-test-null", "an empty key is equal to null",
          lambda: parser(t).patch({"op": "test", "path": "/build/n", "value": None}), True)
    probe(ctx, "KF-add-empty-list", "a member can be added to an empty list",
          lambda: parser(t).patch({"op": "add", "path": "/build/e/-", "value": "x"}), True)
    probe(ctx, "KF-add-index-null", "an index of an empty key is not a key",
          lambda: rd.independent_yaml(_patched(t, {"op": "add", "path": "/build/n/0", "value": "x"}).render())["build"]["n"], ["x"])
    probe(ctx, "KF-remove-last", "a list that loses its last member is an empty list",
          lambda: rd.independent_yaml(_patched(t, {"op": "remove", "path": "/build/l/0"}).render())["build"]["l"], [])


def known_C04(ctx: Ctx) -> None:
    probe(ctx, "KF-replace-comment", "replacing the value of a key keeps the comment of the key",
          lambda: _patched("source:\n  sha256: abc  # [win] keep\n", {"op": "replace", "path": "/source/sha256", "value": "def"}).render(),
          "source:\n  sha256: def  # [win] keep\n")


def known_C06(ctx: Ctx) -> None:
    from conda_recipe_manager.parser.enums import SelectorConflictMode as M

    def _f(mode: Any) -> str:
        p = parser("build:\n  number: 0  # [win] a note\n")
        p.add_selector("/build/number", "[osx]", mode)
        return str(p.render())

    probe(ctx, "KF-selector-and-comment", "the comment is kept when a selector is merged", lambda: _f(M.AND),
          "build:\n  number: 0  # [win and osx] a note\n")
    probe(ctx, "KF-selector-replace-comment", "the comment is kept when a selector is replaced", lambda: _f(M.REPLACE),
          "build:\n  number: 0  # [osx] a note\n")


def known_C08(ctx: Ctx) -> None:
    def _f() -> str:
        p = parser('{% set name = "foo" %}\n\npackage:\n  name: foo\n')
        p.set_variable("x", "{{ name | lower }}")
        return str(p.render().split("\n", 2)[1])

    probe(ctx, "KF-variable-expression", "an expression is not quoted", _f, "{% set x = name | lower %}")


def known_C10(ctx: Ctx) -> None:
    probe(ctx, "KF-get-empty-key", "the value of an empty key is null", lambda: parser("build:\n  n:\n").get_value("/build/n"), None)
    probe(ctx, "KF-paths-of-nothing", "an empty recipe has no values", lambda: parser("").list_value_paths(), [])
    probe(ctx, "KF-flow-address", "members of flow collections are addressable",
          lambda: parser("build:\n  skip: [a, b]\n").contains_value("/build/skip/0"), True)
    probe(ctx, "KF-get-bracket-string", "a quoted string is a string",
          lambda: parser('about:\n  s: "[abc]"\n').get_value("/about/s"), "[abc]")


def known_C11(ctx: Ctx) -> None:
    probe(ctx, "KF-only-comments", "a key with nothing but comments is null",
          lambda: parser("build:\n  a:\n    # x\n  b: 1\n").render_to_object(), {"build": {"a": None, "b": 1}})


# ---- checks ----
def check_C01(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"text", "fix", "yaml", "obj"}, {"read": 1}, ctx.pick(1400, 9000), 1, depth=4)
    traces(ctx, {"text", "fix", "yaml"}, {"patch": 4, "selector_add": 1, "comment": 1, "var_set": 1}, ctx.pick(220, 2400), 6)
    known_C01(ctx)


def check_C02(ctx: Ctx) -> None:
    _std(ctx)
    exhaustive(ctx, {"patch"}, 1, ctx.pick(400, 100000))
    if not ctx.quick:
        exhaustive(ctx, {"patch"}, 2, 90)
    traces(ctx, {"text", "yaml", "obj", "ret", "get"}, {"patch": 1}, ctx.pick(260, 3000), ctx.pick(8, 14))
    known_C02(ctx)


def check_C03(ctx: Ctx) -> None:
    _std(ctx)
    mix = {"patch": 4, "badpatch": 2, "selector_add": 1, "selector_rm": 1, "comment": 1, "read": 0.5}
    traces(ctx, {"text", "obj", "sels", "vars", "mod", "diff", "coms", "ret", "paths"}, mix, ctx.pick(300, 3000), ctx.pick(8, 12))
    # The modification flag only tells something while nothing was modified.
    traces(ctx, {"text", "sels", "vars", "mod", "diff", "ret"},
           {"badpatch": 2, "selector_rm": 3, "selector_add": 1, "comment": 1, "var_del": 2, "patch": 1, "read": 0.5}, ctx.pick(500, 4000), 3, depth=2)


def check_C04(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"text"}, MIX_EDIT, ctx.pick(500, 5000), ctx.pick(10, 16), depth=4)
    exhaustive(ctx, {"patch", "sel", "com", "var"}, 2, ctx.pick(22, 110))
    known_C04(ctx)


def check_C05(ctx: Ctx) -> None:
    _std(ctx)
    mix = {"patch": 3, "selector_add": 3, "selector_rm": 2, "comment": 1, "search_patch": 0.5}
    traces(ctx, {"sels", "at", "text"}, mix, ctx.pick(600, 5000), ctx.pick(8, 14), comments=0.5)


def check_C06(ctx: Ctx) -> None:
    _std(ctx)
    exhaustive(ctx, {"sel"}, 2, ctx.pick(40, 300))
    traces(ctx, {"text", "at", "sels", "ret", "obj"}, {"selector_add": 3, "selector_rm": 2, "comment": 0.5, "patch": 1}, ctx.pick(300, 3000),
           ctx.pick(8, 14), comments=0.5)
    known_C06(ctx)


def check_C07(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"mod", "diff", "ident", "text"}, {**MIX_EDIT, "read": 1.5}, ctx.pick(350, 3500), ctx.pick(8, 12))
    traces(ctx, {"mod", "diff", "text", "ret"}, {"selector_rm": 3, "var_del": 2, "badpatch": 1, "read": 3, "patch": 1}, ctx.pick(400, 3000), 3, depth=2)
    exhaustive(ctx, {"patch", "sel", "com", "var"}, 1, 10000, obs="mod")
    exhaustive(ctx, {"sel", "com", "var"}, 2, ctx.pick(25, 90), obs="mod")


def check_C08(ctx: Ctx) -> None:
    _std(ctx)
    mix = {"var_set": 3, "var_del": 2, "patch": 2, "search_patch": 0.5, "read": 0.3}
    traces(ctx, {"vars", "refs", "text", "ret"}, mix, ctx.pick(450, 4000), ctx.pick(8, 14), jinja=0.45)
    exhaustive(ctx, {"var"}, ctx.pick(3, 4), 20, obs="vars")
    exhaustive(ctx, {"ctx", "var"}, 1, 10000, obs="vars")
    exhaustive(ctx, {"ctx", "var"}, 2, ctx.pick(40, 110), obs="vars")
    known_C08(ctx)


def check_C09(ctx: Ctx) -> None:
    _std(ctx)
    exhaustive(ctx, {"com"}, 2, ctx.pick(30, 200))
    traces(ctx, {"coms", "text", "ret", "sels"}, {"comment": 4, "patch": 2, "selector_add": 1, "selector_rm": 1}, ctx.pick(350, 3500),
           ctx.pick(8, 14), comments=0.5, full_comments=0.25)


def check_C10(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"paths", "get"}, {"patch": 3, "search_patch": 0.5, "read": 0.5}, ctx.pick(300, 2500), ctx.pick(7, 12), depth=4)
    known_C10(ctx)


def check_C11(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"obj", "yaml", "get"}, MIX_EDIT, ctx.pick(300, 2500), ctx.pick(8, 12), depth=4)
    known_C11(ctx)


def check_C12(ctx: Ctx) -> None:
    _std(ctx)
    traces(ctx, {"find", "search", "ret", "text"}, {"search_patch": 3, "patch": 1, "comment": 0.5, "selector_add": 0.3}, ctx.pick(800, 4000),
           ctx.pick(7, 12))
