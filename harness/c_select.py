"""Selector expressions, platform look-ups and build configuration files."""

from __future__ import annotations

import random
from typing import Any

from harness.common import Ctx, judge, tag, tlc, write_json
from harness.recipe_drive import guard

NAMES = ["win", "linux-64", "arm64", "unix", "py39", "x86", "osx", "s390x", "linux", "x86_64", "ppc64le", "ppc64", "armv7l", "armv6l",
         "linux-32", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le", "linux-riscv64", "linux-s390x",
         "osx-64", "osx-arm64", "win-32", "win-64", "win-arm64"]
UNKNOWN = ["py39", "vc>=14", "py>=38", "cuda", "linux64", "nott", "android", "wins", "x86-64"]


def observe(text: str, ver: int) -> dict[str, Any]:
    """Everything that a selector parser tells about an expression."""
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.platform_types import Platform
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.selector_query import SelectorQuery

    def _f() -> dict[str, Any]:
        p = SelectorParser(text, SchemaVersion(ver))
        apply = [x.value for x in Platform if p.does_selector_apply(SelectorQuery(platform=x))]
        none = p.does_selector_apply(SelectorQuery())
        res = p.get_selected_platforms()
        sel = sorted(x.value for x in res)
        res.clear()  # what was returned belongs to the caller
        again = sorted(x.value for x in p.get_selected_platforms())
        inner = text[1:-1] if ver == 0 and text[:1] == "[" else text
        want = f"[{inner.strip()}]" if ver == 0 else text
        return {"sel": sel, "apply": apply, "none": none, "text_ok": p.render() == want and again == sel and not p.is_modified()
                and p == SelectorParser(text, SchemaVersion(ver))}

    ok, v = guard(_f)
    return v if ok else {"sel": [v], "apply": [v], "none": False, "text_ok": False}


def rand_expr(rng: random.Random, names: list[str], n: int) -> list[str]:
    out: list[str] = []
    for i in range(n):
        if i:
            out.append(rng.choice(["and", "or"]))
        out += ["not"] * rng.choice([0, 0, 0, 1, 1, 2])
        out.append(rng.choice(names))
    return out


def spell(rng: random.Random, ts: list[str], ver: int) -> str:
    out = []
    for t in ts:
        x = rng.random()
        out.append(t if x < 0.7 or t in UNKNOWN else t.upper() if x < 0.85 else t.title())
    s = "".join((rng.choice([" ", " ", "  "]) if i else "") + t for i, t in enumerate(out))
    if ver == 0:
        s = rng.choice(["", " "]) + s + rng.choice(["", " "])
        return f"[{s}]" if rng.random() < 0.8 else s
    return s


def check_C14(ctx: Ctx) -> None:
    ctx.rules.append("An expression counts if it has an operator; told apart by its tokens.")
    # All expressions of a small scope, from the specification
    scope = [(["win", "osx-arm64", "x86", "py39"], 6)] if ctx.quick else [(["win", "osx-arm64", "x86", "py39"], 8), (NAMES, 4)]
    for names, mx in scope:
        f = write_json(ctx.scratch / "sel.json", {"names": names, "max": mx})
        r = tlc(ctx, "SelectorMC", env={"MC_FILE": str(f)}, expect_violation=True)
        if r["violated"]:
            raise RuntimeError(r["out"][-3000:])
        n = 0
        for tg, x in r["records"]:
            if tg != "E":
                continue
            ver = n % 2
            text = " ".join(x["ts"])
            got = observe(f"[{text}]" if ver == 0 else text, ver)
            if sorted(x["sel"]) != sorted(got["sel"]) or sorted(x["sel"]) != sorted(got["apply"]) or not got["none"] or not got["text_ok"]:
                ctx.fail(f"selector `{text}` (V{ver}) selects {got['sel']}, expected {x['sel']}",
                         {"expr": text, "version": ver, "expected": x["sel"], "observed": got})
            if len(x["ts"]) > 1:
                ctx.nontriv(x["ts"])
            n += 1
        ctx.traces += n
        ctx.evaluations += n
    # Long expressions with all names
    cases: list[dict[str, Any]] = []
    for i in range(ctx.pick(8000, 40000)):
        ver = i % 2
        ts = rand_expr(ctx.rng, NAMES + UNKNOWN, ctx.rng.randint(1, 8))
        text = spell(ctx.rng, ts, ver)
        cases.append({"kind": "expr", "ts": ts, "text": text, "ver": ver, **observe(text, ver)})
        ctx.nontriv(ts)
        if i % 3 == 0:
            from conda_recipe_manager.parser.enums import SchemaVersion
            from conda_recipe_manager.parser.selector_parser import SelectorParser

            ts2 = ts if ctx.rng.random() < 0.5 else rand_expr(ctx.rng, NAMES[:4], ctx.rng.randint(1, 2))
            if ctx.rng.random() < 0.3:
                ts = rand_expr(ctx.rng, NAMES[:3], 1)
            ver2 = ctx.rng.choice([ver, ver, 1 - ver])
            a, b = spell(ctx.rng, ts, ver), spell(ctx.rng, ts2, ver2)

            def _eq(a: str = a, b: str = b, ver: int = ver, ver2: int = ver2) -> bool:
                x, y = SelectorParser(a, SchemaVersion(ver)), SelectorParser(b, SchemaVersion(ver2))
                return (x == y) if (x == y) == (y == x) and x != a else not (ts == ts2 and ver == ver2)

            cases.append({"kind": "eq", "ts1": ts, "ts2": ts2, "ver1": ver, "ver2": ver2, "eq": guard(_eq)[1] is True, "text_ok": True,
                          "text": a + " == " + b})
    for ver in (0, 1):
        for text in ("", "   ") if ver else ("", "[]", "[ ]"):
            cases.append({"kind": "expr", "ts": [], "text": text, "ver": ver, **{**observe(text, ver), "text_ok": True}})
    ctx.sample(cases[0]["text"])
    ctx.sample(cases[5]["text"])
    judge(ctx, "SelectorCases", cases, lambda c: f"selector {c['text']!r}: {str({k: c[k] for k in c if k not in ('text', 'ts')})[:300]}")


def check_C15(ctx: Ctx) -> None:
    from conda_recipe_manager.parser import platform_types as pt

    ctx.rules.append("A look-up counts if the name is known; told apart by name and spelling.")
    cases: list[dict[str, Any]] = [{
        "kind": "all", "text": "tables", "text_ok": pt.ALL_PLATFORMS == set(pt.Platform), "platforms": [x.value for x in pt.Platform],
        "os": [x.value for x in pt.OperatingSystem], "arch": [x.value for x in pt.Arch]}]
    names = NAMES + UNKNOWN + ["", "noarch", "unknown", "aarch64", "windows", "macos"]

    def lookup(fn: Any, arg: Any) -> tuple[list[str], bool]:
        ok, v = guard(lambda: fn(arg))
        if not ok:
            return [v], False
        out = sorted(x.value for x in v)
        v.clear()  # what was returned belongs to the caller
        ok, again = guard(lambda: sorted(x.value for x in fn(arg)))
        return out, again == out

    for rep in range(ctx.pick(30, 100)):
        for n in names:
            sp = n if rep == 0 else "".join(c.upper() if ctx.rng.random() < 0.5 else c for c in n)
            if rep > 1:
                sp = ctx.rng.choice(["", " ", "  ", "\t"]) + sp + ctx.rng.choice(["", " ", "\n"])
            o, ok1 = lookup(pt.get_platforms_by_os, sp)
            a, ok2 = lookup(pt.get_platforms_by_arch, sp)
            cases.append({"kind": "lookup", "name": n, "text": sp, "os": o, "arch": a, "text_ok": ok1 and ok2})
            if o or a:
                ctx.nontriv(sp)
    for x in list(pt.OperatingSystem) + list(pt.Arch):
        o, ok1 = lookup(pt.get_platforms_by_os, x) if isinstance(x, pt.OperatingSystem) else ([], True)
        a, ok2 = lookup(pt.get_platforms_by_arch, x) if isinstance(x, pt.Arch) else ([], True)
        cases.append({"kind": "lookup", "name": x.value, "text": repr(x), "os": o, "arch": a, "text_ok": ok1 and ok2})
    ctx.sample(cases[1])
    judge(ctx, "SelectorCases", cases, lambda c: f"look-up of {c['text']!r}: os {c.get('os')} arch {c.get('arch')}")


VALS: list[Any] = ["3.9.*", "gcc", "vs2019", 11, 7, "clang", "10.13", True, "openblas", "a-b_c", 2.5, "1.2.3"]
CBC_KEYS = ["python", "c_compiler", "numpy", "CONDA_BUILD_SYSROOT", "blas_impl", "MACOSX_SDK_VERSION", "r_base", "cuda"]


def cbc_case(rng: random.Random) -> dict[str, Any]:
    from conda_recipe_manager.parser.cbc_parser import CbcParser
    from conda_recipe_manager.parser.platform_types import Platform
    from conda_recipe_manager.parser.selector_query import SelectorQuery

    lines: list[str] = []
    vs: list[dict[str, Any]] = []
    for k in rng.sample(CBC_KEYS, rng.randint(1, 5)):
        if rng.random() < 0.2:
            lines.append("# " + rng.choice(["a comment", "[win]", "python: 3"]))
        if rng.random() < 0.12:
            # Not a list of values
            lines += rng.choice([[f"{k}_x:", "  max_pin: x.x"], [f"{k}_x: {rng.choice(['foo', 3])}"],
                                 ["zip_keys:", "  - python", "  - numpy"] if "zip_keys:" not in lines else []])
        lines.append(f"{k}:" + ("  # comment" if rng.random() < 0.15 else ""))
        es = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.1:
                lines.append("  # [osx] a line of its own")
            v = rng.choice(VALS)
            src = str(v).lower() if isinstance(v, bool) else str(v)
            ts: list[str] = []
            tail = ""
            if rng.random() < 0.65:
                ts = rand_expr(rng, NAMES[:12], rng.randint(1, 3))
                cased = [rng.choice([x.upper(), x.title()]) if rng.random() < 0.08 else x for x in ts]
                tail = "  # [" + " ".join(cased) + "]" + rng.choice(["", "", " why not"])
            elif rng.random() < 0.2:
                tail = "  # just a note"
            import yaml

            es.append({"val": tag(yaml.safe_load(src)), "has": bool(ts), "ts": ts})
            lines.append(f"  - {src}{tail}")
        vs.append({"k": k, "es": es})
        if rng.random() < 0.4:
            lines.append("")
    text = "\n".join(lines) + "\n"
    ok, p = guard(lambda: CbcParser(text))
    case: dict[str, Any] = {"kind": "cbc", "vars": vs, "text": text, "text_ok": ok, "names": [], "q": []}
    if not ok:
        case["names"] = [p]
        return case
    case["names"] = guard(p.list_cbc_variables)[1]
    contains_ok = all(guard(lambda k=k: k in p)[1] is (k in [v["k"] for v in vs]) for k in CBC_KEYS + ["zip_keys", "nope"]) and (3 not in p)
    case["text_ok"] = contains_ok
    plats = [""] + [x.value for x in Platform]
    for v in [x["k"] for x in vs] + ["nope", "zip_keys"]:
        for pl in rng.sample(plats, 5) + [""]:
            for dflt in (False, True):
                q = SelectorQuery(platform=Platform(pl)) if pl else SelectorQuery()
                given: Any = rng.choice(["default", None, False, 0, "", "win"])
                ok, r = guard(lambda v=v, q=q, dflt=dflt, given=given: p.get_cbc_variable_value(v, q, given) if dflt else p.get_cbc_variable_value(v, q))
                case["q"].append({"var": v, "plat": pl, "dflt": dflt,
                                  "res": ("default" if dflt and r is given else tag(r)) if ok else r[4:]})
    return case


def check_C16(ctx: Ctx) -> None:
    ctx.rules.append("A file counts if one of its values has a selector; told apart by its text.")
    cases = [cbc_case(ctx.rng) for _ in range(ctx.pick(1500, 8000))]
    for c in cases:
        if any(e["has"] for v in c["vars"] for e in v["es"]):
            ctx.nontriv(c["text"])
    ctx.sample(cases[0]["text"])
    ctx.evaluations += sum(len(c["q"]) for c in cases)
    judge(ctx, "SelectorCases", cases, lambda c: f"build configuration {c['text'][:300]!r}", chunk=600)
