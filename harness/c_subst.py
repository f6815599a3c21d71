"""Substitution of variables in values."""

from __future__ import annotations

import random
from typing import Any

from harness.c_recipe import parser, probe
from harness.common import Ctx, pmap, tag, tlc, write_json
from harness.recipe_drive import guard

NAMES = ["name", "version", "build", "my_name", "sha256", "org"]
STRS = ["foo", "Bar-baz", "1.2.3", "MyPkg", "a1b2c3", "2024.1.0", "x"]
NUMS = [0, 3, 42, 107, 1, 20240101, 1000000007, 1.5, 2.25, 10.75]
LITS = ["foo", "lib-", "https://example.com/", "/archive/", ".tar.gz", "-", " >=", "numpy >=", "x86", "_", "v", " ", "name"]


def segment(rng: random.Random, ver: int) -> dict[str, Any]:
    o = "{{" if ver == 0 else "${{"
    sp = rng.choice([" ", " ", "", "  "])
    x = rng.random()
    if x < 0.6:
        n = rng.choice(NAMES + ["nope", "nam"])
        idx = rng.choice(["", "", "", "0", "1", "2", "19"])
        low, up = rng.random() < 0.3, rng.random() < 0.2
        body = n + (f"[{idx}]" if idx else "") + (rng.choice([" | ", "|"]) + "lower" if low else "") + (" | upper" if up else "")
        return {"t": "var", "s": f"{o}{sp}{body}{sp}" + "}}", "n": n, "low": low, "up": up, "idx": idx}
    if x < 0.8:
        def operand() -> dict[str, str]:
            k = rng.choice(["name", "name", "num", "str"])
            return {"k": k, "s": rng.choice(NAMES + ["nope"]) if k == "name" else str(rng.choice(NUMS)) if k == "num" else rng.choice(["abc", "x.1", "42x"])}

        left, r = operand(), operand()
        q = rng.choice(["'", '"'])
        wr = lambda a: f"{q}{a['s']}{q}" if a["k"] == "str" else a["s"]  # noqa: E731
        return {"t": "add", "s": f"{o}{sp}{wr(left)} + {wr(r)}{sp}" + "}}", "l": left, "r": r}
    b = rng.choice(["compiler('c')", "name.split('.')[0]", "name ~ 'x'", "pin_compatible('numpy')", "stdlib(\"c\")", "name if build else org"])
    return {"t": "other", "s": f"{o} {b} " + "}}"}


def value(rng: random.Random, ver: int) -> list[dict[str, Any]]:
    for _ in range(100):
        n = rng.choice([1, 1, 2, 3, 4])
        if n == 1:
            return [segment(rng, ver)]
        out: list[dict[str, Any]] = []
        for i in range(n):
            if rng.random() < 0.5 and not (out and out[-1]["t"] == "lit"):
                out.append({"t": "lit", "s": rng.choice(LITS)})
            else:
                g = segment(rng, ver)
                while g["t"] == "add":  # known finding KF-concat-quotes
                    g = segment(rng, ver)
                out.append(g)
        text = "".join(g["s"] for g in out)
        if text != text.strip() or text[0] in "->_" or text[:1] in ".":
            continue
        return out
    raise AssertionError


def setting(rng: random.Random) -> dict[str, Any]:
    num = rng.random() < 0.3
    return {"n": rng.choice(NAMES), "num": num, "s": str(rng.choice(NUMS)) if num else rng.choice(STRS)}


def case(rng: random.Random, ver: int, n_ops: int) -> dict[str, Any]:
    names = rng.sample(NAMES, rng.randint(1, 4))
    init = [{**setting(rng), "n": n} for n in names]
    vals = [value(rng, ver) for _ in range(7)]
    txt = ["".join(g["s"] for g in v) for v in vals]
    lines: list[str] = []
    if ver == 0:
        for v in init:
            lines.append("{%" + f" set {v['n']} = " + (v["s"] if v["num"] else f'"{v["s"]}"') + " %}")
        lines.append("")
    else:
        lines += ["schema_version: 1", "context:"] + [f"  {v['n']}: {v['s']}" for v in init]
    lines += [
        "package:", f"  name: {txt[0]}", "source:", f"  url: {txt[1]}  # [win]", "  k: x", "requirements:", "  host:", f"    - {txt[2]}", "    - numpy",
        "tests:", f"  - script: {txt[3]}", "    other: 1", f"  - script: {txt[4]}",
        "about:", f"  one: {txt[5]}", "  lst:", f"    - {txt[6]}", "    - foo  # a comment", "  bare:", "  k: 3",
    ]
    text = "\n".join(lines) + "\n"
    paths = ["/package/name", "/source/url", "/requirements/host/0", "/tests/0/script", "/tests/1/script", "/about/one", "/about/lst/0"]
    ok, p = guard(lambda: parser(text))

    def dig(d: Any, path: str) -> Any:
        for t in path.split("/")[1:]:
            d = d[int(t)] if isinstance(d, list) else d[t]
        return d

    def read() -> list[dict[str, Any]]:
        out = []
        for i, path in enumerate(paths):
            top, last = "/" + path.split("/")[1], path.split("/")[2:]
            fns = [
                lambda path=path: p.get_value(path, sub_vars=True),
                lambda path=path: dig(p.render_to_object(replace_variables=True), path),
                lambda top=top, last=last: dig(p.get_value(top, sub_vars=True), "/" + "/".join(last)),
            ]
            if i == 0:
                fns.append(lambda: p.get_recipe_name())
            got = []
            for f in fns:
                ok2, v = guard(f)
                got.append(tag(v))
            if i == 0:
                # A name is always text.
                got[-1] = got[0] if got[-1] == "s:" + str(guard(fns[0])[1]) else got[-1]
            raw = {tag(guard(lambda path=path: p.get_value(path))[1]), tag(guard(lambda path=path: dig(p.render_to_object(), path))[1])}
            out.append({"got": got, "raw": raw.pop() if len(raw) == 1 else f"?{raw}"})
        return out

    bad = [{"got": [str(p)], "raw": ""}] * 7
    obs = [read() if ok else bad]
    ops = []
    for _ in range(n_ops):
        if rng.random() < 0.7:
            op = {"o": "set", **setting(rng)}
            v: Any = (float(op["s"]) if "." in op["s"] else int(op["s"])) if op["num"] else op["s"]
            if ver == 1 and not op["num"] and op["s"].replace(".", "").isdigit() and op["s"].count(".") == 1:
                continue
            guard(lambda: p.set_variable(op["n"], v))
        else:
            if len(guard(p.list_variables)[1]) < 2:
                continue
            op = {"o": "del", "n": rng.choice(NAMES), "s": "", "num": False}
            guard(lambda: p.del_variable(op["n"]))
        ops.append(op)
        obs.append(read() if ok else bad)
    return {"ver": ver, "init": init, "vals": vals, "ops": ops, "obs": obs, "text": text}


def _case(a: Any) -> dict[str, Any]:
    return case(random.Random(a[0]), a[1], a[2])


def check_C13(ctx: Ctx) -> None:
    ctx.rules.append("A read counts if its value has an expression; told apart by value and table of variables.")
    cases = pmap(_case, [(f"{ctx.seed}:{i}", i % 2, 3) for i in range(ctx.pick(1200, 8000))])
    for c in cases:
        for v in c["vals"]:
            ctx.nontriv([v, c["init"]])
    ctx.sample(cases[0]["text"])
    for o in range(0, len(cases), 500):
        part = cases[o : o + 500]
        f = write_json(ctx.scratch / "subst.json", part)
        r = tlc(ctx, "Subst", env={"CASES_FILE": str(f)})
        for tg, x in r["records"]:
            if tg == "FAIL":
                c = part[x["k"] - 1]
                vals = ["".join(g["s"] for g in c["vals"][b - 1]) for b in x["bad"]]
                ctx.fail(f"substitution of {vals} after {c['ops'][: x['i'] - 1]}: read {[c['obs'][x['i'] - 1][b - 1] for b in x['bad']]}, "
                         f"expected {x['want']}", {"recipe": c["text"], "ops": c["ops"][: x["i"] - 1], "want": x["want"],
                                                   "observed": c["obs"][x["i"] - 1]})
        ctx.traces += len(part)
    ctx.evaluations += sum(len(c["obs"]) * 7 * 4 for c in cases)
    probe(ctx, "KF-concat-quotes", "a concatenation inside of a larger string does not add quotes",
          lambda: parser('{% set v = "1.2" %}\nabout:\n  a: foo-{{ v + ".1" }}\n').get_value("/about/a", sub_vars=True), "foo-1.2.1")
    probe(ctx, "KF-nested-variables", "a variable defined by other variables is resolved",
          lambda: parser("schema_version: 1\ncontext:\n  a: x\n  b: v${{ a }}\nabout:\n  c: ${{ b }}\n").get_value("/about/c", sub_vars=True), "vx")
    probe(ctx, "KF-substituted-number", "the string 1.10 stays a string when it is substituted",
          lambda: parser('{% set v = "1.10" %}\nabout:\n  a: "{{ v }}"\n').get_value("/about/a", sub_vars=True), "1.10")
