"""C28 (license fields) and C30 (message tables)."""

from __future__ import annotations

import difflib
import json
import random
from typing import Any

from harness.common import REPO, Ctx, TlcError, pmap, tlc, write_json

_TBL: dict[str, list[str]] = {}


def _tbl() -> dict[str, list[str]]:
    """What names and IDs stand for, read from the database itself."""
    if not _TBL:
        data = json.loads((REPO / "conda_recipe_manager/licenses/spdx_licenses.json").read_text(encoding="utf-8"))
        ids = {x["licenseId"] for x in data["licenses"]}
        for x in data["licenses"]:
            _TBL.setdefault(x["licenseId"], []).append(x["licenseId"])
            # Names are not unique. An ID always stands for itself.
            if x["name"] not in ids:
                _TBL.setdefault(x["name"], []).append(x["licenseId"])
    return _TBL


def _close(word: str) -> list[dict[str, Any]]:
    """The entries that are most similar to a word, if the similarity is at least 0.6."""
    s = difflib.SequenceMatcher()
    s.set_seq2(word)
    best: list[tuple[int, str]] = []
    low = 600000
    for k in _tbl():
        s.set_seq1(k)
        if s.real_quick_ratio() * 1000000 + 1 < low or s.quick_ratio() * 1000000 + 1 < low:
            continue
        r = s.ratio()
        if r >= 0.6:
            v = round(r * 1000000)
            best.append((v, k))
            low = max(low, v - 50000)
    best.sort(reverse=True)
    return [{"k": k, "score": v} for v, k in best[:12]]


def _field(rng: random.Random) -> str:
    tbl = _tbl()
    keys = list(tbl)
    key = rng.choice(keys)
    kind = rng.choice(["exact", "perturb", "perturb", "expr", "expr", "comma", "inner", "patch", "case", "blank", "common", "random", "prefix"])
    if kind == "exact":
        return key
    if kind == "perturb":
        cs = list(key)
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(len(cs) + 1)
            op = rng.choice("idrs")
            if op == "i":
                cs.insert(i, rng.choice("abz -.0v\""))
            elif cs and i < len(cs):
                if op == "d":
                    del cs[i]
                elif op == "r":
                    cs[i] = rng.choice("aQ9 -")
                elif i + 1 < len(cs):
                    cs[i], cs[i + 1] = cs[i + 1], cs[i]
        return "".join(cs)
    if kind == "expr":
        ids = [k for k in keys if " " not in k]
        ops = ["AND", "OR", "WITH", "and", "or", "with", "And", "oR", "With"]
        s = rng.choice(ids)
        for _ in range(rng.randint(1, 3)):
            s = rng.choice(["{} {} {}", "({} {} {})", "{}  {} {}", "({}) {} ({})", "{} {}({})", "({}){} {}", "{}\t{}\n{}"]).format(s, rng.choice(ops), rng.choice(ids))
        return rng.choice(["", "", " "]) + s
    if kind == "comma":
        return rng.choice([f"{key}, {rng.choice(keys)}", f"{key},", f",{key}", f"{key},{rng.choice(keys)}"])
    if kind == "inner":  # Words that only contain an operator
        return rng.choice(["Oracle", "Land", "For MIT", "MIT without", "Ordinary BSD", "Sandia", "Andover", "Without", "xor", "withal MIT", "MIT-or-later", "GPL-2.0-or-later", "GPL-2.0-or-latr",
                           "LGPL-3.0-or-late", "GPLv2+-or-later", "or_MIT", "BSD-and-MIT", "GPL-with-exception", "Apache-2.0.or", "and", "OR", "(with)", "MIT or", "or MIT", "[MIT or BSD]"])
    if kind == "patch":
        s = rng.choice(["Unlimited", "UNLIMITED", "unlimited", 'BSD 2-Clause "Simplified"', 'bsd 2-clause "simplified"', "BSD 2-Clause Simplified", "Unlimitd", "un limited", 'BSD 2-Clause "Simplified" License'])
        return rng.choice(["", " ", "\t", "\n"]) + s + rng.choice(["", " ", "  ", "\n"])
    if kind == "case":
        return rng.choice([key.lower(), key.upper(), key.title(), key.swapcase()])
    if kind == "blank":
        return rng.choice([" {}", "{} ", "\t{}\n", "  {}  "]).format(key)
    if kind == "common":
        return rng.choice(["BSD", "BSD-3", "BSD 3-Clause", "GPL", "GPL-3", "GPLv3", "GPL (>= 2)", "GPL-2", "LGPL-2.1", "Apache", "Apache 2.0", "Apache License 2.0", "Apache Software License", "MIT License",
                           "The MIT License", "MIT/X11", "PSF", "Python-2.0", "ISC License", "MPL2", "MPL 2.0", "Public Domain", "Proprietary", "proprietary", "Unknown", "LGPL", "AGPL", "Zlib", "BSL", "Artistic", "CC0", "",
                           "http://example.com/license", "file LICENSE", "GPL-3 | file LICENSE", "MIT + file LICENSE", "Other", "none", "Intel Simplified Software License", "AGPL-3", "GFDL", "0BSD", "W3C"])
    if kind == "prefix":
        return rng.choice([key + " License", "The " + key, key[: rng.randint(1, len(key))], key + " v2", key * 2])
    return "".join(rng.choice("abcMITGPLsdl -.0123(),\"") for _ in range(rng.randint(0, 14)))


def _spdx_case(seed: str) -> dict[str, Any]:
    from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

    rng = random.Random(seed)
    field = "".join(c if ord(c) < 128 else "?" for c in _field(rng))
    su = SpdxUtils() if rng.random() < 0.05 else _shared(SpdxUtils)
    try:
        got = su.find_closest_license_match(field)
        got = "" if got is None else str(got)
    except Exception as e:  # pylint: disable=broad-exception-caught
        got = f"EXC {type(e).__name__}: {e}"
    return {"field": field, "close": _close(field), "got": got}


_SU: list[Any] = []


def _shared(cls: Any) -> Any:
    """One instance serves many fields; earlier fields must not matter."""
    if not _SU:
        _SU.append(cls())
    return _SU[0]


def check_C28(ctx: Ctx) -> None:
    ctx.rules.append("Fields that are not an exact name or ID count; told apart by the text.")
    ctx.assumptions.append("similarity is that of Python's difflib (SequenceMatcher.ratio of entry and field); when several entries are equally similar, each is accepted")
    ctx.assumptions.append("fields are ASCII")
    tbl = _tbl()
    cases = pmap(_spdx_case, [f"{ctx.seed}:C28:{i}" for i in range(ctx.pick(16000, 60000))], 32)
    # All names and IDs
    from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

    su = SpdxUtils()
    for k in tbl:
        if all(ord(c) < 128 for c in k):
            cases.append({"field": k, "close": [], "got": su.find_closest_license_match(k) or ""})
    for c in range(0, len(cases), 4000):
        part = cases[c : c + 4000]
        f = write_json(ctx.scratch / f"spdx-{c}.json", {"tbl": tbl, "cases": part})
        r = tlc(ctx, "SpdxCases", env={"CASES_FILE": str(f)})
        f.unlink()
        if r["distinct"] != len(part):
            raise TlcError(f"SpdxCases: {r['distinct']} states for {len(part)} cases")
        for tg, x in r["records"]:
            if tg == "FAIL":
                case = part[x["k"] - 1]
                ctx.fail(f"license field {case['field']!r} gives {case['got']!r}; expected one of {x['want']}", {"case": case, "expected": x["want"]})
    ctx.evaluations += len(cases)
    ctx.traces += len(cases)
    for c in cases:
        if c["field"] not in tbl:
            ctx.nontriv(c["field"])
    ctx.sample({"field": cases[0]["field"], "match": cases[0]["got"]})


def check_C30(ctx: Ctx) -> None:
    from conda_recipe_manager.types import MessageCategory, MessageTable

    ctx.rules.append("All histories of the model up to the depth count, each replayed with all reads after every step.")
    depth = ctx.pick(4, 5)
    texts = ["a", "b"]
    f = write_json(ctx.scratch / "mc.json", {"depth": depth, "texts": texts})
    r = tlc(ctx, "Messages", env={"MC_FILE": str(f)}, expect_violation=True)
    if r["violated"]:
        raise TlcError(f"the specification of messages breaks {r['violated']}")
    hists = [x for t, x in r["records"] if t == "B"]
    want = (3 * len(texts) + 1) ** depth
    if len(hists) != want:
        raise TlcError(f"{len(hists)} histories of {want}")
    cats = {"exception": MessageCategory.EXCEPTION, "error": MessageCategory.ERROR, "warning": MessageCategory.WARNING}
    # Longer histories are random concatenations. What is to be read after a clear does not depend on what was before.
    rng = ctx.rng
    runs = [[h] for h in hists] + [[{"cleared": True}] + [rng.choice(hists) for _ in range(6)] for _ in range(ctx.pick(4000, 10000))]
    for run in runs:
        t = MessageTable()
        other = MessageTable()  # Tables are independent
        log = []
        for part in run:
            if isinstance(part, dict):
                continue
            if len(run) > 1:
                t.clear_messages()
                log.append("clear")
            for e in part:
                log.append(e["op"] if e["op"] == "clear" else [e["c"], e["m"]])
                if e["op"] == "add":
                    t.add_message(cats[e["c"]], e["m"])
                else:
                    t.clear_messages()
                msgs = {k: list(t.get_messages(c)) for k, c in cats.items()}
                counts = {k: t.get_message_count(c) for k, c in cats.items()}
                tot = t.get_totals_message()
                v = e["view"]
                if msgs != v["msgs"] or counts != {k: len(x) for k, x in v["msgs"].items()} or tot not in v["totals"]:
                    ctx.fail(f"after {log}: messages {msgs}, counts {counts}, totals {tot!r}; expected {v}", {"history": log, "expected": v, "messages": msgs, "counts": counts, "totals": tot})
                    break
            if other.get_totals_message() != "" or any(other.get_messages(c) for c in cats.values()):
                ctx.fail(f"after {log}: another table has messages", {"history": log})
        ctx.traces += 1
        ctx.evaluations += sum(len(p) for p in run if isinstance(p, list))
        ctx.nontriv(log)
    ctx.extra["depth"] = depth
    ctx.sample({"history": [[e["op"], e["c"], e["m"]] for e in hists[-1]]})
