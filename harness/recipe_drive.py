"""Drives the real recipe parser through histories and records what a user can observe."""

from __future__ import annotations

import difflib
import copy
import hashlib
import json
import re
import signal
from typing import Any, Callable, Optional

import yaml

from harness.common import proj, tag
from harness.recipe_gen import Gen, Node, node, refs_table, rendered, strip_src, VARS


class Hang(Exception):
    pass


def _alarm(_s: Any, _f: Any) -> None:
    raise Hang()


def guard(fn: Callable[[], Any], seconds: int = 20) -> tuple[bool, Any]:
    """Calls code under test. An exception (or no answer) is an outcome like any other."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return True, fn()
    except Hang:
        return False, "EXC:Hang"
    except Exception as e:  # pylint: disable=broad-exception-caught
        return False, f"EXC:{type(e).__name__}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def toks(path: str) -> list[str]:
    return [t for t in path.split("/") if t]


def pstr(p: list[str]) -> str:
    return "/" + "/".join(p)


def no_comment(s: str) -> str:
    """A value without the comment that follows it."""
    m = re.match(r'"(?:[^"\\]|\\.)*"', s)
    return m.group() if m else re.sub(r"\s+#.*", "", s)


_SUB = re.compile(r"\$?\{\{.*?\}\}")


def independent_yaml(text: str) -> Any:
    """Reads a rendered recipe with PyYAML alone. Jinja expressions stand for themselves."""
    text = re.sub(r"(?m)^\{%.*%\}\n", "", text)
    subs: list[str] = []

    def _sub(m: re.Match[str]) -> str:
        subs.append(m.group())
        return f"JINJASUB{len(subs) - 1}X"

    def _back(d: Any) -> Any:
        if isinstance(d, dict):
            return {k: _back(v) for k, v in d.items()}
        if isinstance(d, list):
            return [_back(v) for v in d]
        if isinstance(d, str):
            return re.sub(r"JINJASUB(\d+)X", lambda m: subs[int(m.group(1))], d)
        return d

    return _back(yaml.safe_load(_SUB.sub(_sub, text)) or {})


def apply_unified_diff(orig: list[str], diff: str) -> list[str]:
    """What a unified diff turns the original into. Every context and removed line has to match the original."""
    out: list[str] = []
    pos = 0
    lines = diff.split("\n")
    while lines and not lines[0].startswith("@@"):
        lines.pop(0)
    for ln in lines:
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", ln)
        if m:
            start = int(m.group(1)) - (0 if m.group(2) == "0" else 1)
            out += orig[pos:start]
            pos = start
        elif ln.startswith("+"):
            out.append(ln[1:])
        elif ln.startswith("-") or ln.startswith(" "):
            if pos >= len(orig) or orig[pos] != ln[1:]:
                return ["DIFF DOES NOT APPLY"]
            if ln[0] == " ":
                out.append(orig[pos])
            pos += 1
        elif ln == "":
            continue  # difflib ends the control lines with a newline
        else:
            return ["NOT A DIFF"]
    return out + orig[pos:]


def wreck(v: Any) -> None:
    if isinstance(v, (list, dict)):
        for x in list(v.values()) if isinstance(v, dict) else v:
            wreck(x)
        v.clear()


def own(v: Any) -> Any:
    """A copy of an answer. The answer itself belongs to the caller, who may do anything with it, without effect on the recipe."""
    c = copy.deepcopy(v)
    wreck(v)
    return c


class Session:
    """One recipe of the real code, and the observations made of it."""

    def __init__(self, text: str, chk: set[str], rng: Any):
        from conda_recipe_manager.parser.recipe_parser import RecipeParser

        self.cls = RecipeParser
        self.text = text
        self.chk = chk
        self.rng = rng
        self.ok, self.p = guard(lambda: RecipeParser(text))

    def _call(self, fn: Callable[[], Any], default: Any) -> Any:
        ok, v = guard(fn)
        return v if ok else default(v) if callable(default) else default

    # -- observations --
    def observe(self) -> dict[str, Any]:
        p, chk = self.p, self.chk
        if not self.ok:
            return {
                "text": [p], "fix": [p], "obj": proj(p), "yaml": proj(p), "paths": [], "get": [{"p": ["?"], "has": True,
                "ok": True, "dflt": False, "d": proj(p)}], "sels": [{"s": p, "ps": []}], "at": [{"p": ["?"], "s": p}],
                "coms": [{"p": ["?"], "c": p}], "mod": True, "diff": [p], "ident": False, "vars": [{"k": p, "v": p}],
                "absent": False, "refs": [{"k": "?", "ps": [["?"]]}], "find": [{"v": "?", "ps": [["?"]]}],
                "search": [{"op": "search_patch", "hits": [], "lhits": [], "com": False, "ps": [["?"]]}],
            }
        order: list[tuple[str, Callable[[dict[str, Any]], None]]] = []
        if chk & {"text", "fix"}:
            order.append(("text", self._o_text))
        if "obj" in chk:
            order.append(("obj", lambda o: o.update(obj=self._call(lambda: proj(own(p.render_to_object())), proj))))
        if "yaml" in chk:
            order.append(("yaml", lambda o: o.update(
                yaml=self._call(lambda: proj(independent_yaml(p.render())), proj))))
        if "paths" in chk:
            order.append(("paths", lambda o: o.update(
                paths=self._call(lambda: [toks(x) for x in own(p.list_value_paths())], lambda e: [[e]]))))
        if "get" in chk:
            order.append(("get", self._o_get))
        if "sels" in chk:
            order.append(("sels", self._o_sels))
        if "at" in chk:
            order.append(("at", self._o_at))
        if "coms" in chk:
            order.append(("coms", lambda o: o.update(coms=self._call(
                lambda: [{"p": toks(k), "c": v.rstrip()} for k, v in own(p.get_comments_table()).items()],
                lambda e: [{"p": ["?"], "c": e}]))))
        if "mod" in chk:
            order.append(("mod", lambda o: o.update(mod=self._call(p.is_modified, "EXC"))))
        if "diff" in chk:
            order.append(("diff", self._o_diff))
        if "ident" in chk:
            order.append(("ident", self._o_ident))
        if "vars" in chk:
            order.append(("vars", self._o_vars))
        if "refs" in chk:
            order.append(("refs", lambda o: o.update(refs=[
                {"k": k, "ps": self._call(lambda k=k: [toks(x) for x in own(p.get_variable_references(k))], lambda e: [[e]])}
                for k in VARS])))
        if "find" in chk:
            vals: list[Any] = [0, 1, 42, True, False, None, "foo", "numpy >=1.20", 3.25, "42"]
            order.append(("find", lambda o: o.update(find=[
                {"v": tag(v), "ps": self._call(lambda v=v: [toks(x) for x in own(p.find_value(v))], lambda e: [[e]])}
                for v in vals])))
        if "search" in chk:
            order.append(("search", self._o_search))
        # Reads do not depend on one another, so they are made in any order.
        self.rng.shuffle(order)
        out: dict[str, Any] = {}
        for _, fn in order:
            fn(out)
        return out

    def lines(self) -> list[str]:
        return self._call(lambda: self.p.render().split("\n"), lambda e: [e])

    def _o_text(self, o: dict[str, Any]) -> None:
        o["text"] = self.lines()
        if "fix" in self.chk:
            o["fix"] = self._call(lambda: self.cls(self.p.render()).render().split("\n"), lambda e: [e])

    def known_paths(self) -> list[list[str]]:
        ps = self._call(lambda: own(self.p.list_value_paths()), [])
        out: dict[tuple[str, ...], None] = {}
        for x in ps:
            t = toks(x)
            for i in range(1, len(t) + 1):
                out[tuple(t[:i])] = None
        return [list(x) for x in out]

    def bad_paths(self, n: int = 4) -> list[list[str]]:
        ps = self.known_paths() or [["build"]]
        out = []
        for _ in range(n):
            q = list(self.rng.choice(ps))
            x = self.rng.random()
            if x < 0.35:
                q.append(self.rng.choice(["nope", "foo", "0", "63", "9"]))
            elif x < 0.6:
                q[-1] = self.rng.choice(["nope", "foo", "63", "5"])
            elif x < 0.8:
                q[self.rng.randrange(len(q))] = "nope"
            else:
                q.insert(self.rng.randrange(len(q) + 1), self.rng.choice(["0", "nope"]))
            out.append(q)
        return out

    def _o_get(self, o: dict[str, Any]) -> None:
        res = []
        for q in self.known_paths() + self.bad_paths():
            has = self._call(lambda q=q: self.p.contains_value(pstr(q)), True)
            ok, v = guard(lambda q=q: own(self.p.get_value(pstr(q))))
            if not ok and v != "EXC:KeyError":
                ok, v = True, v
            dv = self._call(lambda q=q: self.p.get_value(pstr(q), "the-default"), "EXC")
            res.append({"p": q, "has": has, "ok": ok, "dflt": dv == "the-default", "d": proj(v if ok else None)})
        o["get"] = res

    def _o_sels(self, o: dict[str, Any]) -> None:
        def _f() -> Any:
            out = []
            for s in own(self.p.list_selectors()):
                if not self.p.contains_selector(s):
                    s = "NOT CONTAINED " + s
                out.append({"s": s, "ps": [toks(x) for x in own(self.p.get_selector_paths(s))]})
            if self.p.contains_selector("[nope]") or self.p.get_selector_paths("[nope]"):
                out.append({"s": "[nope]", "ps": []})
            return out

        o["sels"] = self._call(_f, lambda e: [{"s": e, "ps": []}])

    def _o_at(self, o: dict[str, Any]) -> None:
        def _f(q: list[str]) -> str:
            path = pstr(q)
            has = self.p.contains_selector_at_path(path)
            ok, s = guard(lambda: self.p.get_selector_at_path(path))
            ok2, s2 = guard(lambda: self.p.get_selector_at_path(path, "[dflt]"))
            if ok != has:
                return "INCOHERENT"
            if ok:
                return s if s2 == s else "INCOHERENT DEFAULT"
            if s != "EXC:KeyError":
                return s
            exists = self.p.contains_value(path)
            if s2 != ("[dflt]" if exists else "EXC:KeyError"):
                return f"BAD DEFAULT {s2}"
            bad = {guard(lambda d=d: self.p.get_selector_at_path(path, d))[1] for d in ("", "dflt", "x [dflt]")}
            if bad != ({"EXC:ValueError"} if exists else {"EXC:KeyError"}):
                return f"BAD DEFAULT {sorted(map(str, bad))}"
            return ""

        o["at"] = [{"p": q, "s": self._call(lambda q=q: _f(q), lambda e: e)} for q in self.known_paths() + self.bad_paths(2)]

    def _o_diff(self, o: dict[str, Any]) -> None:
        def _f() -> list[str]:
            d = self.p.diff()
            if not self.p.is_modified():
                return [] if d == "" else ["DIFF OF AN UNMODIFIED RECIPE"]
            cur = self.p.render()
            got = apply_unified_diff(self.text.splitlines(), d) if d else self.text.splitlines()
            # `splitlines()` does not tell if there is a newline at the end
            return cur.split("\n") if got == cur.splitlines() else got + ["<diff>"]

        o["diff"] = self._call(_f, lambda e: [e])

    def _o_ident(self, o: dict[str, Any]) -> None:
        def _f() -> bool:
            t = self.p.render()
            again = self.cls(t)
            changed = self.cls(t + "zzz_extra: 1\n")
            return (
                self.p.calc_sha256() == hashlib.sha256(t.encode()).hexdigest()
                and t == self.p.render()
                and (self.p == again) == (again.render() == t)
                and self.p != changed
                and (again.calc_sha256() == self.p.calc_sha256()) == (again.render() == t)
            )

        o["ident"] = self._call(_f, False)

    def _o_vars(self, o: dict[str, Any]) -> None:
        def _f() -> Any:
            return [{"k": k, "v": tag(self.p.get_variable(k))} for k in own(self.p.list_variables())]

        def _absent() -> bool:
            known = own(self.p.list_variables())
            for k in VARS + ["nope"]:
                if self.p.contains_variable(k) != (k in known):
                    return False
                ok, v = guard(lambda k=k: self.p.get_variable(k))
                if ok != (k in known) or (not ok and v != "EXC:KeyError"):
                    return False
                if k not in known and self.p.get_variable(k, "dd") != "dd":
                    return False
            return True

        o["vars"] = self._call(_f, lambda e: [{"k": e, "v": e}])
        o["absent"] = self._call(_absent, False)

    REGEXES = ["foo", "^numpy", "[0-9]+", r"\{\{ name", "baz$", "win", "^true$", "keep|note", r"\[unix\]", "example", "[ao]"]

    def hits(self, regex: str, com: bool) -> list[str]:
        """Texts of values (with or without comments) that a regular expression matches."""
        out = set()
        for ln in self.lines():
            for head in re.finditer(r"(?:^ *(?:- )?[\w.-]+:(?: |$)|^ *- )", ln):
                rest = ln[head.end():].lstrip()
                if ln[:head.end()].rstrip().endswith(":") and (not rest or rest.startswith("#")):
                    key = re.sub(r"^[ -]*|: *$", "", head.group())
                    cands = [f"{key}  {rest}" if com and rest else key]
                else:
                    cands = [rest if com else no_comment(rest)]
                out |= {c for c in cands if re.search(regex, c)}
            m = re.match(r" *- [\w.-]+: (.*)", ln)
            if m:
                c = m.group(1) if com else no_comment(m.group(1))
                if re.search(regex, c):
                    out.add(c)
        return sorted(out)

    def line_hits(self, regex: str) -> list[str]:
        cands = {ln[i:] for ln in self.lines() for i in range(len(ln) - len(ln.lstrip()) + 1)}
        cands |= {"#" + ln.split("#", 1)[1] for ln in self.lines() if "#" in ln}
        return sorted(c for c in cands if c and re.search(regex, c))

    def com_searchable(self) -> bool:
        """If a search finds comments next to the marker of a text depends on how the comment got there."""
        return not any(re.search(r"(?:: |- )[|>][0-9]?[-+]?\s+#", ln) for ln in self.lines())

    def _o_search(self, o: dict[str, Any]) -> None:
        res = []
        for _ in range(3):
            rx, com = self.rng.choice(self.REGEXES), self.rng.random() < 0.5 and self.com_searchable()
            res.append({"hits": self.hits(rx, com), "lhits": self.line_hits(rx), "com": com, "rx": rx,
                        "ps": self._call(lambda: [toks(x) for x in own(self.p.search(rx, com))], lambda e: [[e]])})
        o["search"] = res

    # -- operations --
    def perform(self, op: dict[str, Any], py: Any) -> str:
        if not self.ok:
            return str(self.p)
        kind = op["op"]
        if kind in ("patch", "search_patch"):
            d: dict[str, Any] = {"op": op["o"], "path": pstr(op["p"])}
            if op["o"] in ("add", "replace", "test"):
                d["value"] = copy.deepcopy(py)
            if op["o"] in ("move", "copy"):
                d["from"] = pstr(op["from"])
            if kind == "patch":
                before = json.dumps(d, sort_keys=True)
                ok, v = guard(lambda: self.p.patch(d))
                if json.dumps(d, sort_keys=True) != before:
                    return "THE PATCH WAS CHANGED"
            else:
                before = json.dumps(d, sort_keys=True)
                ok, v = guard(lambda: self.p.search_and_patch(op["rx"], d, op["com"]))
                if json.dumps(d, sort_keys=True) != before:
                    return "THE PATCH WAS CHANGED"
            wreck(d)
            return {True: "T", False: "F"}.get(v, repr(v)) if ok else v
        if kind == "badpatch":
            ok, v = guard(lambda: self.p.patch(py))
            return "Invalid" if v == "EXC:JsonPatchValidationException" else f"{v}"
        if kind == "selector_add":
            from conda_recipe_manager.parser.enums import SelectorConflictMode

            ok, v = guard(lambda: self.p.add_selector(pstr(op["p"]), py, SelectorConflictMode[op["mode"]]))
            return ("none" if v is None else repr(v)) if ok else v[4:]
        if kind == "selector_rm":
            ok, v = guard(lambda: self.p.remove_selector(pstr(op["p"])))
            return ("none" if v is None else v) if ok else v[4:]
        if kind == "comment":
            ok, v = guard(lambda: self.p.add_comment(pstr(op["p"]), py))
            return ("none" if v is None else repr(v)) if ok else v[4:]
        if kind == "var_set":
            ok, v = guard(lambda: self.p.set_variable(op["k"], py))
            return ("none" if v is None else repr(v)) if ok else v
        if kind == "var_del":
            ok, v = guard(lambda: self.p.del_variable(op["k"]))
            return ("none" if v is None else repr(v)) if ok else v
        if kind == "read":
            return "none"
        raise ValueError(kind)


class OpGen:
    """Picks operations. The choice depends on what can be observed of the recipe, never on what should come out."""

    def __init__(self, gen: Gen, sess: Session, mix: dict[str, float]):
        self.g = gen
        self.s = sess
        self.rng = gen.rng
        self.mix = mix

    def _obj(self) -> Any:
        ok, v = guard(lambda: self.s.p.render_to_object())
        return v if ok else {}

    def _at(self, obj: Any, p: list[str]) -> Any:
        for t in p:
            try:
                obj = obj[int(t)] if isinstance(obj, list) else obj[t]
            except Exception:  # pylint: disable=broad-exception-caught
                return "<missing>"
        return obj

    def next(self) -> tuple[dict[str, Any], Any]:
        kinds = list(self.mix)
        kind = self.rng.choices(kinds, [self.mix[k] for k in kinds])[0]
        return getattr(self, "g_" + kind)()

    def g_read(self) -> tuple[dict[str, Any], Any]:
        return {"op": "read"}, None

    def g_badpatch(self) -> tuple[dict[str, Any], Any]:
        bad = self.rng.choice([
            {}, {"op": "add"}, {"op": "add", "path": "/build"}, {"op": "replace", "path": "/build"},
            {"op": "test", "path": "/build"}, {"op": "move", "path": "/build"}, {"op": "copy", "path": "/build"},
            {"op": "nope", "path": "/build", "value": 1}, {"op": "remove"}, {"path": "/build", "value": 1},
            {"op": "add", "path": 3, "value": 1}, {"op": "move", "path": "/build", "from": 3},
        ])
        return {"op": "badpatch"}, bad

    def _fixed(self, p: list[str]) -> bool:
        """The schema version decides what a file is. Changing it makes it another kind of file."""
        return self.g.ver == 1 and bool(p) and p[0] == "schema_version"

    def _ctx(self, p: list[str]) -> bool:
        return self.g.ver == 1 and bool(p) and p[0] == "context"

    def _target(self, obj: Any, new: bool) -> list[str]:
        ks = self.s.known_paths() or [["build"]]
        p = list(self.rng.choice(ks))
        if not new:
            return p if self.rng.random() < 0.85 else self.s.bad_paths(1)[0]
        x = self.rng.random()
        v = self._at(obj, p)
        if x < 0.25:
            return p
        if x < 0.35:
            return self.s.bad_paths(1)[0]
        if isinstance(v, list):
            return p + [self.rng.choice(["-", "-", "0", str(len(v)), str(max(0, len(v) - 1)), str(len(v) + 1)])]
        if isinstance(v, dict) or v is None:
            return p + [self.rng.choice(["new1", "new2", "k1", "name", "-", "number"])]
        return p[:-1] + [self.rng.choice(["new1", "new2", "zlib", "-"])] if len(p) > 1 else ["new1"]

    def _list_position(self, obj: Any, p: list[str]) -> bool:
        return p[-1] == "-" or isinstance(self._at(obj, p[:-1]), list)

    def _bad_add(self, obj: Any, p: list[str]) -> bool:
        """Targets whose meaning depends on details that the known findings describe."""
        parent = self._at(obj, p[:-1])
        if parent is None and p[-1].isdigit():
            return True
        return parent in ([], {})

    def _last_member(self, obj: Any, p: list[str]) -> bool:
        parent = self._at(obj, p[:-1])
        if not isinstance(parent, (list, dict)) or len(parent) != 1:
            return False
        if len(p) == 1:
            return True
        if p[-2].isdigit():
            return True
        return any(re.match(r" +#", ln) for ln in self.s.lines())

    def _has_null(self, v: Any) -> bool:
        if isinstance(v, dict):
            return any(self._has_null(x) for x in v.values())
        if isinstance(v, list):
            return any(self._has_null(x) for x in v)
        return v is None

    def _near(self, v: Any) -> Any:
        """A value that resembles another"""
        r = self.rng
        if isinstance(v, dict) and v:
            k = r.choice(list(v))
            return r.choice([
                dict(reversed(v.items())), {x: y for x, y in v.items() if x != k} or [], v | {"k9": "x"}, [v],
                {x: self._near(y) if x == k else y for x, y in v.items()}, {(x + "1" if x == k else x): y for x, y in v.items()}])
        if isinstance(v, list) and v:
            i = r.randrange(len(v))
            return r.choice([v[::-1], v[:-1] or {}, v + v[-1:], v[:i] + [self._near(v[i])] + v[i + 1:], {str(j): x for j, x in enumerate(v)}, v[0]])
        if isinstance(v, bool):
            return r.choice([not v, str(v).lower(), str(v), [v]])
        if isinstance(v, (int, float)):
            return r.choice([v + 1, str(v), -v or 1, [v]])
        if isinstance(v, str):
            return r.choice([v + " ", v.swapcase() or "x", v[:-1] if v[:-1] and v[-1] != "\n" else "x", v[1:] or "x", [v], {v or "x": ""}, f'"{v}"', v + "x", v == "true"])
        return r.choice(["null", "", "None", False, 0, [], {}])

    def g_patch(self) -> tuple[dict[str, Any], Any]:
        for _ in range(60):
            r = self._patch()
            if r is not None:
                return r
        return {"op": "read"}, None

    def _patch(self) -> Optional[tuple[dict[str, Any], Any]]:
        obj = self._obj()
        o = self.rng.choice(["add", "add", "add", "replace", "replace", "remove", "move", "copy", "test"])
        p = self._target(obj, o in ("add", "move", "copy"))
        if self._fixed(p) or not p:
            return None
        op: dict[str, Any] = {"op": "patch", "o": o, "p": p, "from": [], "val": node("nul")}
        if o == "remove":
            return None if self._last_member(obj, p) else (op, None)
        if o == "test":
            cur = self._at(obj, p)
            if cur is None or self._has_null(cur):
                return None
            if self.rng.random() < 0.6 and cur != "<missing>":
                ok, v = guard(lambda: self.s.p.get_value(pstr(p)))
                if not ok:
                    return None
                if self.rng.random() < 0.5:
                    v = self._near(v)
                op["val"] = data_node(v)
                return op, v
            v, n = self.g.op_value(1)
            if isinstance(v, (bool, int, float)) and isinstance(cur, (bool, int, float)) and type(v) is not type(cur):
                return None
            if v is None:
                return None
            op["val"] = n
            return op, v
        if o in ("add", "replace"):
            if o == "add" and self._bad_add(obj, p):
                return None
            in_list = self._list_position(obj, p)
            if self._ctx(p):
                if len(p) != 2:
                    return None
                v, n = self.g.op_scalar()
                if v is None or self.g.jinja and isinstance(v, str) and "{{" in v:
                    return None
            else:
                v, n = self.g.op_value(2, in_list)
            op["val"] = strip_src(n)
            return op, v
        # move and copy
        if self.g.folded:
            return None
        frm = self._target(obj, False)
        if self._fixed(frm) or self._ctx(p) or self._ctx(frm) or not frm:
            return None
        cur = self._at(obj, frm)
        if self._bad_add(obj, p):
            return None
        if self._list_position(obj, p) and (cur is None or isinstance(cur, list) or cur == {}):
            return None
        if isinstance(cur, list) and any(isinstance(x, list) for x in cur):
            return None
        if o == "move" and self._last_member(obj, frm):
            return None
        op["from"] = frm
        return op, None

    def g_selector_add(self) -> tuple[dict[str, Any], Any]:
        p = self._target(self._obj(), False)
        bad = self.rng.random() < 0.1
        s = self.rng.choice(["win", "not win", "py>=39", "osx and x86_64", "arm64 or linux", "unix",
                             "py in [36, 37]", "[x] == y", "environ.get('A', '[]') == '[a]'"])
        op = {"op": "selector_add", "p": p, "s": s, "mode": self.rng.choice(["REPLACE", "AND", "OR"]), "bad": bad}
        return op, (self.rng.choice(["win", "", "win]", "# [win]"]) if bad else f"[{s}]")

    def g_selector_rm(self) -> tuple[dict[str, Any], Any]:
        ps = [p for p in self.s.known_paths() if self.s._call(lambda p=p: self.s.p.contains_selector_at_path(pstr(p)), False)]
        if ps and self.rng.random() < 0.7:
            return {"op": "selector_rm", "p": self.rng.choice(ps)}, None
        return {"op": "selector_rm", "p": self._target(self._obj(), False)}, None

    def g_comment(self) -> tuple[dict[str, Any], Any]:
        p = self._target(self._obj(), False)
        x = self.rng.random()
        if x < 0.15:
            return {"op": "comment", "p": p, "x": "", "bad": True}, self.rng.choice(["", "  ", "[win]", "\t", "[osx] text"])
        t = self.rng.choice(["a new comment", "why: because", "see issue #12", "x", "#12 is the ticket", "a # # b", "made with C#", "## loud ##"])
        if t[0] == "#":
            return {"op": "comment", "p": p, "x": t, "bad": False}, self.rng.choice([f"# {t}", f"  # {t} "])
        return {"op": "comment", "p": p, "x": t, "bad": False}, self.rng.choice([t, f"# {t}", f"  {t} "])

    def g_var_set(self) -> tuple[dict[str, Any], Any]:
        k = self.rng.choice(VARS)
        v: Any = self.rng.choice(["foo", "2.0.1", "Baz", 43, 7, 2.5, True, False, "it's", "", "yes", "a: b", 'say "x"'])
        if isinstance(v, str):
            r = rendered(v) if self.g.ver == 1 else f"'{v}'" if '"' in v else f'"{v}"'
        else:
            r = str(v) if self.g.ver == 0 else str(v).lower()
        return {"op": "var_set", "k": k, "val": node("sca", v=tag(v), r=r)}, v

    def g_var_del(self) -> tuple[dict[str, Any], Any]:
        if self.g.ver == 1 and len(self.s._call(self.s.p.list_variables, [])) < 2:
            return {"op": "read"}, None
        return {"op": "var_del", "k": self.rng.choice(VARS)}, None

    def g_search_patch(self) -> tuple[dict[str, Any], Any]:
        rx, com = self.rng.choice(self.s.REGEXES), self.rng.random() < 0.5 and self.s.com_searchable()
        ps = self.s._call(lambda: [toks(x) for x in self.s.p.search(rx, com)], [])
        obj = self._obj()
        o = self.rng.choice(["replace", "replace", "remove", "test", "add", "copy", "move"])
        # Only some of the matches can be patched: the last one is in what is moved, earlier ones are not.
        partial = [ps[-1][:i] for i in range(1, len(ps[-1]) + 1) if ps[0][:i] != ps[-1][:i]
                   and not self._list_position(obj, ps[-1][:i])] if len(ps) > 1 and self.rng.random() < 0.4 else []
        if partial:
            o = "move"
        v, n = self.g.op_scalar()
        if any(self._fixed(p) or self._ctx(p) for p in ps) or v is None:
            return {"op": "read"}, None
        if o == "test":
            cur = [self._at(obj, p) for p in ps]
            if any(isinstance(c, (bool, int, float)) or c is None for c in cur):
                return {"op": "read"}, None
        if o == "remove" and (len(ps) > 1 or any(self._last_member(obj, p) for p in ps)):
            by_parent: dict[str, int] = {}
            for p in ps:
                by_parent[pstr(p[:-1])] = by_parent.get(pstr(p[:-1]), 0) + 1
            for pp, c in by_parent.items():
                parent = self._at(obj, toks(pp))
                if not isinstance(parent, (list, dict)) or len(parent) <= c:
                    return {"op": "read"}, None
        frm: list[str] = []
        if o in ("copy", "move"):
            frm = self._target(obj, False)
            if ps and self.rng.random() < 0.6:
                # A value can not be moved into itself, so that only some of the matches can be patched.
                p = self.rng.choice(ps)
                frm = p[:self.rng.randint(1, len(p))]
            if partial:
                frm = self.rng.choice(partial)
            cur = self._at(obj, frm)
            # Copies of copies grow without bounds.
            if o == "copy" and len(json.dumps(cur)) * 2 ** len(ps) > 2000 and any(p[: len(frm)] == frm for p in ps):
                return {"op": "read"}, None
            if self.g.folded or not frm or self._fixed(frm) or self._ctx(frm) or cur is None or self._has_null(cur):
                return {"op": "read"}, None
            if any(self._bad_add(obj, p) for p in ps) or isinstance(cur, list) and any(isinstance(x, list) for x in cur):
                return {"op": "read"}, None
            if any(self._list_position(obj, p) for p in ps) and (isinstance(cur, list) or cur == {}):
                return {"op": "read"}, None
            if o == "move" and (self._last_member(obj, frm) or len(ps) > 1 and self._list_position(obj, frm)):
                return {"op": "read"}, None
        return {"op": "search_patch", "o": o, "p": [], "from": frm, "val": strip_src(n), "rx": rx, "com": com,
                "hits": self.s.hits(rx, com), "lhits": self.s.line_hits(rx)}, v


def data_node(v: Any) -> Node:
    """A value as a node, where only the data matters."""
    if isinstance(v, dict):
        if not v:
            return node("sca", v="e:{}", r="{}")
        return node("map", c=[{**data_node(x), "k": k} for k, x in v.items()])
    if isinstance(v, list):
        if not v:
            return node("sca", v="e:[]", r="[]")
        return node("seq", c=[data_node(x) for x in v])
    return node("sca", v=tag(v), r="")


def history(rng: Any, ver: int, chk: set[str], mix: dict[str, float], n_ops: int, depth: int = 3, noise: bool = True,
            **gen_args: Any) -> dict[str, Any]:
    g = Gen(rng, ver, **gen_args)
    st = g.state(depth)
    text = g.text(st, noise)
    s = Session(text, chk, rng)
    tr: dict[str, Any] = {"init": strip_src(st), "obs": s.observe(), "steps": [], "source": text}
    if s.ok:
        og = OpGen(g, s, mix)
        for _ in range(n_ops):
            op, py = og.next()
            ret = s.perform(op, py)
            tr["steps"].append({"op": op, "py": repr(py), "ret": ret, "obs": s.observe()})
    return tr
