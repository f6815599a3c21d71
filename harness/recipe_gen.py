"""
Generates recipes and operations. This side knows nothing about the outcome of an operation: it only builds a tree (in
the data model of spec/Recipe.tla), writes it as text, and picks operations. All outcomes are decided by the
specification.
"""

from __future__ import annotations

import json
import re
import random
from typing import Any, Optional

import yaml

from harness.common import proj, tag

Node = dict[str, Any]

NOM = {"r": "", "s": "", "x": ""}


def com(r: str, s: str = "", x: str = "") -> dict[str, str]:
    return {"r": r, "s": s, "x": x}


COMMENTS = [
    com("# [win]", "win"),
    com("# [linux and py>=39]", "linux and py>=39"),
    com("# note", "", "note"),
    com("# [osx or linux]", "osx or linux"),
    com("# [unix] only here", "unix", "only here"),
    com("# keep this pinned", "", "keep this pinned"),
    com("# trailing words [arm64]", "arm64", "trailing words"),
    com("# [not win] see https://example.com/x", "not win", "see https://example.com/x"),
]
# Comments that are less usual.
ODD_COMMENTS = [
    com("# [py in [36, 37]]", "py in [36, 37]"),
    com("# [[osx] or win]", "[osx] or win"),
    com("# [x[0] == [1]] text", "x[0] == [1]", "text"),
    com("#[win]", "win"),
    com("# [win] # why", "win", "# why"),
    com("# [linux] #12 is the ticket", "linux", "#12 is the ticket"),
    com("# [win] see #  below and # # there", "win", "see #  below and # # there"),
    com("#no space", "", "no space"),
    com("## two", "", "# two"),
    com("#! bang", "", "! bang"),
    com("# see: |", "", "see: |"),
    com("# [osx] script: >-", "osx", "script: >-"),
]
FULL_COMMENTS = ["# a comment", "# see [1] for details", "# TODO: key: value", "# - not a member"]
# Values of variables, as they are written: with the characters that the statement itself is made of.
ODD_VARS = [
    ("s:numpy >=1.20", '"numpy >=1.20"'), ("s:a=b", '"a=b"'), ("s:it's", '"it\'s"'), ("s:say \"x\"", "'say \"x\"'"), ("s:", '""'),
    ("b:true", "True"), ("b:false", "False"), ("s:# x", '"# x"'), ("s:100%", '"100%"'), ("s:set x = 1", '"set x = 1"'),
    ("s:{ a }", '"{ a }"'), ("s:a: b", '"a: b"'), ("s:yes", '"yes"'), ("s:null", '"null"'), ("i:0", "0"), ("i:-3", "-3"),
]
ODD_FULL_COMMENTS = ["# script: |", "#- x: >-", "#", "#no space", "# {% set x = 1 %}", "## [win]"]

# (source text, tagged value, rendered text)
SCALARS: list[tuple[str, str, str]] = [
    ("foo", "s:foo", "foo"),
    ("bar-baz", "s:bar-baz", "bar-baz"),
    ("numpy >=1.20", "s:numpy >=1.20", "numpy >=1.20"),
    ("python", "s:python", "python"),
    ("42", "i:42", "42"),
    ("0", "i:0", "0"),
    ("7", "i:7", "7"),
    ("true", "b:true", "true"),
    ("False", "b:false", "false"),
    ("3.25", "f:3.25", "3.25"),
    ("https://example.com/a.tar.gz", "s:https://example.com/a.tar.gz", "https://example.com/a.tar.gz"),
    ("a#b", "s:a#b", "a#b"),
    ("'*foo'", "s:*foo", '"*foo"'),
    ('""', "s:", '""'),
    ("''", "s:", '""'),
    ("'>=1.0'", "s:>=1.0", '">=1.0"'),
    ('" a "', "s: a ", '" a "'),
    ("'true'", "s:true", '"true"'),
    ('"no"', "s:no", '"no"'),
    ("'~'", "s:~", '"~"'),
    ("'2020-01-01'", "s:2020-01-01", '"2020-01-01"'),
    ('"{a}"', "s:{a}", '"{a}"'),
    ('"a\\tb"', "s:a\tb", '"a\\tb"'),
    ('"quoted"', "s:quoted", "quoted"),
    ("it's", "s:it's", '"it\'s"'),
    ("'**/lib.so'", "s:**/lib.so", '"**/lib.so"'),
    ("1.2.3", "s:1.2.3", "1.2.3"),
    ("foo bar baz", "s:foo bar baz", "foo bar baz"),
    ('"a: b c"', "s:a: b c", '"a: b c"'),
    ("'see: it'", "s:see: it", '"see: it"'),
    ('"a # b"', "s:a # b", '"a # b"'),
    ("'x [win]: # [osx]'", "s:x [win]: # [osx]", '"x [win]: # [osx]"'),
    ('"[abc]"', "s:[abc]", '"[abc]"'),
    ('"- x"', "s:- x", '"- x"'),
    ('"tail:"', "s:tail:", '"tail:"'),
    ('"a: | b"', "s:a: | b", '"a: | b"'),
    ("'k: |'", "s:k: |", '"k: |"'),
    ("a | b", "s:a | b", "a | b"),
    ("/", "s:/", "/"),
    ('"#x y"', "s:#x y", '"#x y"'),
]
# Strings that YAML reads as something else, or not at all, unless they are quoted, and strings that resemble them.
# Strings that resemble numbers are left out (see KF-quoted-number).
ODD_STRINGS: list[str] = (
    "~ null Null NULL true True TRUE false False FALSE yes Yes YES no No NO on On ON off Off OFF y n Y N nULL tRUE oN"
    " = << ... --- .. . 2020-01-01 2020-1-1T1:00:00 2020-01-01T10:00:00Z 20-01-01"
    " a: :a : a# #a # -a - -- ?a ? ?? ,a , a, a,b [a] [a [ a] ] ]a [] {a} {a { a} } }a {} {{ }} {% {# &a & a&b *a * a*b !a ! a!b !!a"
    " |a | a|b >a > >=1 >-a %a % a% @a @ a@b `a ` \\a \\ a\\b \\n a\\nb \\\" ' '' 'a' 'a a'b it's \" \"\" \"a\" \"a a\"b"
    " $ ${ $a <a < a<b =a =>a a=b +a ++ _a / /a (a) a;b 0xg 1a 1.2.3 v1 1e x1 nan inf .x a..b é à-b 日本 😀 a😀 *😀 'é ß: \U0001d54f:"
).split() + [
    "2020-01-01 10:00:00", "2020-1-1 1:00:00", "on top", "no: no", "null: x", "~ x", "yes # no",
    " a", "a ", "  ", " ", "a\tb", "\ta", "a\t", "a\x07b", "\x1b[0m", "a\x7fb", "a\u2028b", "a\x85b", "a\xa0b", "\xa0", "a\x0cb",
    "a: b", "a : b", "a :b", "a  b", "a # b", "a #b", "a# b", "x: |", "y: >-", "- a", "- a: b", "-  a", "-- a", "? a", ": a", "a:  b:  c", "! a", "!!str a", "& a", "* a",
    "| a", "> a", ">- a", "% a", "@ a", "a, b", "[a, b]", "[a] b", "{a: b}", "{a} b", "{% x %}", "{# x #}", "a {{ b", "a }} b", "} a", "a 'b' c", 'a "b" c',
    "'a' b", '"a" b', "a' # b", 'a" # b', "\\ a", "... a", "--- a", "a > b", "a | b", "a & b", "[win]", "# [win]", "a # [win]", "a [win]", "x [linux] y", "#!/bin/sh", "a=b # c",
]
# Forms of strings with an expression (%)
ODD_JINJA: list[str] = [
    "*%", "*%*", "[%]", "[%", "%]", "&%", "!%", "@%", "- %", "-%", "? %", "?%", ": %", ":%", "> %", ">=%", "| %", "`%`", "'%'", "'%", '"%"', '"%', "'%' a", '"%" a',
    "a '%'", 'a "%"', "#%", "a #%", "a # %", "% # a", "% #a", "%# a", "%: a", "%:", "a: %", "a:%", "{a: %}", ", %", ",%", "=%", "\\%", "%\\n", "%, a", "% ", "\t%", " %",
    "%%", "% %", "~%", "<%>", "%: |", "(%)", "% [win]", "é%", "😀%", "*😀%", "no %", "a=% # b",
]


def plain(s: str) -> bool:
    """Whether a YAML reader finds a string if the string is written as it is"""
    try:
        return bool(yaml.safe_load(f"k: {s}\n") == {"k": s} and yaml.safe_load(f"- {s}\n") == [s])
    except (yaml.YAMLError, ValueError):
        return False


def resembles_number(s: str) -> bool:
    try:
        return isinstance(yaml.safe_load(s), (int, float)) and not isinstance(yaml.safe_load(s), bool)
    except (yaml.YAMLError, ValueError):
        return False


def quote(s: str) -> str:
    return re.sub("[\x7f-\x9f\u2028\u2029\ufeff]", lambda m: f"\\u{ord(m.group()):04x}", json.dumps(s, ensure_ascii=False))


def rendered(s: str) -> str:
    """The form in which a string is rendered: quoted if need be"""
    if s[:1].isspace() or s[-1:].isspace():
        return quote(s)
    masked = re.sub(r"\$?\{\{[^{}]*\}\}", "XJX", s)
    if masked != s:
        removed = re.sub(r"\{\{[^{}]*\}\}", "", s)
        quoted = bool(not plain(masked) or re.search(r":(\s|$)|(^|\s)#", removed))
    else:
        quoted = not plain(s) or "'" in s or '"' in s or s.split(" ")[0] == "..." or s[:1] in set("[],&:*?-=!%@\\")
    if not quoted:
        return s
    return quote(s)


def sources(s: str) -> list[str]:
    """The forms in which a string can be written in a recipe"""
    out = [quote(s)]
    if not re.search("[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]", s):
        out.append("'" + s.replace("'", "''") + "'")
    if s == s.strip() and plain(re.sub(r"\$?\{\{[^{}]*\}\}", "XJX", s)):
        out.append(s)
    return out


ODD_STRINGS = [x for x in dict.fromkeys(ODD_STRINGS) if not resembles_number(x)]
# A quoted text with an escaped newline becomes a multiline string if it is moved.
NEWLINES: list[tuple[str, str, str]] = [
    ('"a\\nb"', "s:a\nb", '"a\\nb"'),
    ('"l1\\n  l2"', "s:l1\n  l2", '"l1\\n  l2"'),
]
# Strings that contain variables, with the variables that they use
JINJA_V0: list[tuple[str, list[str]]] = [
    ("{{ name }}", ["name"]),
    ("{{ name|lower }}-{{ version }}", ["name", "version"]),
    ("https://example.com/{{ name[0] }}/{{ version }}.tar.gz", ["name", "version"]),
    ("{{ my_name }}", ["my_name"]),
    ("{{ compiler('c') }}", []),
    ("name >={{ version }}", ["version"]),
    ("{{ name | replace('name', version) }}", ["name", "version"]),
    ("a-{{ x|replace('a', my_name) }}", ["my_name"]),
    ("{{ version~sha256 }}-{{ name2 }}", ["version", "sha256"]),
]
JINJA_V1: list[tuple[str, list[str]]] = [
    ("${{ name }}", ["name"]),
    ("${{ name|lower }}-${{ version }}", ["name", "version"]),
    ("https://example.com/${{ name[0] }}/${{ version }}.tar.gz", ["name", "version"]),
    ("${{ my_name }}", ["my_name"]),
    ("${{ compiler('c') }}", []),
    ("name >=${{ version }}", ["version"]),
    ("${{ name | replace('name', version) }}", ["name", "version"]),
    ("a-${{ x|replace('a', my_name) }}", ["my_name"]),
    ("${{ version~sha256 }}-${{ name2 }}", ["version", "sha256"]),
]
# Lines of texts
BLOCK_V0 = [("echo {{ name }}", ["name"]), ("cd {{ name|lower }}-{{ version }}/src", ["name", "version"]), ("x {{ my_name }}", ["my_name"])]
BLOCK_V1 = [(s.replace("{{", "${{"), r) for s, r in BLOCK_V0]
KEYS = ["about", "build", "files", "host", "imports", "k1", "name", "number", "run", "script", "source", "url", "zlib"]
TOP_KEYS = ["package", "source", "build", "requirements", "test", "about", "extra", "outputs"]
VARS = ["name", "version", "my_name", "sha256", "build_number"]


def node(t: str, k: str = "", v: str = "", r: str = "", m: Optional[dict[str, str]] = None, c: Any = None) -> Node:
    return {"t": t, "k": k, "v": v, "r": r, "m": dict(m or NOM), "c": c or []}


class Gen:
    def __init__(self, rng: random.Random, ver: int = 0, comments: float = 0.3, full_comments: float = 0.12,
                 blocks: float = 0.1, jinja: float = 0.2, simple: bool = False):
        self.rng = rng
        self.ver = ver
        self.p_com = comments
        self.p_full = full_comments
        self.p_blk = blocks
        self.p_jinja = jinja
        self.simple = simple
        # Recipes with comments of unusual forms
        self.odd = rng.random() < 0.5
        # Folded texts do not survive a move or a copy as they are: the text that they denote is moved.
        self.folded = rng.random() < 0.3
        # Recipes with strings of unusual forms
        self.p_zoo = 0.25 if rng.random() < 0.35 else 0.0

    # -- trees --
    def m(self) -> dict[str, str]:
        if self.rng.random() >= self.p_com:
            return NOM
        return self.rng.choice(ODD_COMMENTS if self.odd and self.rng.random() < 0.25 else COMMENTS)

    def jinja(self) -> list[tuple[str, list[str]]]:
        return JINJA_V0 if self.ver == 0 else JINJA_V1

    def odd_string(self) -> str:
        if self.rng.random() < self.p_jinja:
            return self.rng.choice(ODD_JINJA).replace("%", self.rng.choice(self.jinja())[0])
        return self.rng.choice(ODD_STRINGS)

    def scalar(self, k: str, in_list: bool = False) -> Node:
        if self.rng.random() < self.p_zoo:
            s = self.odd_string()
            n = node("sca", k, "s:" + s, rendered(s), self.m())
            n["src"] = self.rng.choice(sources(s))
            return n
        if self.rng.random() < self.p_jinja:
            s = self.rng.choice(self.jinja())[0]
            n = node("sca", k, "s:" + s, s, self.m())
            n["src"] = s
            return n
        src, v, r = self.rng.choice(NEWLINES if self.folded and self.rng.random() < 0.04 else SCALARS)
        n = node("sca", k, v, r, self.m())
        n["src"] = src
        return n

    def block(self, k: str) -> Node:
        r = self.rng.choice(["|", "|", ">", "|-", ">-", "|+"] if self.folded else ["|", "|", "|-"])
        base = ["echo hi", "make install  # not a comment", "- dash", "key: value", "a b c", "x [win]"]
        if self.rng.random() < self.p_jinja:
            base = base[:3] + [x[0] for x in (BLOCK_V0 if self.ver == 0 else BLOCK_V1)]
        lines = [self.rng.choice(base)
                 for _ in range(self.rng.randint(1 if self.folded and "-" not in r else 2, 4))]
        if r[0] == "|":
            for i in range(1, len(lines)):
                x = self.rng.random()
                if x < 0.2:
                    lines[i] = "  " + lines[i]
                elif x < 0.35 and i < len(lines) - 1:
                    lines[i] = ""
            x = self.rng.random()
            if x < 0.1:
                lines[0] = self.rng.choice(["  ", " ", "    "]) + lines[0]
            elif x < 0.15 and len(lines) > 1 and lines[1]:
                lines[0] = ""
            v = "\n".join(lines)
        else:
            v = " ".join(lines)
        return node("blk", k, "s:" + v, r, self.m(), [node("lin", r=x) for x in lines])

    def kids(self, mk: Any, n: int, allow_full: bool = True) -> list[Node]:
        out: list[Node] = []
        for i in range(n):
            if allow_full and self.rng.random() < self.p_full:
                out.append(self.full_comment())
            out.append(mk(i))
        if allow_full and out and self.rng.random() < self.p_full / 2:
            out.append(self.full_comment())
        return out

    def full_comment(self) -> Node:
        return node("com", r=self.rng.choice(ODD_FULL_COMMENTS if self.odd and self.rng.random() < 0.3 else FULL_COMMENTS))

    def value(self, k: str, depth: int, in_list: bool = False) -> Node:
        x = self.rng.random()
        if depth <= 0 or x < 0.45:
            if self.rng.random() < self.p_blk:
                return self.block(k)
            if not in_list and self.rng.random() < 0.06:
                n = node("nul", k, m=self.m())
                n["src"] = self.rng.choice(["", "", "null", "~"])
                return n
            if not in_list and self.rng.random() < 0.04:
                e = self.rng.choice(["[]", "{}"])
                n = node("sca", k, "e:" + e, e, self.m())
                n["src"] = e
                return n
            return self.scalar(k, in_list)
        if x < 0.72 and not in_list:
            return self.seq(k, depth - 1)
        return self.map(k, depth - 1, in_list)

    def map(self, k: str, depth: int, in_list: bool = False) -> Node:
        ks = self.rng.sample(KEYS, self.rng.randint(1, 4))
        n = node("map", k, m=NOM if in_list else self.m(),
                 c=self.kids(lambda i: self.value(ks[i], depth), len(ks)))
        if in_list:
            # A comment line that precedes the first key of a list member belongs to the list.
            while n["c"][0]["t"] == "com":
                n["c"].pop(0)
        return n

    def seq(self, k: str, depth: int) -> Node:
        mixed = self.rng.random()
        return node(
            "seq", k, m=self.m(),
            c=self.kids(
                lambda i: self.map("", depth, True) if depth > 0 and mixed < 0.35
                else self.block("") if self.rng.random() < self.p_blk / 2 else self.scalar("", True),
                self.rng.randint(1, 4),
            ),
        )

    def root(self, depth: int = 3) -> Node:
        ks = self.rng.sample(TOP_KEYS, self.rng.randint(2, 5))
        c = self.kids(lambda i: self.value(ks[i], depth), len(ks))
        if self.ver == 1:
            sv = node("sca", "schema_version", "i:1", "1")
            sv["src"] = "1"
            pre = [sv]
            if self.rng.random() < 0.8:
                vs = self.rng.sample(VARS, self.rng.randint(1, 3))
                pre.append(node("map", "context", m=self.m(), c=[self.var_node(v) for v in vs]))
            c = pre + c
        return node("map", c=c)

    def var_node(self, k: str) -> Node:
        src, v, r = self.rng.choice(
            [("foo", "s:foo", "foo"), ("1.2.3", "s:1.2.3", "1.2.3"), ("42", "i:42", "42"), ("Bar", "s:Bar", "Bar")]
        )
        n = node("sca", k, v, r, self.m())
        n["src"] = src
        return n

    def vars(self) -> list[dict[str, str]]:
        out = []
        for k in self.rng.sample(VARS, self.rng.randint(0, 3)):
            v, r = self.rng.choice(
                [("s:foo", '"foo"'), ("s:1.2.3", '"1.2.3"'), ("i:42", "42"), ("s:Bar", '"Bar"'), ("f:1.5", "1.5")]
            )
            if self.rng.random() < 0.25:
                v, r = self.rng.choice(ODD_VARS)
            out.append({"k": k, "v": v, "r": r})
        return out

    def state(self, depth: int = 3) -> dict[str, Any]:
        return {
            "ver": self.ver,
            "root": self.root(depth),
            "vars": self.vars() if self.ver == 0 else [],
            "mod": False,
        }

    # -- text, with variations in style --
    def text(self, st: dict[str, Any], noise: bool = True) -> str:
        lines: list[str] = []
        if st["ver"] == 0:
            for v in st["vars"]:
                x = self.rng.random() if noise else 1.0
                pre, post = ("", "  ") if x < 0.05 else ("  ", "") if x < 0.08 else ("", "")
                lines.append(f"{pre}{{% set {v['k']} = {v['r']} %}}{post}")
            if st["vars"]:
                lines.append("")
        self._noise = noise
        # Recipes that are indented in other ways than the one in which recipes are written.
        self._styled = noise and self.rng.random() < 0.4
        self._step0 = self.rng.choice([2, 2, 3, 4, 4, 8])
        self._flat = self.rng.choice([0.0, 0.5, 1.0, 1.0])
        self._dash0 = self.rng.choice([1, 1, 1, 2, 3])
        self._after_text = False
        self._last_col: Optional[float] = None
        c = st["root"]["c"]
        for i, n in enumerate(c):
            if n["t"] == "com":
                lines.append(self._comment(n, 0, i + 1 < len(c)))
                continue
            lines += self._key(n, "", 0)
            if not noise or self.rng.random() < 0.7:
                lines.append("")
        return "\n".join(lines) + "\n"

    def _cm(self, m: dict[str, str]) -> str:
        if not m["r"]:
            return " " if self._noise and self.rng.random() < 0.03 else ""
        return (self.rng.choice(["  ", "  ", " ", "    "]) if self._noise else "  ") + m["r"]

    def _blank(self) -> list[str]:
        # An empty line that follows a text may be a part of it.
        after_text, self._after_text = self._after_text, False
        return [""] if self._noise and not after_text and self.rng.random() < 0.04 else []

    def _step(self) -> int:
        if not self._styled:
            return 2
        return self._step0 if self.rng.random() < 0.85 else self.rng.choice([1, 2, 3, 4, 6])

    def _comment(self, n: Node, col: int, followed: bool, level: Optional[float] = None) -> str:
        """
        A comment belongs to the level of the line that follows it, if it is not indented more than that line, or if
        the line that precedes it is on the same level. A comment that ends a level has to be aligned with it.
        """
        x = self.rng.random()
        if self._styled and followed:
            if x < 0.2:
                return " " * self.rng.randint(0, col) + n["r"]
            if x < 0.4 and self._last_col == (col if level is None else level):
                return " " * (col + self.rng.randint(1, 5)) + n["r"]
        return " " * col + n["r"]

    def _block_lines(self, n: Node, col: int) -> tuple[str, list[str]]:
        step = self.rng.choice([1, 2, 2, 3, 4, 8]) if self._styled else 2
        first = next(x["r"] for x in n["c"] if x["r"])
        r = n["r"]
        if first[0] == " " or self._noise and self.rng.random() < 0.03:
            r = r[0] + self.rng.choice([f"{step}{r[1:]}", f"{r[1:]}{step}"])
        out = [(" " * (col + step) + x["r"]) if x["r"] else "" for x in n["c"]]
        self._after_text = True
        self._last_col = None
        return r, out

    def _key(self, n: Node, first: str, col: int) -> list[str]:
        """`col` is the column of the key. `first` precedes the key on its line."""
        head = f"{first}{n['k']}:"
        blank = self._blank()
        if n["t"] in ("sca", "nul"):
            src = n.get("src", n["r"])
            self._last_col = col if src else None
            return blank + [head + (" " + src if src else "") + self._cm(n["m"])]
        if n["t"] == "blk":
            r, out = self._block_lines(n, col)
            return blank + [f"{head} {r}{self._cm(n['m'])}"] + out
        out = blank + [head + self._cm(n["m"])]
        self._last_col = None
        if n["t"] == "seq":
            # Comments that end a list are not told apart from those of its key if both are aligned.
            flat = self._styled and n["c"][-1]["t"] != "com" and self.rng.random() < self._flat
            # A list that is aligned with its key is another level nevertheless.
            inner = col if flat else col + self._step()
            return out + self._list(n["c"], inner, col + 0.5 if flat else inner)
        inner = col + self._step()
        for i, x in enumerate(n["c"]):
            out += [self._comment(x, inner, i + 1 < len(n["c"]))] if x["t"] == "com" else self._key(x, " " * inner, inner)
        return out

    def _list(self, c: list[Node], col: int, level: float) -> list[str]:
        out: list[str] = []
        for i, x in enumerate(c):
            if x["t"] == "com":
                out.append(self._comment(x, col, i + 1 < len(c), level))
                continue
            dash = "-" + " " * (self._dash0 if self._styled else 1)
            head = " " * col + dash
            if x["t"] == "map":
                first = True
                inner = col + len(dash)
                for j, y in enumerate(x["c"]):
                    if y["t"] == "com":
                        out.append(self._comment(y, inner, j + 1 < len(x["c"])))
                        continue
                    out += self._key(y, head if first else " " * inner, inner)
                    first = False
            elif x["t"] == "blk":
                blank = self._blank()
                r, ls = self._block_lines(x, col)
                out += blank + [f"{head}{r}{self._cm(x['m'])}"] + ls
            else:
                out += self._blank() + [f"{head}{x.get('src', x['r'])}{self._cm(x['m'])}"]
                self._last_col = level
        return out

    # -- values of operations: (python value, node) --
    def op_scalar(self, in_list: bool = False) -> tuple[Any, Node]:
        if self.rng.random() < 2 * self.p_zoo:
            s = self.odd_string()
            return s, node("sca", v="s:" + s, r=rendered(s))
        if self.rng.random() < 0.15:
            s = self.rng.choice(self.jinja())[0]
            return s, node("sca", v="s:" + s, r=s)
        v: Any = self.rng.choice(
            ["new", "numpy >=1.20", "foo", 42, 99, 0, True, False, 3.25, "v1.10", "new value", "*glob", "it's", None, "k: v", "n # m", "- y", "", ">=1", " a ", "true", "no", "{a}", "a\tb"]
        )
        return v, self.scalar_of(v)

    @staticmethod
    def scalar_of(v: Any) -> Node:
        if v is None:
            r = "null"
        elif isinstance(v, bool):
            r = "true" if v else "false"
        elif isinstance(v, str) and (not v or v[:1] in "*[-> {" or v in ("true", "no") or "'" in v or ": " in v or " #" in v):
            r = f'"{v}"'
        elif isinstance(v, str) and "\t" in v:
            r = json.dumps(v)
        else:
            r = str(v)
        return node("sca", v=tag(v), r=r)

    def op_value(self, depth: int = 2, in_list: bool = False, nested: bool = False) -> tuple[Any, Node]:
        x = self.rng.random()
        if depth <= 0 or x < 0.5 or (in_list and x < 0.65):
            if self.rng.random() < 0.1:
                ls = [self.rng.choice(["echo a", "  echo b", "", "make  # x", "- y"]) for _ in range(3)]
                if self.rng.random() < 0.7:
                    ls[0] = "set -x"
                ls[-1] = "done"
                return "\n".join(ls), node("blk", v="s:" + "\n".join(ls), r="|-", c=[node("lin", r=l) for l in ls])
            if not in_list and self.rng.random() < 0.06:
                e: Any = self.rng.choice([[], {}])
                return e, node("sca", v=f"e:{e}", r=f"{e}")
            v, n = self.op_scalar(in_list)
            if nested and v is None:
                return None, (n if in_list else node("nul"))
            return v, n
        if x < 0.7 and not in_list:
            items = []
            maps = self.rng.random() < 0.4 and depth > 1
            for _ in range(self.rng.randint(1, 3)):
                items.append(self._op_map(depth - 1) if maps else self._nested_scalar(True))
            return [i[0] for i in items], node("seq", c=[i[1] for i in items])
        return self._op_map(depth - 1)

    def _nested_scalar(self, in_list: bool) -> tuple[Any, Node]:
        return self.op_value(0, in_list, True)

    def _op_map(self, depth: int) -> tuple[Any, Node]:
        ks = self.rng.sample(KEYS, self.rng.randint(1, 3))
        d: dict[str, Any] = {}
        c = []
        for k in ks:
            v, n = self.op_value(depth, False, True)
            n["k"] = k
            d[k] = v
            c.append(n)
        return d, node("map", c=c)


def strip_src(n: Any) -> Any:
    """Removes what only matters to write the text of a recipe."""
    if isinstance(n, dict):
        return {k: strip_src(v) for k, v in n.items() if k != "src"}
    if isinstance(n, list):
        return [strip_src(x) for x in n]
    return n


def refs_table() -> dict[str, list[str]]:
    """Uses of variables, by value (`s:`) and by line of a text."""
    odd = {"s:" + o.replace("%", s): r for s, r in JINJA_V0 + JINJA_V1 for o in ODD_JINJA}
    return odd | {"s:" + s: r for s, r in JINJA_V0 + JINJA_V1} | {i + s: r for s, r in BLOCK_V0 + BLOCK_V1 for i in (" " * j for j in range(9))}


__all__ = ["Gen", "node", "strip_src", "refs_table", "proj", "COMMENTS", "KEYS", "VARS"]
