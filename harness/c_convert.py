"""Conversion of V0 recipes to the V1 format."""

from __future__ import annotations

import random
import re
from typing import Any, Optional

from harness.common import Ctx, judge, pmap, proj
from harness.recipe_drive import guard, independent_yaml
from harness.recipe_gen import FULL_COMMENTS, NOM, Gen, Node, com, node, strip_src

# Selectors with their V1 counterparts
SELECTORS = {
    "win": "win", "linux": "linux", "osx and arm64": "osx and arm64", "not win": "not win", "linux or osx": "linux or osx",
    "py<36": 'match(python, "<3.6")', "py>=310": 'match(python, ">=3.10")', "py==38": 'match(python, "==3.8")',
    "py!=27": 'match(python, "!=2.7")', "py <= 39": 'match(python, "<=3.9")', "win and py<37": 'win and match(python, "<3.7")',
    "py27": 'match(python, "==2.7")', "not py35": 'not match(python, "==3.5")', "py2k": 'match(python, ">=2,<3")',
    "py3k and unix": 'match(python, ">=3,<4") and unix', "linux and py36 or py>39": 'linux and match(python, "==3.6") or match(python, ">3.9")',
    "cuda_compiler_version != 'None'": "cuda_compiler_version != 'None'",
}
NOTES = ["keep", "see https://example.com/x", "a [b] c".replace("[b] ", ""), "pinned: why", "TODO"]
# V0 text, V1 text, spelling in the source
JINJA = [
    ("{{ name }}", "${{ name }}", None), ("{{ name|lower }}", "${{ name|lower }}", None), ("{{name}}", "${{name}}", None),
    ("lib{{ name }}-dev >={{ version }}", "lib${{ name }}-dev >=${{ version }}", None),
    ("{{ compiler('c') }}", "${{ compiler('c') }}", None), ("{{ pin_subpackage('foo', exact=True) }}", "${{ pin_subpackage('foo', exact=True) }}", None),
    ("{{ pin_compatible('numpy', upper_bound='x.x') }}", "${{ pin_compatible('numpy', upper_bound='x.x') }}", "{{ pin_compatible('numpy', max_pin='x.x') }}"),
    ("{{ pin_compatible('z', lower_bound='x', upper_bound='x.x') }}", "${{ pin_compatible('z', lower_bound='x', upper_bound='x.x') }}",
     "{{ pin_compatible('z', min_pin='x', max_pin='x.x') }}"),
    ("${{ name }}-{{ version }}", "${{ name }}-${{ version }}", None),
    ("{{ env.get('PREFIX') }}/bin", "${{ env.get('PREFIX') }}/bin", "{{ environ['PREFIX'] }}/bin"),
    ("{{ name | lower }}", "${{ name | lower }}", "{{ name.lower() }}"),
    ("{{ name | replace('-', '_') }}", "${{ name | replace('-', '_') }}", "{{ name.replace('-', '_') }}"),
    ("{{ env.get('A_B') }}:{{ env.get(\"C\") }}", "${{ env.get('A_B') }}:${{ env.get(\"C\") }}", "{{ environ['A_B'] }}:{{ environ[\"C\"] }}"),
    ("{{ name | lower }}/{{ version | replace('.', '') }}/{{ name | upper }}", "${{ name | lower }}/${{ version | replace('.', '') }}/${{ name | upper }}",
     "{{ name.lower() }}/{{ version.replace('.', '') }}/{{ name.upper() }}"),
    ("{{ env.get('PREFIX') }}/{{ pin_compatible('x', upper_bound='x') }}/{{ pin_subpackage('y', lower_bound='x.x') }}",
     "${{ env.get('PREFIX') }}/${{ pin_compatible('x', upper_bound='x') }}/${{ pin_subpackage('y', lower_bound='x.x') }}",
     "{{ environ['PREFIX'] }}/{{ pin_compatible('x', max_pin='x') }}/{{ pin_subpackage('y', min_pin='x.x') }}"),
    ("https://example.com/{{ name[0] }}/{{ name }}-{{ version }}.tar.gz", "https://example.com/${{ name[0] }}/${{ name }}-${{ version }}.tar.gz", None),
]
TEXT_LINES = ["echo hi", "make -j4 install", "cd src", "echo {{ name }}", "cp {{ name }}-{{ version }} $PREFIX", "# inner comment", "x [win]", "if: then"]
LICENSES = {"MIT": "MIT", "BSD-3-Clause": "BSD-3-Clause", "Apache-2.0": "Apache-2.0", "GPL-3.0-or-later": "GPL-3.0-or-later", "BSD 3-Clause": "BSD-3-Clause",
            "Apache 2.0": "Apache-2.0", "apache-2.0": "Apache-2.0", "Unlimited": "NOASSERTION", "Proprietary": "", "MIT AND BSD-3-Clause": "",
            "public domain": "", "LGPL-2.1-or-later": "LGPL-2.1-or-later"}
# member -> kind, key, value
ENVS = {"FOO=bar": ("env", "FOO", "s:bar"), "PATH_X = /a/b": ("env", "PATH_X", "s:/a/b"), "N=x3": ("env", "N", "s:x3"), "TOKEN": ("secret", "", "s:TOKEN"),
        "API_KEY": ("secret", "", "s:API_KEY"), "A=b=c": ("bad", "", ""), "V={{ version }}": ("env", "V", "s:${{ version }}")}
# source, tagged value, V1 value ("" if there is none), too complex to convert
VARS = [("'foo'", "s:foo", "s:foo", False), ('"Foo-Bar"', "s:Foo-Bar", "s:Foo-Bar", False), ('"1.2.3"', "s:1.2.3", "s:1.2.3", False),
        ("42", "i:42", "i:42", False), ("1.5", "f:1.5", "f:1.5", False), ("True", "b:true", "b:true", False), ("['a', 'b']", "x:list", "", False),
        ("{'a': 1}", "x:dict", "", False), ("name|lower", "s:name|lower", "s:${{name|lower}}", False), ("name[0]", "s:name[0]", "s:${{name[0]}}", False),
        ("name | upper", "s:name | upper", "s:${{name | upper}}", False), ("name.lower()", "s:name.lower()", "s:${{name | lower}}", False),
        ("sep.join(parts)", "s:sep.join(parts)", "s:sep | join(parts)", False),
        ("sep.join(parts) ~ name", "s:sep.join(parts) ~ name", "s:sep.join(parts) ~ name", True), ("version.strip", "s:version.strip", "s:version.strip", False)]
DEPS = ["python", "python >=3.8", "numpy", "zlib 1.2.*", "pip", "setuptools", "libfoo >=1,<2", "make", "cmake >=3.20"]
BUILD_DEPRECATED = ["pre-link", "noarch_python", "features", "msvc_compiler", "requires_features", "provides_features", "preferred_env",
                    "preferred_env_executable_paths", "disable_pip", "pin_depends", "overlinking_ignore_patterns", "rpaths_patcher", "post-link", "pre-unlink"]
ABOUT_DEPRECATED = ["prelink_message", "license_family", "identifiers", "tags", "keywords", "doc_source_url"]


# Lists whose members may be texts
TEXT_LISTS = {"commands", "script", "always_include_files", "ignore_run_exports", "keywords", "skip-lints", "files"}


MAY_BE_NULL = {"summary", "sha256", "doc_url", "run", "home", "folder"}


class CGen:
    """Recipes with the fields that recipes in the wild have."""

    def __init__(self, rng: random.Random):
        self.rng = rng
        self.p_com = rng.choice([0.0, 0.1, 0.25])
        self.p_full = rng.choice([0.0, 0.05, 0.12])
        self.p_jinja = rng.choice([0.0, 0.15, 0.4])
        self.pyrec = rng.random() < 0.5

    def m(self) -> dict[str, str]:
        if self.rng.random() >= self.p_com:
            return dict(NOM)
        x = self.rng.random()
        s, n = self.rng.choice(list(SELECTORS)), self.rng.choice(NOTES)
        return com(f"# [{s}]", s) if x < 0.6 else com(f"# {n}", "", n) if x < 0.85 else com(f"# [{s}] {n}", s, n)

    def sca(self, k: str, src: str, v: Optional[str] = None, jinja: bool = True) -> Node:
        if jinja and self.rng.random() < self.p_jinja:
            v0, _, sp = self.rng.choice(JINJA)
            n = node("sca", k, "s:" + v0, v0, self.m())
            n["src"] = sp or v0
            return n
        n = node("sca", k, v or "s:" + src, src, self.m())
        n["src"] = src
        return n

    def odd(self) -> Node:
        """Values that count as false."""
        v, r, src = self.rng.choice([("i:0", "0", "0"), ("f:0.0", "0.0", "0.0"), ("s:", '""', "''"), ("s:", '""', '""')])
        n = node("sca", "", v, r, self.m())
        n["src"] = src
        return n

    def num(self, k: str) -> Node:
        x = str(self.rng.choice([0, 1, 7, 203]))
        return self.sca(k, x, "i:" + x)

    def boo(self, k: str) -> Node:
        b = self.rng.random() < 0.7
        n = node("sca", k, "b:true" if b else "b:false", "true" if b else "false", self.m())
        n["src"] = self.rng.choice(["true", "True"] if b else ["false", "False"])
        return n

    def full(self, c: list[Node]) -> list[Node]:
        out: list[Node] = []
        for x in c:
            if self.rng.random() < self.p_full:
                out.append(node("com", r=self.rng.choice(FULL_COMMENTS)))
            out.append(x)
        return out

    def lst(self, k: str, items: list[str], lo: int = 1, hi: int = 4, jinja: bool = True) -> Node:
        c = [self.block("") if k in TEXT_LISTS and self.rng.random() < 0.12
             else self.odd() if k in TEXT_LISTS and self.rng.random() < 0.04
             else self.sca("", self.rng.choice(items), jinja=jinja)
             for _ in range(self.rng.randint(lo, hi))]
        return node("seq", k, m=self.m(), c=self.full(c))

    def mp(self, k: str, c: list[Node], m: bool = True) -> Node:
        return node("map", k, m=self.m() if m else None, c=self.full(c))

    def some(self, table: list[tuple[float, str, Any]]) -> list[Node]:
        out: list[Node] = []
        for p, k, f in table:
            if self.rng.random() < p and not any(n["k"] == k for n in out):
                out.append(node("nul", k, m=dict(NOM)) if k in MAY_BE_NULL and self.rng.random() < 0.08 else f(k))
        if self.rng.random() < 0.6:
            self.rng.shuffle(out)
        return out

    def block(self, k: str) -> Node:
        r = self.rng.choice(["|", "|", "|-", ">", ">-"])
        ls = [self.rng.choice(TEXT_LINES) for _ in range(self.rng.randint(2, 4))]
        return node("blk", k, "s:" + ("\n" if r[0] == "|" else " ").join(ls), r, self.m(), [node("lin", r=x) for x in ls])

    def source_one(self, k: str) -> list[Node]:
        s = self.sca
        out = self.some([
            (0.8, "url", lambda k: s(k, "https://example.com/a.tar.gz")), (0.8, "sha256", lambda k: s(k, "0a1b2c")), (0.15, "md5", lambda k: s(k, "abcd")),
            (0.3, "fn", lambda k: s(k, "a.tar.gz")), (0.2, "folder", lambda k: s(k, "src")), (0.2, "path", lambda k: s(k, "../x")),
            (0.2, "git_url", lambda k: s(k, "https://github.com/a/b.git")), (0.15, "git_tag", lambda k: s(k, "v1")), (0.15, "git_rev", lambda k: s(k, "deadbee")),
            (0.1, "git_depth", self.num), (0.05, "svn_url", lambda k: s(k, "https://x/svn")), (0.05, "hg_url", lambda k: s(k, "https://x/hg")),
            (0.2, "patches", lambda k: self.lst(k, ["0001-a.patch", "b.patch"])), (0.06, "unknown_field", lambda k: s(k, "u")),
        ])
        return out or [s("url", "https://example.com/a.tar.gz")]

    def source(self, k: str) -> Node:
        if self.rng.random() < 0.4:
            c = []
            for _ in range(self.rng.randint(1, 3)):
                x = self.source_one("")
                # A list member can not lose its only field.
                x += [self.sca("sha256", "0a1b2c")] if len(x) == 1 and x[0]["k"] != "sha256" else []
                c.append(node("map", c=self.nofirst(self.full(x))))
            return node("seq", k, m=self.m(), c=self.full(c))
        return self.mp(k, self.source_one(k))

    @staticmethod
    def nofirst(c: list[Node]) -> list[Node]:
        while c[0]["t"] == "com":
            c.pop(0)
        return c

    def run_exports(self, k: str) -> Node:
        deps = ["foo", "{{ pin_subpackage('foo') }}", "bar >=1"]
        if self.rng.random() < 0.4:
            return self.mp(k, [self.lst(x, deps[::2]) for x in self.rng.sample(["strong", "weak"], self.rng.randint(1, 2))])
        return self.lst(k, deps[::2], 1, 2)

    def script_env(self, k: str) -> Node:
        c = []
        for x in self.rng.sample(list(ENVS), self.rng.randint(1, 4)):
            n = node("sca", "", "s:" + x, x, self.m())
            n["src"] = x
            c.append(n)
        return node("seq", k, m=self.m(), c=self.full(c))

    def build(self, k: str) -> Node:
        s = self.sca
        skip = self.rng.choice(["skip", "skip", "skipt", "skips", "Skip"])
        out = self.some([
            (0.9, "number", self.num), (0.45, skip, self.boo), (0.3, "noarch", lambda k: s(k, "python", jinja=False)),
            (0.25, "script", lambda k: s(k, "python -m pip install . -vv")), (0.1, "script_env", self.script_env), (0.15, "string", lambda k: s(k, "h_0")),
            (0.1, "merge_build_host", self.boo), (0.1, "no_link", lambda k: self.lst(k, ["bin/*.x", "lib/y"])),
            (0.2, "entry_points", lambda k: self.lst(k, ["foo = foo.main:run", "bar = bar:go"])), (0.1, "ignore_prefix_files", lambda k: self.lst(k, ["a.txt"])),
            (0.1, "detect_binary_files_with_prefix", self.boo), (0.1, "rpaths", lambda k: self.lst(k, ["lib/", "lib/R/lib"])),
            (0.1, "binary_relocation", self.boo), (0.1, "missing_dso_whitelist", lambda k: self.lst(k, ["lib/x.so", "$RPATH/y"])),
            (0.1, "runpath_whitelist", lambda k: self.lst(k, ["lib/z"])), (0.2, "run_exports", self.run_exports),
            (0.15, "ignore_run_exports", lambda k: self.lst(k, ["foo", "bar"])), (0.1, "always_include_files", lambda k: self.lst(k, ["a", "b"])),
            (0.12, self.rng.choice(BUILD_DEPRECATED), lambda k: s(k, "x")), (0.06, "pre-link", lambda k: s(k, "link.sh")),
            (0.06, "features", lambda k: self.lst(k, ["f1", "f2"])), (0.06, "unknown_key", lambda k: s(k, "u")),
        ])
        x = self.rng.random()
        i = next((i for i, n in enumerate(out) if n["k"] == "script"), -1)
        if i >= 0:
            if any(n["k"] == "script_env" for n in out):
                # The script of an environment: text or list
                out[i] = s("script", "make install") if x < 0.6 else self.lst("script", ["make", "make install"])
            elif x < 0.3:
                out[i] = self.lst("script", ["make", "make install", "cp a b"])
            elif x < 0.5:
                out[i] = self.block("script")
        return self.mp(k, out or [self.num("number")])

    def requirements(self, k: str) -> Node:
        out = self.some([(0.5, "build", lambda k: self.lst(k, DEPS)), (0.7, "host", lambda k: self.lst(k, DEPS + ["python"] * (8 if self.pyrec else 0))), (0.8, "run", lambda k: self.lst(k, DEPS)),
                         (0.25, "run_constrained", lambda k: self.lst(k, DEPS))])
        return self.mp(k, out or [self.lst("run", DEPS)])

    def test(self, k: str) -> Node:
        cmds = ["pip check", "foo --help", "test -f $PREFIX/x", "python -m pip check", "pytest tests", "python3 -m pip check"]
        out = self.some([
            (0.6, "commands", lambda k: self.lst(k, cmds + ["pip check"], 1, self.rng.choice([1, 1, 2, 4]))), (0.5, "imports", lambda k: self.lst(k, ["foo", "foo.bar", "baz"])),
            (0.5, "requires", lambda k: self.lst(k, ["pip", "pytest", "python"])), (0.2, "files", lambda k: self.lst(k, ["a.py", "t/"])),
            (0.2, "source_files", lambda k: self.lst(k, ["tests/", "b.c"])), (0.15, "downstreams", lambda k: self.lst(k, ["down1", "down2"])),
        ])
        return self.mp(k, out or [self.lst("imports", ["foo"])])

    def summary(self, k: str) -> Node:
        n = self.lst(k, ["A tool", "for things", "of all kinds"], jinja=False)
        for x in n["c"]:
            x["m"] = dict(NOM)
        return n

    def about(self, k: str) -> Node:
        s = self.sca
        out = self.some([
            (0.8, "home", lambda k: s(k, "https://example.com")), (0.85, "license", lambda k: s(k, self.rng.choice(list(LICENSES)), jinja=False)),
            (0.5, "license_file", lambda k: s(k, "LICENSE") if self.rng.random() < 0.6 else self.lst(k, ["LICENSE", "COPYING"])),
            (0.3, "license_family", lambda k: s(k, "MIT", jinja=False)), (0.7, "summary", lambda k: s(k, "A tool for things") if self.rng.random() < 0.8
                                                                             else self.summary(k)),
            (0.4, "description", lambda k: self.block(k) if self.rng.random() < 0.6 else s(k, "long story")), (0.5, "dev_url", lambda k: s(k, "https://github.com/a/b")),
            (0.5, "doc_url", lambda k: s(k, "https://docs.example.com")), (0.1, "doc_source_url", lambda k: s(k, "https://x/y")),
            (0.1, "keywords", lambda k: self.lst(k, ["a", "b"])), (0.06, "tags", lambda k: self.lst(k, ["t"])), (0.06, "identifiers", lambda k: self.lst(k, ["i"])),
            (0.06, "prelink_message", lambda k: s(k, "msg")),
        ])
        return self.mp(k, out or [s("home", "https://example.com")])

    def extra(self, k: str) -> Node:
        return self.mp(k, self.some([(0.9, "recipe-maintainers", lambda k: self.lst(k, ["alice", "bob"], jinja=False)),
                                     (0.3, "skip-lints", lambda k: self.lst(k, ["a", "b"]))]) or [self.sca("x", "y")])

    def package(self, k: str) -> Node:
        return self.mp(k, [self.sca("name", "foo"), self.sca("version", "1.2.3")][: self.rng.choice([1, 2, 2, 2])])

    def output(self) -> Node:
        s = self.sca
        c = [s("name", self.rng.choice(["libfoo", "foo-dev"]))] if self.rng.random() < 0.9 else []
        c += self.some([
            (0.2, "version", lambda k: s(k, "2.0.1")), (0.5, "build", self.build), (0.6, "requirements", self.requirements), (0.6, "test", self.test),
            (0.3, "about", self.about), (0.15, "script", lambda k: s(k, "build.sh")), (0.1, "files", lambda k: self.lst(k, ["bin/a", "lib/b"])),
            (0.08, "source", self.source),
        ])
        return node("map", c=self.nofirst(self.full(c or [s("name", "libfoo")])))

    def recipe(self) -> dict[str, Any]:
        multi = self.rng.random() < 0.3
        out = self.some([
            (0.95, "package", self.package), (0.8, "source", self.source), (0.85, "build", self.build), (0.75, "requirements", self.requirements),
            (0.7, "test", self.test), (0.85, "about", self.about), (0.5, self.rng.choice(["extra", "extra", "extras"]), self.extra),
            (0.08, "app", lambda k: self.mp(k, [self.sca("entry", "x")])),
        ])
        if multi:
            outs = node("seq", "outputs", m=self.m(), c=self.full([self.output() for _ in range(self.rng.randint(1, 3))]))
            out.insert(self.rng.randint(0, len(out)), outs)
        vs = []
        for k in self.rng.sample(["name", "version", "build", "sha256", "major", "parts"], self.rng.randint(0, 5)):
            src, v, _, _ = self.rng.choice(VARS)
            vs.append({"k": k, "v": v, "r": src})
        return {"ver": 0, "root": node("map", c=self.full(out or [self.package("package")])), "vars": vs, "mod": False}


def tables(st: dict[str, Any]) -> dict[str, Any]:
    jin = {"s:" + v0: "s:" + v1 for v0, v1, _ in JINJA}

    def _walk(n: Node) -> None:
        if n["t"] == "blk" and "{{" in n["v"]:
            jin[n["v"]] = n["v"].replace("{{", "${{")
        for x in n["c"]:
            _walk(x)

    _walk(st["root"])
    jin["s:V={{ version }}"] = "s:V=${{ version }}"
    env = {("s:" + k if "{{" not in k else "s:" + k.replace("{{", "${{")): {"t": t, "k": n, "v": v} for k, (t, n, v) in ENVS.items()}
    return {"jin": jin, "sel": SELECTORS, "lic": {"s:" + k: ("s:" + v if v else "") for k, v in LICENSES.items()}, "env": env,
            "ctx": {v: {"ok": bool(v1), "v": v1, "complex": cx} for _, v, v1, cx in VARS}}


_PATH = re.compile(r"/[A-Za-z0-9_\-/]+")


def subjects(msg: str) -> list[str]:
    out = set(_PATH.findall(msg)) | set(re.findall(r"`([^`]*)`", msg))
    if "relocate comment: " in msg:
        out.add(msg.split("relocate comment: ", 1)[1])
    low = msg.lower()
    for k, v in {"unsupported syntax": "unsupported syntax", "svn": "SVN", "mercurial": "HG", "unrecognized license": "license not recognized",
                 "script_env": "script_env"}.items():
        if k in low:
            out.add(v)
    return sorted(out)


def convert(text: str) -> dict[str, Any]:
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.types import MessageCategory

    def _f() -> dict[str, Any]:
        pre = RecipeParserConvert.pre_process_recipe_text(text)
        p = RecipeParserConvert(pre)
        before = (p.render(), p.list_variables(), p.get_comments_table(), p.list_selectors())
        out, tbl, _ = p.render_to_v1_recipe_format()
        source = before == (p.render(), p.list_variables(), p.get_comments_table(), p.list_selectors()) and not p.is_modified()
        again = RecipeParserConvert(pre).render_to_v1_recipe_format() if hash(len(text)) % 2 else (out, tbl)
        msgs = [{"c": c.value, "s": subjects(m)} for c in MessageCategory for m in tbl.get_messages(c)]
        return {"out": out, "msgs": msgs, "source": source, "again": again[0] == out and again[1].get_messages(MessageCategory.WARNING) ==
                tbl.get_messages(MessageCategory.WARNING) and again[1].get_messages(MessageCategory.ERROR) == tbl.get_messages(MessageCategory.ERROR),
                "raw": [m for c in MessageCategory for m in tbl.get_messages(c)]}

    ok, v = guard(_f)
    if not ok:
        return {"out": "", "data": proj(v), "lines": [], "msgs": [], "again": False, "source": False, "v1": False, "raw": []}

    def _v1() -> bool:
        from conda_recipe_manager.parser.enums import SchemaVersion
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        r = RecipeReader(v["out"])
        return r.get_schema_version() == SchemaVersion.V1 and r.render() == v["out"]

    ok, data = guard(lambda: independent_yaml(v["out"]))
    lines = []
    for ln in v["out"].split("\n"):
        ln = ln.strip()
        while ln.startswith("- "):
            ln = ln[2:]
        lines.append(ln)
    return {**v, "data": proj(data), "lines": lines, "v1": guard(_v1) == (True, True)}


def one(seed: str) -> dict[str, Any]:
    rng = random.Random(seed)
    st = CGen(rng).recipe()
    text = Gen(rng).text(st)
    # Variables that the recipe sets with Jinja. Noise around them is a subject of C01.
    obs = convert(text)
    return {"root": strip_src(st["root"]), "vars": st["vars"], "text": text, "obs": obs, **tables(st)}


def known_C19(ctx: Ctx) -> None:
    from harness.c_recipe import probe

    def v1(text: str) -> Any:
        return independent_yaml(convert(text)["out"])

    probe(ctx, "KF-convert-expression", "a variable that is set to an expression with quotes stays that expression",
          lambda: v1('{% set v = name.replace("-", "_") %}\npackage:\n  name: {{ v }}\n')["context"]["v"].replace(" ", ""), '${{name|replace("-","_")}}')
    probe(ctx, "KF-convert-silent", "a comment that is lost with a converted value is reported",
          lambda: len(convert("requirements:\n  run:\n    - foo  # [win] why\n")["raw"]), 1)
    probe(ctx, "KF-convert-env-number", "the value of an environment variable is a string",
          lambda: v1("build:\n  script: x\n  script_env:\n    - N=3\n")["build"]["script"]["env"]["N"], "3")
    probe(ctx, "KF-convert-only-field", "the only field of a source in a list is converted",
          lambda: v1("source:\n  - fn: a\n  - url: b\n")["source"][0], {"file_name": "a"})


def check_C19(ctx: Ctx) -> None:
    known_C19(ctx)
    ctx.rules.append("A recipe counts if it has a field, selector, variable or comment that is converted; told apart by its text.")
    n = ctx.pick(800, 12000)
    for c in range(0, n, 1500):
        cases = pmap(one, [f"{ctx.seed}:C19:{i}" for i in range(c, min(c + 1500, n))])
        for x in cases:
            ctx.nontriv(x["text"])
        ctx.sample({"v0": cases[0]["text"], "v1": cases[0]["obs"]["out"]})
        judge(ctx, "ConvertCases", cases, lambda x: f"conversion of {x['text']!r} gives {x['obs']['out']!r} {x['obs']['raw']}", chunk=300)
