"""
Minimal offline stand-in for `conda.models.match_spec`.

conda-recipe-manager uses only four things of it: construction from a string (raising on an invalid spec), `.name`,
`.original_spec_str`, and equality/hashing of the parsed spec.  This file provides exactly these, following conda's own
grammar: `[channel[/subdir]::]name[ version[ build]][[key=value,...]]`, names lower-cased, and equality on the parsed
components (so `foo>=1` equals `foo >=1`).
"""

from __future__ import annotations

import re


class InvalidMatchSpec(ValueError):
    """Raised when a spec string cannot be parsed."""

    def __init__(self, invalid_spec: str, details: str = "") -> None:
        super().__init__(f"Invalid spec '{invalid_spec}': {details}")


_SPEC = re.compile(r"^(?P<name>[^\s=<>!~\[\]{}:(),;#]+)\s*(?P<rest>.*)$")
_BRACKETS = re.compile(r"^(?P<head>[^\[]*)(?:\[(?P<kv>.*)\])?$")
_KV = re.compile(r"""(\w+)\s*=\s*(?:'([^']*)'|"([^"]*)"|([^,'"\s]+))""")
_VERSION = re.compile(r"^[\w.*+!<>=~,|()\s^$-]*$")


class MatchSpec:
    """Parsed conda package match specification (subset)."""

    def __init__(self, spec: str) -> None:
        if isinstance(spec, MatchSpec):
            spec = spec.original_spec_str
        self.original_spec_str = spec
        text = re.sub(r"\s#.*$", "", spec).strip()
        if "::" in text:
            text = text.split("::", 1)[1]
        brackets = _BRACKETS.match(text)
        if not brackets:
            raise InvalidMatchSpec(spec, "unable to parse brackets")
        kv = {}
        if brackets["kv"] is not None:
            for m in _KV.finditer(brackets["kv"]):
                kv[m[1]] = m[2] or m[3] or m[4] or ""
            if not kv:
                raise InvalidMatchSpec(spec, "key-value mismatch in brackets")
        m = _SPEC.match(brackets["head"].strip())
        if not m:
            raise InvalidMatchSpec(spec, "no package name found")
        rest = m["rest"].strip()
        if not _VERSION.match(rest):
            raise InvalidMatchSpec(spec, "invalid version spec")
        self.name = m["name"].lower()
        parts = re.sub(r"([<>=!~,|])\s+", r"\1", re.sub(r"\s+", " ", rest)).split(" ")
        if parts[0]:
            kv.setdefault("version", parts[0])
        if len(parts) > 1:
            kv.setdefault("build", " ".join(parts[1:]))
        self._key = (self.name, tuple(sorted(kv.items())))

    def __eq__(self, other: object) -> bool:
        return isinstance(other, MatchSpec) and self._key == other._key

    def __hash__(self) -> int:
        return hash(self._key)

    def __str__(self) -> str:
        return self.original_spec_str

    def __repr__(self) -> str:
        return f"MatchSpec({self.original_spec_str!r})"
