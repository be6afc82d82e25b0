"""
Minimal, deterministic stand-in for `conda.models.match_spec`, used only when the real `conda` package is not
installed (it is not part of this sandbox).

Only what conda-recipe-manager uses is provided: construction from a spec string, `name`, `version`,
`original_spec_str`, equality, hashing, pickling and `InvalidMatchSpec` (a `ValueError` raised for text that is not a
match-spec). It contains no conda-recipe-manager logic.
"""

from __future__ import annotations

import re


class InvalidMatchSpec(ValueError):
    """Raised when a string is not a valid match specification."""

    def __init__(self, invalid_spec: str, details: str = ""):
        super().__init__(f"Invalid spec '{invalid_spec}': {details}")


_NAME = re.compile(r"^[A-Za-z0-9_.*][A-Za-z0-9_.*\-]*$")
_SPLIT = re.compile(r"^([^\s=<>!~\[\]]+)\s*(.*)$", re.S)


class MatchSpec:
    """Tiny subset of conda's MatchSpec."""

    __slots__ = ("original_spec_str", "_name", "_version", "_build")

    def __init__(self, spec):
        if isinstance(spec, MatchSpec):
            spec = spec.original_spec_str
        spec = str(spec)
        self.original_spec_str = spec
        text = spec.split("#", 1)[0].strip()
        bracket = re.search(r"\[(.*)\]$", text)
        brackets = {}
        if bracket:
            for key, dq, sq, raw in re.findall(r"(\w+)\s*=\s*(?:\"([^\"]*)\"|'([^']*)'|([^,\]]*))", bracket.group(1)):
                brackets[key] = dq or sq or raw
            text = text[: bracket.start()].strip()
        if "::" in text:
            text = text.rsplit("::", 1)[1]
        m = _SPLIT.match(text)
        if m is None:
            raise InvalidMatchSpec(spec, "no package name found")
        name, rest = m.group(1), m.group(2).strip()
        if not _NAME.match(name):
            raise InvalidMatchSpec(spec, "invalid package name")
        build = None
        if rest and " " in rest and not re.search(r"[,|]\s*\S*$", rest.split(" ")[0]):
            parts = rest.split()
            joined = []
            for p in parts:
                if joined and re.search(r"([<>=!~,|])$", joined[-1]):
                    joined[-1] += p
                else:
                    joined.append(p)
            if len(joined) > 2:
                raise InvalidMatchSpec(spec, "too many fields")
            rest = joined[0]
            if len(joined) == 2:
                build = joined[1]
        rest = brackets.get("version", rest)
        build = brackets.get("build", build)
        if rest and re.search(r"[^\w.*+!<>=~,|^$()\-]", rest):
            raise InvalidMatchSpec(spec, "invalid version")
        if rest and re.search(r"[<>=!~]$", rest):
            raise InvalidMatchSpec(spec, "invalid operator")
        self._name = name.lower()
        self._version = rest or None
        self._build = build

    @property
    def name(self):
        return self._name

    @property
    def version(self):
        return self._version

    @property
    def build(self):
        return self._build

    def _key(self):
        return (self._name, self._version, self._build)

    def __eq__(self, other):
        return isinstance(other, MatchSpec) and self._key() == other._key()

    def __hash__(self):
        return hash(self._key())

    def __str__(self):
        return " ".join(x for x in (self._name, self._version, self._build) if x)

    def __repr__(self):
        return f"MatchSpec({self.original_spec_str!r})"

    def __reduce__(self):
        return (MatchSpec, (self.original_spec_str,))
