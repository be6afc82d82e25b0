"""Recipe documents for the editing scenarios: a seeded generator with its own YAML emitter, an independent YAML reading of
rendered recipes, and an executable model of JSON patches on plain values."""

from __future__ import annotations

import copy
import json
import random
import re

import yaml

WORDS = ["alpha", "beta", "gamma", "delta", "libfoo", "py-bar", "zstd", "openssl", "rust", "numpy"]
TRICKY = ["yes", "null", "~", "a: b", "x # y", "# z", "it's", 'say "hi"', "*glob", "&amp", "- dash", "[a]", "{b}", "!tag", "%pct", "@at", "`tick`", "a,b", "| pipe", "> fold",
          "ends:", "1.10", "1:30", "0x1F", "1e3", "007", "2024-01-01", "ünïcode ✓", "back\\slash", "tab\there", "tail #", "#tag", "", "true", "-1", "=", "?", "a  b", "https://x.org/a#frag"]
LINES = ["make install", "  indented", "if x; then", "# not a comment", "- not a list", "key: not a key", "", "end"]


class Loader(yaml.SafeLoader):
    """Keeps numbers and dates as the text they are written as."""


for _t in ("int", "float", "timestamp"):
    Loader.add_constructor(f"tag:yaml.org,2002:{_t}", lambda self, node: node.value)


def load(text: str):
    """Independent reading of a recipe's values: Jinja lines dropped, Jinja expressions kept as text."""
    lines = [ln for ln in text.split("\n") if not ln.lstrip().startswith(("{%", "{#"))]
    body = re.sub(r"(?<!\$)\{\{(.*?)\}\}", lambda m: "<<" + m.group(1) + ">>", "\n".join(lines))
    return yaml.load(body, Loader=Loader)


def norm(v):
    """Values as compared: scalars by text, empty collections are null, trailing line breaks of blocks do not count."""
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()} or None
    if isinstance(v, list):
        return [norm(x) for x in v] or None
    if v is None or isinstance(v, bool):
        return v
    s = re.sub(r"(?<!\$)\{\{(.*?)\}\}", lambda m: "<<" + m.group(1) + ">>", str(v))
    return s.rstrip("\n") if "\n" in s else s


# -- generator


def word(rng):
    return rng.choice(WORDS) + rng.choice(["", "", "", str(rng.randrange(30))])


def scalar(rng, jinja=True):
    k = rng.randrange(14)
    if k < 5:
        return word(rng)
    if k == 5:
        return rng.choice([0, 1, 3, 42, -7, 1.5, 100.25])
    if k == 6:
        return rng.choice([True, False])
    if k == 7:
        return None
    if k in (8, 9):
        return rng.choice(TRICKY)
    if k == 10:
        return f"{word(rng)} >={rng.randrange(9)}.{rng.randrange(20)},<{rng.randrange(9, 12)}"
    if k == 11 and jinja:
        return rng.choice(["{{ version }}", "foo-{{ version }}.tgz", "{{ name }}", "${{ version }}", "{{ compiler('c') }}"])
    if k == 12:
        return "two words and more" if rng.random() < 0.6 else " ".join(rng.choice(WORDS) for _ in range(40)) + rng.choice(["", ": end", " # end", ", it's"])
    return f"https://example.org/{word(rng)}"


def block(rng):
    lines = [rng.choice(["cd src", "echo start", "export A=1", "cd src", "echo start", "export A=1", " leading space", ""])] + [rng.choice(LINES) for _ in range(rng.randrange(0, 4))] + ["done"]
    return "\n".join(lines)


def value(rng, depth=0, in_list=False, jinja=True):
    """A value for a patch or a document. No lists directly inside lists."""
    k = rng.randrange(12)
    if depth >= 3 or k < 6:
        return scalar(rng, jinja)
    if k == 6 and not in_list:
        return block(rng)
    if k in (7, 8) and not in_list:
        return [value(rng, depth + 1, True, jinja) for _ in range(rng.randrange(0 if depth == 0 else 1, 4))]
    return {key(rng, i): value(rng, depth + 1, False, jinja) for i in range(rng.randrange(0 if depth == 0 else 1, 4))}


def key(rng, i=0):
    return rng.choice(["aa", "bb", "name", "url", "run", "key_x", "key-y", "then", "script"]) + ("" if i == 0 else str(i))


def document(rng: random.Random, schema: int) -> dict:
    """A recipe-like document, as nested values."""
    def pins(n):
        return [rng.choice([word(rng), f"{word(rng)} >=1.{rng.randrange(9)}", f"{word(rng)} 2.*"]) for _ in range(n)]

    d: dict = {}
    if schema == 1:
        d["schema_version"] = 1
        d["context"] = {"name": "pkg", "version": rng.choice(["1.2.3", "2.0", "1.10"])}
    v = (lambda s: "${{ " + s + " }}") if schema == 1 else (lambda s: "{{ " + s + " }}")
    d["package"] = {"name": v("name") if rng.random() < 0.5 else "pkg", "version": v("version")}
    if rng.random() < 0.8:
        srcs = [{"url": f"https://h/{k}-{v('version')}.tar.gz", **({"sha256": "ab" * 32} if rng.random() < 0.7 else {}),
                 **({"patches": [f"p{j}.patch" for j in range(rng.randrange(1, 4))]} if rng.random() < 0.4 else {})} for k in range(rng.choice([1, 1, 2, 3]))]
        d["source"] = srcs if len(srcs) > 1 or rng.random() < 0.3 else srcs[0]
    d["build"] = {"number": rng.randrange(5)}
    if rng.random() < 0.4:
        d["build"]["skip"] = True
    if rng.random() < 0.5:
        d["build"]["script"] = rng.choice(["make install", block(rng), ["make", "make check"]])
    if rng.random() < 0.4:
        d["build"]["entry_points"] = ["a = b:main", "c = d:main"][: rng.randrange(1, 3)]

    def reqs():
        r = {}
        for sec in ("build", "host", "run", "run_constrained" if schema == 0 else "run_constraints"):
            if rng.random() < (0.7 if sec != "build" else 0.3):
                r[sec] = pins(rng.randrange(1, 5))
        return r

    if rng.random() < 0.85:
        r = reqs()
        if r:
            d["requirements"] = r
    if rng.random() < 0.35:
        d["outputs"] = [{**({"name": f"out{k}"} if schema == 0 else {"package": {"name": f"out{k}"}}), **({"requirements": q} if (q := reqs()) else {})} for k in range(rng.randrange(1, 4))]
    if schema == 0 and rng.random() < 0.6:
        d["test"] = {"imports": [word(rng)], "commands": rng.choice([["pip check"], [], ["x --help", "y: z"]])}
    if schema == 1 and rng.random() < 0.6:
        d["tests"] = [{"python": {"imports": [word(rng)], "pip_check": True}}, {"script": ["x --help"]}][: rng.randrange(1, 3)]
    d["about"] = {"summary": rng.choice(["A package", "it's: a package", block(rng)]), "license": "MIT"}
    if rng.random() < 0.4:
        d["extra"] = value(rng, 0, False, False)
        if not isinstance(d["extra"], dict) or not d["extra"]:
            d["extra"] = {"maintainers": [word(rng)], "odd": d["extra"]}
    return d


def _q(v) -> str:
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    s = str(v)
    if not isinstance(v, str):
        return s
    if "{{" in s:
        return s
    try:
        if "\n" not in s and yaml.load(s, Loader=Loader) == s and not s.startswith(("-", "=", "!", "%", "@", "?", "*", "&", "[", ",", "\\")) and "'" not in s and '"' not in s:
            return s
    except yaml.YAMLError:
        pass
    return json.dumps(s, ensure_ascii=not s.isprintable())


def emit(doc: dict, rng: random.Random, schema: int, decorate: float = 0.25) -> str:
    """Text of a document in the layout recipes have, with comments and selectors."""
    out: list[str] = []
    if schema == 0:
        out += ['{% set name = "pkg" %}', f'{{% set version = "{rng.choice(["1.2.3", "2.0", "1.10"])}" %}}' + rng.choice(["", "", "", " ", "\t "]), ""]

    def note(ok_selector=True):
        if rng.random() >= decorate:
            return ""
        sel = rng.choice(["[linux]", "[win]", "[unix and py<310]", "[not osx]"])
        if ok_selector and rng.random() < (0.7 if schema == 0 else 0.25):
            return "  # " + sel + rng.choice(["", "", " and more", "", "", " # and more", " see #12 and #13", " ends #"])
        return "  # note " + rng.choice(["", "", "#"]) + str(rng.randrange(100)) + rng.choice(["", "", "", " #"])

    def put_map(m, ind, first_prefix=None):
        for n, (k, v) in enumerate(m.items()):
            pre = first_prefix if n == 0 and first_prefix is not None else " " * ind
            if n and rng.random() < decorate * 0.3 and ind:
                out.append(" " * ind + f"# remark {rng.randrange(100)}")
            if n and schema == 0 and rng.random() < decorate * 0.06:
                out.append(" " * ind + rng.choice(["{# a jinja remark #}", "{% if win %}", "{% endif %}"]))
            put(k, v, pre, ind)

    def put(k, v, pre, ind):
        if isinstance(v, dict) and v:
            out.append(f"{pre}{k}:{note() if ind else ''}")
            put_map(v, ind + 2)
        elif isinstance(v, list) and v:
            out.append(f"{pre}{k}:{note() if ind else ''}")
            for n, x in enumerate(v):
                if n and rng.random() < decorate * 0.4:
                    out.append(" " * (ind + 2) + f"# item remark {rng.randrange(100)}")
                if isinstance(x, dict) and x:
                    put_map(x, ind + 4, " " * (ind + 2) + "- ")
                else:
                    out.append(" " * (ind + 2) + "- " + ("{}" if x == {} else _q(x)) + note())
        elif isinstance(v, (dict, list)):
            out.append(f"{pre}{k}: {'{}' if isinstance(v, dict) else '[]'}")
        elif isinstance(v, str) and "\n" in v:
            lines = v.split("\n")
            if not lines[0].strip() or lines[0][0].isspace():
                out.append(f"{pre}{k}: {_q(v)}")
            else:
                out.append(f"{pre}{k}: {rng.choice(['|', '|', '|-', '>', '>-'])}")
                more = rng.choice([2, 2, 2, 4, 1, 3])
                out.extend((" " * (ind + more) + ln).rstrip() for ln in lines)
        elif v is None:
            out.append(f"{pre}{k}:")
        else:
            out.append(f"{pre}{k}: {_q(v)}{note() if ind else ''}")

    for k, v in doc.items():
        if rng.random() < decorate * 0.4:
            out.append(f"# {rng.choice(['The', 'A'])} {k} section")
        put(k, v, "", 0)
        out.append("")
    return "\n".join(out)


def recipe(rng: random.Random, schema: int | None = None, decorate: float = 0.25) -> str:
    """Text of a seeded recipe."""
    s = rng.randrange(2) if schema is None else schema
    return emit(document(rng, s), rng, s, decorate)


# -- JSON patch model


class Refused(Exception):
    pass


def split(path):
    if not isinstance(path, str) or not path.startswith("/"):
        raise Refused
    return path[1:].split("/")


def _get(doc, parts):
    for x in parts:
        if isinstance(doc, list):
            if not x.isdecimal() or int(x) >= len(doc):
                raise Refused
            doc = doc[int(x)]
        elif isinstance(doc, dict):
            if x not in doc:
                raise Refused
            doc = doc[x]
        else:
            raise Refused
    return doc


def _set(doc, parts, v):
    par = _get(doc, parts[:-1])
    if isinstance(par, list):
        par[int(parts[-1])] = v
    else:
        par[parts[-1]] = v


def _add(doc, parts, v):
    par = _get(doc, parts[:-1])
    k = parts[-1]
    index = k == "-" or k.isdecimal()
    if par is None:
        # What was emptied, or never filled, becomes what it is used as.
        member = isinstance(_get(doc, parts[:-2]), list) if len(parts) > 1 else False
        if k == "-" and not member:
            par = []
        elif not index and k:
            par = {}
        else:
            raise Refused
        if len(parts) > 1:
            _set(doc, parts[:-1], par)
    if isinstance(par, list):
        if isinstance(v, list) or not index:
            raise Refused
        if k == "-":
            par.append(v)
        elif int(k) < len(par):
            par.insert(int(k), v)
        else:
            raise Refused
    elif isinstance(par, dict):
        if k in par:
            par[k] = v
        elif index or not k:
            raise Refused
        else:
            par[k] = v
    else:
        raise Refused


def _remove(doc, parts):
    par = _get(doc, parts[:-1])
    _get(par, parts[-1:])
    if isinstance(par, list):
        par.pop(int(parts[-1]))
    else:
        del par[parts[-1]]
    if not par and len(parts) > 1:
        _set(doc, parts[:-1], None)


def apply(doc, op):
    """The document after one operation. :raises Refused: if the operation does not apply."""
    d = copy.deepcopy(doc)
    kind, parts = op["op"], split(op["path"])
    if kind == "add":
        _add(d, parts, copy.deepcopy(op["value"]))
    elif kind == "remove":
        _remove(d, parts)
    elif kind == "replace":
        _get(d, parts)
        if isinstance(_get(d, parts[:-1]), list) and isinstance(op["value"], list):
            raise Refused
        _set(d, parts, copy.deepcopy(op["value"]))
    elif kind == "test":
        if norm(_get(d, parts)) != norm(op["value"]):
            raise Refused
    elif kind == "copy":
        _add(d, parts, copy.deepcopy(_get(d, split(op["from"]))))
    elif kind == "move":
        v = copy.deepcopy(_get(d, split(op["from"])))
        if op["path"] != op["from"]:
            if op["path"].startswith(op["from"] + "/"):
                raise Refused
            _remove(d, split(op["from"]))
            _add(d, parts, v)
    return d


def paths(doc, pre=""):
    """All locations of a document."""
    out = []
    items = doc.items() if isinstance(doc, dict) else enumerate(doc) if isinstance(doc, list) else ()
    for k, v in items:
        p = f"{pre}/{k}"
        out.append(p)
        out += paths(v, p)
    return out


def exact(v) -> bool:
    """Values that `test` compares without loss: no text that reads as a number, no blocks, no empty collections."""
    if isinstance(v, dict):
        return bool(v) and all(exact(x) for x in v.values())
    if isinstance(v, list):
        return bool(v) and all(exact(x) for x in v)
    if isinstance(v, str):
        if "\n" in v or "{{" in v or "<<" in v:
            return False
        try:
            return isinstance(yaml.safe_load(v), (str, bool, list, dict, type(None)))
        except (yaml.YAMLError, ValueError):
            return True
    return isinstance(v, (bool, type(None)))


BAD_PATHS = ["nope", "nope/x", "package/name", "//", "/build//", "/nope/x/y", "/build/number/x", "/package/-1", "/source/1.5", "/build/\u00b2", "/source/\u00b2", "/a//b", "/package/name/0", "/build/-", "/package/x/-", " /build", "/ build/x/y"]


INDEX_LIKE = ["/build/\u00b2", "/source/\u00b2", "/about/\u0663", "/package/0", "/source/00"]


def nearby(ps, near):
    """The locations around one: itself, its siblings, what it holds and what holds it."""
    up = near.rsplit("/", 1)[0]
    return [p for p in ps if p == near or p.startswith(near + "/") or near.startswith(p + "/") or p.rsplit("/", 1)[0] == up]


def drain(rng, doc, where=None):
    """Operations that remove every member of one collection, one after the other. :returns: (its path, operations)"""
    ps = [p for p in paths(doc) if isinstance(c := _get(doc, split(p)), (dict, list)) and 0 < len(c) <= 4 and not p.startswith(("/context", "/schema_version"))]
    if where:
        ps = [p for p in ps if where in p] or ps
    if not ps:
        return "", []
    p = rng.choice([q for q in ps if q.rsplit("/", 1)[1].isdecimal()] or ps) if rng.random() < 0.5 else rng.choice(ps)
    c = _get(doc, split(p))
    if isinstance(c, dict):
        return p, [{"op": "remove", "path": f"{p}/{k}"} for k in rng.sample(list(c), len(c))]
    return p, [{"op": "remove", "path": f"{p}/{rng.choice([0, n])}"} for n in range(len(c) - 1, -1, -1)]


def some_path(rng, doc, near=""):
    ps = paths(doc)
    p = rng.choice(ps)
    if near and rng.random() < 0.35:
        p = rng.choice(nearby(ps, near) or ps)
    r = rng.random()
    if r < 0.14:
        return p + "/" + key(rng, rng.randrange(3))
    if r < 0.2:
        return p + "/-"
    if r < 0.24:
        return p + "/" + str(rng.choice([0, 1, 2, 7]))
    if r < 0.3:
        return rng.choice(BAD_PATHS if rng.random() < 0.5 else INDEX_LIKE)
    return p


def operation(rng, doc, value_fn=value, near=""):
    """A seeded patch operation that mostly applies to the document, often close to the place of an earlier one."""
    kind = rng.choice(["add", "add", "add", "remove", "replace", "replace", "move", "copy", "test"])
    op = {"op": kind, "path": some_path(rng, doc, near)}
    if op["path"].endswith(("/-1", "/1.5")) and kind in ("add", "move", "copy"):
        op["path"] = "/nope/x/-1"  # keys that read as numbers are outside the domain
    if kind in ("add", "replace"):
        op["value"] = value_fn(rng)
    if kind == "test":
        op["value"] = rng.choice(["no such value", {"no": "such"}, ["x9"]])
        if rng.random() < 0.7:
            try:
                v = _get(doc, split(op["path"]))
                if exact(v):
                    op["value"] = copy.deepcopy(v)
                    if isinstance(v, dict) and rng.random() < 0.5:
                        op["value"] = dict(rng.sample(list(v.items()), len(v)))
                if (v is None or isinstance(v, (bool, dict, list))) and rng.random() < 0.2:
                    op["value"] = str(v)
            except Refused:
                pass
    if kind in ("move", "copy"):
        op["from"] = some_path(rng, doc, near)
        if op["from"] == op["path"]:
            op["op"] = "copy"
    return op


def top_level_only(op) -> bool:
    return op["path"].count("/") == 1
