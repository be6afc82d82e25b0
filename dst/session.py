"""Editing sessions on one recipe through the library: a seeded generator of edits of all kinds, their execution, and a full
record of what every public reader answers."""

from __future__ import annotations

import json
import random
import re

from dst import docs as D

SELECTORS = ["[linux]", "[win]", "[unix and py<310]", "[not osx]", "[osx and arm64]", "[py==38 or (win and not arm64)]", "[cuda_compiler_version != 'None']", "[vc<14]"]
BAD_SELECTORS = ["linux", "", "[", "[linux", "# [linux]", "linux]"]
COMMENTS = ["a note", "# a note", "#tight", "see #12: 'x'", "note [x", "ünï ✓", "# two # marks", "a: b", "ends with #", "# a tail #"]
BAD_COMMENTS = ["", "   ", "[win]", "\t"]
BAD_PATCHES = [{"op": "add", "path": "/build/x"}, {"op": "frob", "path": "/build", "value": 1}, {}, {"op": "move", "path": "/a"}, {"path": "/a", "value": 1}, {"op": "add", "path": 5, "value": 1}]
VARS = ["name", "version", "v2", "new_var", "sha256"]
VALUES = ["1.2.3", "x", "", 0, 7, 1.5, "1.10", "it's", 'say "hi"', "a\\b", "a b # c", "true", "ünï", "{x}", "0x1F", "%}"[:1], "null", "two\nlines", True, "a=b"]
SPECS = ["alpha", "zstd >=1.2", "numpy 1.26.*", "openssl >=3,<4", "python", "new-dep", "rust 1.7 h1_0"]
REGEXES = ["^alpha", "zstd", "1\\.", "example", "py", "^x$", "[aeiou]"]


def any_path(rng, doc, near=""):
    ps = D.paths(doc)
    if near and rng.random() < 0.4:
        ps = D.nearby(ps, near) or ps
    if rng.random() < 0.1:
        return rng.choice(D.BAD_PATHS[4:8] + ["/nope", "/package/nope", "/source/99"])
    return rng.choice(ps)


def _var(rng, near):
    """The variable an earlier edit was about."""
    return near.split("/")[2] if re.match(r"/context/[a-z]", near) and rng.random() < 0.6 else ""


def place(e) -> str:
    """Where an edit took place."""
    w = e["op"].get("path") if e["k"] == "patch" and isinstance(e["op"], dict) else "/context/" + e["var"] if "var" in e else e.get("path")
    return w if isinstance(w, str) else ""


def edit(rng: random.Random, doc, schema: int, bad: float = 0.12, near: str = "") -> dict:
    """One seeded edit, most often one that applies."""
    k = rng.choices(["patch", "setvar", "delvar", "addsel", "remsel", "comment", "search", "adddep", "remdep", "raw"],
                    [10, 2, 2, 3 if schema == 0 else 2, 2, 3, 1, 2, 1, 10 * bad])[0]
    if k == "patch":
        return {"k": k, "op": D.operation(rng, doc, near=near)}
    if k == "raw":
        return {"k": "patch", "op": rng.choice(BAD_PATCHES)}
    if k == "setvar":
        return {"k": k, "var": _var(rng, near) or rng.choice(VARS), "value": rng.choice(VALUES)}
    if k == "delvar":
        here = [v for v in doc.get("context") or {} if v != "name"] if isinstance(doc, dict) and isinstance(doc.get("context"), dict) and rng.random() < 0.6 else []
        return {"k": k, "var": _var(rng, near) or rng.choice(here or VARS[1:] + ["nope"])}
    if k == "addsel":
        return {"k": k, "path": any_path(rng, doc, near), "sel": rng.choice(BAD_SELECTORS if rng.random() < bad else SELECTORS), "mode": rng.choice(["REPLACE", "AND", "OR"])}
    if k == "remsel":
        return {"k": k, "path": any_path(rng, doc, near)}
    if k == "comment":
        return {"k": k, "path": any_path(rng, doc, near), "text": rng.choice(BAD_COMMENTS if rng.random() < bad else COMMENTS)}
    if k == "search":
        return {"k": k, "re": rng.choice(REGEXES), "with": rng.random() < 0.3, "op": rng.choice([{"op": "replace", "value": D.scalar(rng)}, {"op": "replace", "value": "swapped"}])}
    deps = [p for p in D.paths(doc) if re.fullmatch(r"(/outputs/\d+)?/requirements/[a-z_]+/\d+", p)]
    secs = sorted({p.rsplit("/", 1)[0] for p in deps}) + ["/requirements/run", "/requirements/host"]
    if k == "remdep":
        return {"k": k, "path": rng.choice(deps or ["/requirements/run/0"]) if rng.random() < 0.85 else rng.choice(["/requirements/run/77", "/nope", "/requirements/nope/0"])}
    return {"k": k, "path": rng.choice(secs) + "/" + str(rng.choice([0, 0, 1, 2, 99])), "spec": rng.choice(SPECS), "mode": rng.choice(["REPLACE", "IGNORE", "USE_BOTH", "EXACT_POSITION"]),
            "smode": rng.choice(["REPLACE", "AND", "OR"]), "sel": rng.choice([None, None, "[linux]", "[win]"])}


ODD_KEY = re.compile(r"/(-\d+|\d+\.\d+)(/|$)")


def usable(e: dict, schema: int) -> dict | None:
    """The edit with the Jinja syntax of the schema, or None if it is outside the domain: the schema version stays as it is, no
    keys that read as numbers, variables are scalars that do not refer to variables, no variable values of several lines for V1."""
    text = json.dumps(e)
    text = re.sub(r"(?<!\$)\{\{", "${{", text) if schema == 1 else text.replace("${{", "{{")
    e = json.loads(text)
    where = [e["op"].get("path"), e["op"].get("from")] if e["k"] == "patch" and isinstance(e["op"], dict) else [e.get("path")]
    for w in where:
        if isinstance(w, str) and (w.startswith("/schema_version") or ODD_KEY.search(w)):
            return None
    if e["k"] == "patch" and isinstance(e["op"].get("path"), str) and e["op"]["path"].startswith("/context") and e["op"].get("op") != "remove":
        v = e["op"].get("value")
        if e["op"].get("op") not in ("add", "replace", "test") or isinstance(v, (dict, list)) or "{{" in str(v) or "\n" in str(v) or e["op"]["path"] == "/context":
            return None
    if e["k"] == "setvar" and schema == 1 and isinstance(e["value"], str) and "\n" in e["value"]:
        return None
    return e


def edits(rng: random.Random, doc, schema: int, n: int, bad: float = 0.12) -> list:
    out = []
    near = ""
    while len(out) < n:
        if rng.random() < 0.04:
            near, ops = D.drain(rng, doc)
            more = [{"k": "patch", "op": op} for op in ops]
        else:
            more = [edit(rng, doc, schema, bad, near)]
        for e in more:
            e = usable(e, schema)
            if e is not None:
                out.append(e)
                doc = follow(doc, e)
                near = place(e)
    return out


def follow(doc, e):
    """The document the generator continues with (patches only; it only steers the choice of paths)."""
    if e["k"] != "patch":
        return doc
    try:
        return D.apply(doc, e["op"])
    except (D.Refused, KeyError, TypeError, AttributeError):
        return doc


def parser(text: str):
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

    return RecipeParserDeps(text)


REPORTED = (KeyError, ValueError)


def perform(p, e: dict) -> list:
    """Executes an edit. :returns: What the API reported. Unreported exceptions pass through."""
    from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str
    from conda_recipe_manager.parser.enums import SelectorConflictMode
    from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.types import SchemaVersion

    k = e["k"]
    try:
        if k == "patch":
            return ["ok", p.patch(json.loads(json.dumps(e["op"])))]
        if k == "setvar":
            return ["ok", p.set_variable(e["var"], e["value"])]
        if k == "delvar":
            return ["ok", p.del_variable(e["var"])]
        if k == "addsel":
            return ["ok", p.add_selector(e["path"], e["sel"], SelectorConflictMode[e["mode"]])]
        if k == "remsel":
            return ["ok", p.remove_selector(e["path"])]
        if k == "comment":
            return ["ok", p.add_comment(e["path"], e["text"])]
        if k == "search":
            return ["ok", p.search_and_patch(e["re"], json.loads(json.dumps(e["op"])), e["with"])]
        sel = SelectorParser(e["sel"], SchemaVersion.V0) if e.get("sel") else None
        dep = Dependency("pkg", e["path"], DependencySection.RUN, dependency_data_from_str(e.get("spec", "x")), sel)
        if k == "remdep":
            return ["ok", p.remove_dependency(dep)]
        return ["ok", p.add_dependency(dep, DependencyConflictMode[e["mode"]], SelectorConflictMode[e["smode"]])]
    except JsonPatchValidationException:
        return ["refused", "JsonPatchValidationException"]
    except REPORTED as x:
        return ["refused", type(x).__name__]


def took_effect(r) -> bool:
    return r[0] == "ok" and r[1] is not False


def plain(v):
    """A value of the API, as JSON-like data."""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return repr(v)


def ask(fn, *a, **kw):
    try:
        return plain(fn(*a, **kw))
    except (KeyError, ValueError) as x:
        return f"<{type(x).__name__}>"


def dep_list(deps):
    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str

    return [[n, [[d.required_by, d.path, d.type.name, dependency_data_render_as_str(d.data), d.selector.render() if d.selector else None] for d in ds]] for n, ds in deps.items()]


def deps_of(p):
    return dep_list(p.get_all_dependencies())


def readers(p, rng_paths=()) -> list:
    """(name, function) for every public reader, over the paths the recipe has."""
    import yaml

    def safe(fn, *a, **kw):
        def go():
            try:
                return plain(fn(*a, **kw))
            except (KeyError, ValueError, yaml.YAMLError, TypeError, AttributeError, AssertionError, IndexError) as x:
                return f"<{type(x).__name__}>"
        return go

    paths = sorted(set(p.list_value_paths()))
    inner = sorted({q.rsplit("/", n)[0] for q in paths for n in range(1, q.count("/"))} - {""})
    out = [("render", safe(p.render)), ("paths", safe(p.list_value_paths)), ("object", safe(p.render_to_object)), ("object-subs", safe(p.render_to_object, True)),
           ("vars", safe(p.list_variables)), ("selectors", safe(p.list_selectors)), ("comments", safe(p.get_comments_table)), ("sha", safe(p.calc_sha256)),
           ("name", safe(p.get_recipe_name)), ("multi", safe(p.is_multi_output)), ("packages", safe(p.get_package_paths)), ("dep-paths", safe(p.get_dependency_paths)),
           ("schema", safe(lambda: int(p.get_schema_version()))), ("names", safe(p.get_package_names_to_path)), ("deps", safe(lambda: deps_of(p)))]
    for v in p.list_variables():
        out += [(f"var {v}", safe(p.get_variable, v)), (f"refs {v}", safe(p.get_variable_references, v)), (f"has {v}", safe(p.contains_variable, v))]
    for s in p.list_selectors():
        out += [(f"sel {s}", safe(p.get_selector_paths, s)), (f"hassel {s}", safe(p.contains_selector, s))]
    for q in paths + inner:
        out += [(f"value {q}", safe(p.get_value, q)), (f"subs {q}", safe(p.get_value, q, None, True)), (f"at {q}", safe(p.get_selector_at_path, q)), (f"in {q}", safe(p.contains_value, q)),
                (f"selin {q}", safe(p.contains_selector_at_path, q))]
    for r in REGEXES:
        out += [(f"search {r}", safe(p.search, r)), (f"search+ {r}", safe(p.search, r, True))]
    for v in ("alpha", 1, True, None, "1.10", 0):
        out.append((f"find {v!r}", safe(p.find_value, v)))
    return out


def record(p) -> dict:
    return {n: f() for n, f in readers(p)}


def differs(a: dict, b: dict, same=None) -> str:
    """First difference of two records, or ''."""
    same = same or (lambda n, x, y: x == y)
    for n in list(a) + [n for n in b if n not in a]:
        if n not in a or n not in b:
            return f"{n}: {'only' if n in a else 'not'} in the first: {a.get(n, b.get(n))!r}"
        if not same(n, a[n], b[n]):
            return f"{n}: {a[n]!r} != {b[n]!r}"
    return ""


def converted(c) -> list:
    """What converting to the V1 format answers."""
    from conda_recipe_manager.types import MessageCategory

    try:
        text, table, debug = c.render_to_v1_recipe_format()
    except Exception as x:  # noqa: BLE001
        return [f"<{type(x).__name__}>"]
    return [text, debug, [[m.name, list(table.get_messages(m))] for m in MessageCategory]]


# -- work done by simulated worker processes


def remote(p, edits: list):
    """Edits a recipe in a worker. :returns: The recipe, what each edit reported, and what the readers answer over there."""
    got = [perform(p, e) for e in edits]
    return p, got, record(p), [p.is_modified(), p.diff(), str(p)]


def remote_same(x):
    return x


def remote_raise(p, patch):
    p.patch(patch)


def remote_deps(p):
    try:
        return p.get_all_dependencies()
    except Exception as x:  # noqa: BLE001 - may have been patched into something that is no recipe
        return type(x).__name__


def remote_convert(text):
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

    c = RecipeParserConvert(text)
    return c, converted(c)
