"""C31: histories of edits with restarts; every selector, comment and variable is what the last edit of it made it."""

import json
import os
import random
import re

from dst import docs as D, session as S

COUNTS = {"quick": 1100, "thorough": 30000}
RULE = (
    "One run = one seeded recipe (V0 or V1, many selectors and comments) and 3-14 seeded edits (selectors, comments, variables, patches that insert and remove list "
    "members, searches), through the library or through `crm patch` under disk faults and crashes, with process restarts from the saved text at "
    "seeded points. After every step a model says which selector, comment and value every place and variable has. Distinct by (interleaving, outcome)."
)
REAL = ["RecipeParser edits of selectors, comments, variables and values", "parser and renderer", "crm patch CLI and its write path"]
STUB = ["disk fault engine"]
ASSUMPTIONS = [
    "merging with an existing selector, or replacing one, may drop the text behind it (pinned by the tests); `replace`, `move` and `search_and_patch` may drop what stood on the lines they write",
    "the schema version of a recipe is not edited; keys do not read as numbers; V1 variables are one-line scalars that do not refer to variables",
]
KINDS = ("patch", "setvar", "delvar", "addsel", "remsel", "comment", "search")


def listop(rng, doc):
    """A patch that shifts the members of a list."""
    ls = [p for p in D.paths(doc) if isinstance(D._get(doc, D.split(p)), list) and D._get(doc, D.split(p)) and not p.startswith("/context")]
    if not ls:
        return None
    p = rng.choice(ls)
    n = len(D._get(doc, D.split(p)))
    k = rng.randrange(4)
    if k == 0:
        return {"op": "remove", "path": f"{p}/{rng.randrange(n)}"}
    if k == 1:
        return {"op": "add", "path": f"{p}/{rng.randrange(n)}", "value": D.scalar(rng)}
    if k == 2:
        return {"op": "add", "path": f"{p}/-", "value": rng.choice([D.word(rng), {"aa": D.word(rng), "bb": 1}])}
    q = rng.choice(ls)
    m = len(D._get(doc, D.split(q)))
    return {"op": rng.choice(["move", "copy"]), "from": f"{p}/{rng.randrange(n)}", "path": f"{q}/{rng.randrange(m)}"}


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema, rng.choice([0.25, 0.5, 0.7]))
    doc = D.load(text)
    ops, near = [], ""
    n = rng.choice([3, 5, 8, 14])
    while len(ops) < n:
        op = listop(rng, doc) if rng.random() < 0.25 else None
        e = S.usable({"k": "patch", "op": op} if op else S.edit(rng, doc, schema, 0.08, near), schema)
        if e is None or e["k"] not in KINDS:
            continue
        o = {"e": e}
        if rng.random() < 0.2:
            o["do"] = "restart"
        elif e["k"] == "patch" and rng.random() < 0.15:
            o["cli"] = rng.choice([None, None, {"op": "*mut", "glob": "work/*", "nth": rng.choice([1, 2, 3, 4]), "kind": rng.choice(["eio", "enospc", "crash", "crash-after"])}])
        ops.append(o)
        doc = S.follow(doc, e)
        near = S.place(e)
    return {"text": text, "ops": ops}


def shrink(plan):
    for j, o in enumerate(plan["ops"]):
        for k in ("do", "cli"):
            if k in o:
                yield {**plan, "ops": plan["ops"][:j] + [{x: v for x, v in o.items() if x != k}] + plan["ops"][j + 1:]}


# -- what the recipe says, as the model sees it


def bare(comment):
    """A comment without its marker."""
    return None if comment is None else comment.strip().removeprefix("#").strip() or None


def members(doc):
    """Objects in lists: they stand on the line of their first key, where their notes are counted."""
    return {p for p in D.paths(doc) if p.rsplit("/", 1)[1].isdecimal() and isinstance(v := D._get(doc, D.split(p)), dict) and v and isinstance(D._get(doc, D.split(p)[:-1]), list)}


def notes(p):
    """path -> [selector, comment] of every line that has any, and the document."""
    doc = D.load(p.render())
    out: dict = {}
    for s in p.list_selectors():
        for q in p.get_selector_paths(s):
            out.setdefault(q, [None, None])[0] = s
    for q, c in p.get_comments_table().items():
        out.setdefault(q, [None, None])[1] = bare(c)
    for q in members(doc):
        out.pop(q, None)
    return out, doc


def line_of(doc, path):
    """The place whose line a path is on."""
    while True:
        try:
            v = D._get(doc, D.split(path))
            up = D._get(doc, D.split(path)[:-1])
        except D.Refused:
            return path
        if isinstance(up, list) and isinstance(v, dict) and v:
            path = f"{path}/{next(iter(v))}"
        else:
            return path


def remarks(text):
    """Lines that are comments only, and are not inside blocks of text."""
    out, block = [], None
    for ln in text.split("\n"):
        depth = len(ln) - len(ln.lstrip())
        if block is not None and (not ln.strip() or depth > block):
            continue
        block = None
        if ln.lstrip().startswith("#"):
            out.append(ln.strip())
        elif re.search(r":\s+[|>][+-]?\s*(#.*)?$", ln):
            block = depth + (2 if ln.lstrip().startswith("- ") else 0)
    return sorted(out)


def shift(path, at, by):
    """Where a path is after the list member at `at` was inserted (by=1) or removed (by=-1). :returns: None if it is gone."""
    up, k = at.rsplit("/", 1)
    if not path.startswith(up + "/"):
        return path
    head, _, rest = path[len(up) + 1:].partition("/")
    if not head.isdecimal() or int(head) < int(k):
        return path
    if by < 0 and int(head) == int(k):
        return None
    return f"{up}/{int(head) + by}" + ("/" + rest if rest else "")


def under(path, top):
    return path == top or path.startswith(top + "/")


def moved(doc, op):
    """How a patch that applied moves places. :returns: (function path -> path or None, places whose lines may have been rewritten)"""
    kind, at = op["op"], op["path"]
    if kind == "test":
        return (lambda q: q), []

    def listed(d, path):
        try:
            return isinstance(D._get(d, D.split(path)[:-1]), list)
        except D.Refused:
            return False

    def removal(d, path):
        if listed(d, path):
            return lambda q: shift(q, path, -1)
        return lambda q: None if under(q, path) else q

    if kind == "remove":
        return removal(doc, at), []
    if kind == "replace":
        return (lambda q: q), [at]
    steps, d = [], doc
    if kind == "move":
        if op["from"] == at:
            return (lambda q: q), [at]
        steps.append(removal(d, op["from"]))
        d = D.apply(d, {"op": "remove", "path": op["from"]})
    new = at
    if at.endswith("/-"):
        try:
            got = D._get(d, D.split(at)[:-1])
        except D.Refused:
            got = None
        new = f"{at[:-1]}{len(got) if isinstance(got, list) else 0}"
    elif listed(d, at):
        steps.append(lambda q: shift(q, at, 1))

    def go(q):
        for f in steps:
            if q is not None:
                q = f(q)
        return q
    return go, [new]


class Model:
    """Which notes and variables the recipe has, according to the edits made."""

    def __init__(self, p):
        self.notes, self.doc = notes(p)
        self.vars = {v: p.get_variable(v) for v in p.list_variables()}
        self.remarks = remarks(p.render())


def others(doc, var):
    """The values of a recipe but for one variable."""
    d = D.norm(doc)
    c = d.get("context")
    if isinstance(c, dict):
        c.pop(var, None)
    if not c:
        d.pop("context", None)
    return d


def fair(doc, e):
    """Whether an edit of notes is one that has to be accepted."""
    try:
        D._get(doc, D.split(e["path"] if "path" in e else "//"))
    except D.Refused:
        return False
    if e["k"] == "addsel":
        return e["sel"] not in S.BAD_SELECTORS
    return e["k"] == "remsel" or e["k"] == "comment" and bool(e["text"].strip()) and e["text"] not in S.BAD_COMMENTS


def var_same(a, b):
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def run(plan, sim, env):
    path = env.put("work/recipe.yaml", plan["text"])
    fs = env.disk()
    p = S.parser(plan["text"])
    v1 = "schema_version: 1" in plan["text"]
    outcome = []
    applied = 0

    def check(want, where, got, loose=(), whole=False):
        """Compares with the model. `loose`: places that may have lost their notes; `whole`: lines that are comments may be gone."""
        for q in sorted(set(want) | set(got.notes)):
            a, b = want.get(q, [None, None]), got.notes.get(q, [None, None])
            if any(under(q, x) for x in loose):
                continue
            env.check(a[0] == b[0] or isinstance(a[0], set) and b[0] in a[0], "selector", f"{where}: the selector at {q} is {b[0]!r}, expected {a[0]!r}")
            env.check(a[1] == b[1] or isinstance(a[1], set) and b[1] in a[1], "comment", f"{where}: the comment at {q} is {b[1]!r}, expected {a[1]!r}")
        for n, m in enumerate(got.remarks):
            env.check(got.remarks.count(m) <= was.remarks.count(m), "remark", f"{where}: the comment line {m!r} appeared")
        if not whole:
            env.check(got.remarks == was.remarks, "remark", f"{where}: comment lines {was.remarks} became {got.remarks}")

    def check_vars(want, got, where):
        env.check(sorted(want) == sorted(got.vars), "variables", f"{where}: the variables are {sorted(got.vars)}, expected {sorted(want)}")
        for v in want:
            env.check(var_same(want[v], got.vars[v]), "variable", f"{where}: variable {v} is {got.vars[v]!r}, expected {want[v]!r}")

    for n, o in enumerate(plan["ops"]):
        e = o["e"]
        where = f"step {n} {e}"
        was = Model(p)
        if "cli" in o and e["k"] == "patch":
            env.put("work/recipe.yaml", p.render())
            env.put("patch.json", json.dumps(e["op"]))
            env.reboot()
            fs.faults[:] = [{**o["cli"], "fired": 0, "seen": 0}] if o["cli"] else []
            old = p.render()
            res = env.cli(["patch", os.path.join(env.root, "patch.json"), path])
            env.reboot()
            text = env.get("work/recipe.yaml").decode()
            if o["cli"] and (res.crashed or res.code == 5) and text == old:
                sim.log("again")
                res = env.cli(["patch", os.path.join(env.root, "patch.json"), path])
                text = env.get("work/recipe.yaml").decode()
            r = ["ok", text != old] if text == old or res.code in (0, None) or res.crashed else ["refused", res.code]
            if not res.crashed and res.code == 0:
                r = ["ok", True]
            p = S.parser(text)
            outcome.append("cli")
        else:
            r = S.perform(p, e)
        if o.get("do") == "restart":
            sim.log("restart")
            env.put("work/recipe.yaml", p.render())
            p = S.parser(env.get("work/recipe.yaml").decode())
        now = Model(p)
        outcome.append(f"{e['k']}{r[0][0]}{int(r[1] is not False)}")
        want = {q: list(x) for q, x in was.notes.items()}
        where += f" reported {r}"
        env.check(r[0] == "ok" or not fair(was.doc, e), "refused", f"{where}: refused, although the place is there and the edit is well formed")
        if not S.took_effect(r) and e["k"] != "search":
            check(want, where, now)
            check_vars(was.vars, now, where)
            continue
        applied += 1
        vs = dict(was.vars)
        if e["k"] in ("addsel", "remsel", "comment"):
            q = line_of(was.doc, e["path"])
            env.check(D.norm(now.doc) == D.norm(was.doc), "values", f"{where}: the values of the recipe changed")
            sel, com = want.get(q, [None, None])
            if e["k"] == "addsel":
                if e["mode"] == "REPLACE" or sel is None:
                    new = e["sel"]
                else:
                    new = f"[{sel[1:-1]} {e['mode'].lower()} {e['sel'][1:-1]}]"
                want[q] = [new, com if sel is None else {com, None}]
            elif e["k"] == "remsel":
                env.check(r[1] == sel, "removed-selector", f"{where}: the selector there was {sel!r}")
                want[q] = [None, com]
            else:
                want[q] = [sel, bare(e["text"])]
            check(want, where, now)
        elif e["k"] in ("setvar", "delvar"):
            at = f"/context/{e['var']}"
            if e["k"] == "setvar":
                vs[e["var"]] = e["value"]
            else:
                vs.pop(e["var"], None)
                want = {q: x for q, x in want.items() if not v1 or not under(q, at)}
            check(want, where, now, [at] if v1 and e["k"] == "setvar" else [])
            rest = [others(m.doc, e["var"] if v1 else "") for m in (was, now)]
            env.check(rest[0] == rest[1], "values", f"{where}: other values of the recipe changed")
        elif e["k"] == "search":
            hit = [q for q in was.notes if q in now.notes or q not in now.notes]
            changed = [q for q in D.paths(was.doc) if not same_at(was.doc, now.doc, q)]
            env.check(all(isinstance(D._get(was.doc, D.split(q)), (dict, list)) or matches(e, was, q) for q in changed), "values", f"{where}: values that do not match changed: {changed}")
            loose = [q for q in hit if q in changed or matches(e, was, q)]
            check(want, where, now, loose)
            if v1:
                vs = None
        else:
            op = {k: re.sub(r"/0+(?=\d+(/|$))", "/", v) if k in ("path", "from") else v for k, v in e["op"].items()}
            try:
                go, loose = moved(was.doc, op)
            except D.Refused:
                env.check(False, "applied", f"{where}: applied, although the path does not exist")
            want = {line_of(now.doc, go(q)): x for q, x in want.items() if go(q) is not None}
            loose = [line_of(now.doc, x) for x in loose] + loose
            check(want, where, now, loose, whole=op["op"] in ("remove", "replace", "move") or op["op"] != "test" and op["path"] in D.paths(was.doc))
            if v1 and any((op.get(k, "") + "/").startswith("/context/") for k in ("path", "from")):
                vs = None
        if vs is not None and not (v1 and isinstance(was.doc.get("context"), (str, list))):
            check_vars(vs, now, where)
    env.note(outcome, p.calc_sha256()[:8])
    env.nontrivial = applied > 0
    env.sample = f"{applied} of {len(plan['ops'])} edits applied"


def same_at(a, b, q):
    try:
        return D.norm(D._get(a, D.split(q))) == D.norm(D._get(b, D.split(q)))
    except D.Refused:
        return False


def matches(e, was, q):
    """Whether a search could have matched a place: its value or its notes contain what the expression needs."""
    try:
        v = D._get(was.doc, D.split(q))
    except D.Refused:
        return True
    if isinstance(v, (dict, list)) and v:
        return True
    note = was.notes.get(q, [None, None])
    text = json.dumps(v, ensure_ascii=False) + "\n" + str(v) + "\n" + " ".join(str(x) for x in note if x) + str(v).lower()
    return bool(re.search(e["re"].strip("^$"), text)) or "<<" in text or v is None or isinstance(v, str) and "\n" in v
