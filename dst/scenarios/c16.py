"""C16: histories of applicable and failing edits; a failing edit leaves no trace, flags and diffs tell the truth."""

import random

from dst import docs as D, session as S

COUNTS = {"quick": 1300, "thorough": 36000}
RULE = (
    "One run = one seeded recipe (V0 or V1) and 3-14 seeded edits of which about half cannot be applied (unknown paths, bad indices, "
    "malformed patches, selectors, comments, failing tests, impossible moves, unknown dependencies), with process restarts in between. After every "
    "failing edit everything the readers answer, the modification flag and the diff are as before; the flag is set iff something was edited; "
    "the diff turns the original text into the current one. Distinct by (interleaving, outcome)."
)
REAL = ["RecipeParserDeps (all edits, all readers)", "JSON schema validation", "diff"]
STUB = ["conda MatchSpec stand-in"]
ASSUMPTIONS = ["failing: the call raised a documented exception or returned False (a search-and-patch that stops half way is not one edit)", *[
    "the schema version of a recipe is not edited; keys do not read as numbers; V1 variables are one-line scalars that do not refer to variables"]]


def _break(rng, e, doc):
    """Turns an edit into one that cannot be applied."""
    e = dict(e)
    if e["k"] == "patch":
        op = dict(e["op"])
        k = rng.randrange(7)
        if k == 0:
            op["path"] = rng.choice(D.BAD_PATHS)
        elif k == 1 and isinstance(op.get("path"), str):
            op["path"] += rng.choice(["/x/y", "/-/-", "/99/x", "/nope/0"])
        elif k == 2:
            op.pop(rng.choice(sorted(op) or ["op"]), None)
        elif k == 3:
            ps = D.paths(doc)
            deep = [p for p in ps if p.count("/") > 2 and not p.startswith("/context")] or ps
            t = rng.choice(deep)
            op = {"op": "move", "from": t.rsplit("/", 1)[0], "path": t}
        elif k == 4:
            op = {"op": rng.choice(["move", "copy"]), "from": rng.choice(D.paths(doc)), "path": rng.choice(D.BAD_PATHS)}
        elif k == 5:
            op = {"op": rng.choice(["move", "copy"]), "from": rng.choice(D.BAD_PATHS), "path": rng.choice(D.paths(doc))}
        else:
            op = {"op": "test", "path": rng.choice(D.paths(doc)), "value": rng.choice(["never", {"a": "never"}, ["never"]])}
        e["op"] = op
    elif e["k"] == "addsel":
        e["sel"] = rng.choice(S.BAD_SELECTORS)
    elif e["k"] == "comment":
        e["text"] = rng.choice(S.BAD_COMMENTS)
    elif e["k"] in ("remsel", "remdep", "adddep"):
        e["path"] = rng.choice(["/nope", "/requirements/nope/0", "/requirements/run/x", "requirements/run/0", "/outputs/99/requirements/run/0", "/requirements/run/99/0", "/package/name"])
    return e


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema)
    doc = D.load(text)
    ops = []
    n = rng.choice([3, 5, 8, 14])
    near = ""
    while len(ops) < n:
        if rng.random() < 0.06:
            ops.append({"k": "reload"})
            continue
        if rng.random() < 0.03:
            near, more = D.drain(rng, doc)
            for op in more:
                ops.append({"k": "patch", "op": op})
                doc = S.follow(doc, ops[-1])
        e = S.edit(rng, doc, schema, 0.3, near)
        if rng.random() < 0.45:
            e = _break(rng, e, doc)
        e = S.usable(e, schema)
        if e is None:
            continue
        ops.append(e)
        doc = S.follow(doc, e)
        near = S.place(e)
    return {"text": text, "ops": ops}


def shrink(plan):
    return iter(())


def patched(old: list[str], diff: str) -> list[str]:
    """The lines that a unified diff turns `old` into. Blank lines after the header lines do not count."""
    out, at = [], 0
    for line in diff.split("\n"):
        if line.startswith(("--- ", "+++ ")) and at == 0 and not out or line == "":
            continue
        if line.startswith("@@"):
            start, _, count = line.split()[1][1:].partition(",")
            begin = int(start) - (1 if (count or "1") != "0" else 0)
            if begin < at:
                raise ValueError(f"hunks overlap: {line}")
            out += old[at:begin]
            at = begin
        elif line[0] == "+":
            out.append(line[1:])
        elif line[0] in "- ":
            if at >= len(old) or old[at] != line[1:]:
                raise ValueError(f"diff line {line!r} is not in the original at line {at + 1}")
            if line[0] == " ":
                out.append(old[at])
            at += 1
        else:
            raise ValueError(f"not a diff line: {line!r}")
    return out + old[at:]


def run(plan, sim, env):
    text = plan["text"]
    p = S.parser(text)
    env.check(p.is_modified() is False, "modified-flag", "a freshly loaded recipe is reported as modified")
    env.check(p.diff() == "", "diff", f"a freshly loaded recipe has the diff {p.diff()!r}")
    refused = applied = 0
    outcome = []
    for n, e in enumerate(plan["ops"]):
        sim.log("edit", e["k"])
        if e["k"] == "reload":
            text = p.render()
            p = S.parser(text)
            env.check(p.is_modified() is False and p.diff() == "", "modified-flag", f"step {n}: a freshly loaded recipe is reported as modified")
            continue
        before, flag, diff = S.record(p), p.is_modified(), p.diff()
        r = S.perform(p, e)
        where = f"step {n} {e} reported {r}"
        void = (e["k"] == "remsel" and r == ["ok", None]) or (e["k"] == "delvar" and f"has {e['var']}" not in before) or (e["k"] == "patch" and e["op"].get("op") == "test")
        outcome.append(f"{e['k']}{r[0][0]}{int(bool(r[1] is not False))}{int(void)}")
        if void or (not S.took_effect(r) and not (e["k"] == "search" and r[0] == "ok")):
            refused += 1
            d = S.differs(before, S.record(p))
            env.check(not d, "trace", f"{where}, but it left a trace; {d}")
            env.check(p.is_modified() == flag, "modified-flag", f"{where}, but is_modified went from {flag} to {p.is_modified()}")
            env.check(p.diff() == diff, "diff", f"{where}, but the diff changed")
            continue
        applied += 1
        now = p.render()
        if now != before["render"]:
            env.check(p.is_modified(), "modified-flag", f"{where} and changed the text, but is_modified is false")
        env.check(p.is_modified() or not flag, "modified-flag", f"{where} and cleared is_modified")
        if p.is_modified():
            try:
                got = patched(text.splitlines(), p.diff())
            except ValueError as x:
                env.check(False, "diff", f"{where}: the diff does not apply to the original: {x}")
            env.check(got == now.splitlines(), "diff", f"{where}: the diff does not lead from the original to the current text")
    env.nontrivial = refused > 0
    env.note(outcome)
    env.sample = f"{applied} applied, {refused} refused"
