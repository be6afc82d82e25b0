"""C15: one editing session without restarts against one that is saved, killed and restarted from its durable text all along."""

import json
import os
import random

from dst import docs as D, session as S

COUNTS = {"quick": 900, "thorough": 26000}
RULE = (
    "One run = one seeded recipe (V0 or V1) and 2-10 seeded edits of every kind (patches, variables, selectors, comments, searches, "
    "dependencies, failing ones included). Session A runs them without a restart. Session B is saved, killed and restarted from its durable text at seeded "
    "points, loses seeded saves (and repeats the edits since the last durable one), and makes some patches through `crm patch` under "
    "disk faults. Results, text and all readers' answers are compared. Distinct by (interleaving, outcome)."
)
REAL = ["RecipeParserDeps (all edits, all readers)", "parser and renderer", "crm patch CLI and its write path"]
STUB = ["disk fault engine", "conda MatchSpec stand-in"]
ASSUMPTIONS = [
    "the schema version of a recipe is not edited; keys do not read as numbers; V1 variables are one-line scalars that do not refer to "
    "variables; values are JSON data without lists directly inside lists",
]


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema, rng.choice([0.1, 0.25, 0.25, 0.5]))
    doc = D.load(text)
    ops = []
    for e in S.edits(rng, doc, schema, rng.choice([2, 3, 5, 7, 10])):
        o = {"e": e}
        r = rng.random()
        if r < 0.25:
            o["do"] = "restart"
        elif r < 0.4:
            o["do"] = "lost"
        elif r < 0.6:
            o["do"] = "save"
        if e["k"] == "patch" and rng.random() < 0.2:
            o["cli"] = rng.choice([None, None, {"op": "*mut", "glob": "work/*", "nth": rng.choice([1, 2, 3, 4]), "kind": rng.choice(["eio", "enospc", "crash", "crash-after"])},
                                   {"op": "read", "glob": "*.yaml", "nth": 1, "kind": "eio"}])
        ops.append(o)
    return {"text": text, "ops": ops}


def shrink(plan):
    for j, o in enumerate(plan["ops"]):
        for k in ("do", "cli"):
            if k in o:
                yield {**plan, "ops": plan["ops"][:j] + [{x: v for x, v in o.items() if x != k}] + plan["ops"][j + 1:]}


LIGHT = ("render", "paths", "vars", "selectors", "comments")


def compare(env, a, b, where, light=False):
    ra = {n: f() for n, f in S.readers(a) if not light or n in LIGHT}
    rb = {n: f() for n, f in S.readers(b) if not light or n in LIGHT}
    d = S.differs(ra, rb)
    env.check(not d, d.split(" ")[0].rstrip(":"), f"{where}: the session without restarts and the restarted one disagree; {d}")


def run(plan, sim, env):
    path = env.put("work/recipe.yaml", plan["text"])
    fs = env.disk()
    a = S.parser(plan["text"])
    b = S.parser(plan["text"])
    durable, since = plan["text"], []
    outcome = []

    def restart(where):
        """A new process: only the durable text survives, later edits are made again."""
        nonlocal b
        sim.log("restart")
        b = S.parser(env.get("work/recipe.yaml").decode())
        for e in since:
            S.perform(b, e)
        compare(env, a, b, where)

    for n, o in enumerate(plan["ops"]):
        e = o["e"]
        where = f"step {n} {e}"
        ra = S.perform(a, e)
        if "cli" in o:
            env.put("work/recipe.yaml", b.render())
            durable, since = b.render(), []
            env.put("patch.json", json.dumps(e["op"]))
            env.reboot()
            fs.faults[:] = [{**o["cli"], "fired": 0, "seen": 0}] if o["cli"] else []
            res = env.cli(["patch", os.path.join(env.root, "patch.json"), path])
            env.reboot()
            text = env.get("work/recipe.yaml").decode()
            if o["cli"] and (res.crashed or res.code == 5):
                env.check(text in (durable, a.render()), "torn", f"{where}: after a fault the file holds neither the old nor the new text")
                if text == durable:
                    res = env.cli(["patch", os.path.join(env.root, "patch.json"), path])
                    text = env.get("work/recipe.yaml").decode()
                else:
                    res = None
            if res is not None:
                env.check(res.exc is None, "traceback", f"{where}: {res.tail()}")
                want = 4 if ra[0] == "refused" else 0 if ra[1] else 106
                env.check(res.code == want, "cli-status", f"{where}: the library reported {ra}, `crm patch` exited with {res.code}")
            durable = text
            outcome.append("cli")
            restart(where)
            continue
        rb = S.perform(b, e)
        since.append(e)
        env.check(ra == rb, "result", f"{where}: the session without restarts reports {ra}, the restarted one {rb}")
        outcome.append(f"{e['k']}{ra[0]}{ra[1] if not isinstance(ra[1], str) else ''}")
        do = o.get("do")
        if do in ("save", "restart"):
            durable, since = b.render(), []
            env.put("work/recipe.yaml", durable)
            sim.log("save")
        if do in ("restart", "lost"):
            restart(where)
        else:
            compare(env, a, b, where, light=True)
    env.put("work/recipe.yaml", a.render())
    since = []
    restart("at the end")
    env.note(outcome, a.calc_sha256()[:8])
    env.nontrivial = any(x != "refused" for x in outcome)
    env.sample = f"{len(plan['ops'])} edits"
