"""C14: histories of `crm patch` runs with restarts, malformed patches and disk faults against a model of JSON patch on plain values."""

import json
import os
import random

import yaml

from dst import docs as D

COUNTS = {"quick": 2600, "thorough": 70000}
RULE = (
    "One run = one seeded recipe (V0 or V1, 1-3 levels of nesting, comments, selectors, blocks, awkward strings) and 1-5 invocations of "
    "`crm patch`, each a new process with a patch file of 0-7 operations (applicable, impossible, failing tests, malformed, not JSON), some on an unusable recipe, some "
    "with a disk fault or crash; after each one exit status and all values of the file equal the model's. Distinct by (interleaving, outcome)."
)
REAL = ["crm patch CLI", "RecipeParser.patch", "parser and renderer", "jsonschema validation"]
STUB = ["disk fault engine", "clock"]
ASSUMPTIONS = [
    "Scalars are compared by their text (YAML numbers keep their spelling); an emptied collection is an empty key; lists directly inside "
    "lists, the document root as a target, and keys that need quoting are outside the domain.",
]

MALFORMED = [
    {"op": "add", "path": "/build/x"}, {"op": "replace", "path": "/build/number"}, {"op": "frobnicate", "path": "/build/number", "value": 1}, {"path": "/build/number", "value": 1},
    {"op": "add", "value": 1}, {"op": "add", "path": "", "value": 1}, {"op": "add", "path": 5, "value": 1}, {"op": "move", "path": "/a"}, {"op": "copy", "path": "/a", "from": 7},
    {"op": "test", "path": "/build/number"}, {}, [], 5, "remove /build", None, True, {"op": None, "path": "/build"}, {"op": ["add"], "path": "/build", "value": 1},
]
NOT_JSON = ["", "{", "[1,", "not json", "op: add", "\ufeff[]x", "[{'op': 'remove'}]", None]
UNPARSABLE = ["foo: [unclosed\n", "a: b: c\n", "build:\n  number: *missing\n", "package:\n  name: @x\n", "package:\n  name: 'x' y\n", "build:\n  a: }\n", "build:\n  a: `x`\n"]
FAULTS = ["eio", "eacces", "enospc", "erofs"]


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema)
    doc = D.load(text)
    runs = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        k = rng.random()
        if k < 0.05:
            runs.append({"raw": rng.choice(NOT_JSON)})
            continue
        if k < 0.09:
            # The recipe is broken for this one run.
            runs.append({"bad": rng.choice([*UNPARSABLE, None]), "ops": [{"op": "add", "path": "/build/number", "value": 1}], "single": rng.random() < 0.5})
            continue
        ops = []
        cur = doc
        near = ""
        if rng.random() < 0.06:
            near, ops = D.drain(rng, cur)
            for op in ops:
                cur = D.apply(cur, op)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 7])):
            if rng.random() < 0.05:
                ops.append(rng.choice(MALFORMED))
                break
            op = D.operation(rng, cur, near=near)
            if D.top_level_only(op) and op["op"] in ("remove", "move") and rng.random() < 0.7:
                continue
            ops.append(op)
            near = op["path"]
            try:
                cur = D.apply(cur, op)
            except D.Refused:
                if rng.random() < 0.6:
                    ops.pop()
                else:
                    break
        r = {"ops": ops, "single": len(ops) == 1 and isinstance(ops[0], dict) and rng.random() < 0.5}
        if rng.random() < 0.18:
            r["fault"] = rng.choice([
                {"op": "read", "glob": "*recipe.yaml", "nth": 1, "kind": "eio"}, {"op": "open-r", "glob": "*recipe.yaml", "nth": 1, "kind": "eacces"},
                {"op": "open-r", "glob": "*patch*.json", "nth": 1, "kind": "eacces"}, {"op": "read", "glob": "*patch*.json", "nth": 1, "kind": "eio"},
                {"op": "*mut", "glob": "work/*", "nth": rng.choice([1, 1, 2, 3, 4, 5]), "kind": rng.choice(FAULTS)},
                {"op": "*mut", "glob": "work/*", "nth": rng.choice([1, 2, 3, 4, 5]), "kind": rng.choice(["crash", "crash-after"])},
            ])
        else:
            doc = cur
        runs.append(r)
    return {"text": text, "ops": runs, "short_io": rng.randrange(1 << 30) if rng.random() < 0.2 else None}


def shrink(plan):
    for j, r in enumerate(plan["ops"]):
        if r.get("fault") and "bad" not in r:
            yield {**plan, "ops": plan["ops"][:j] + [{k: v for k, v in r.items() if k != "fault"}] + plan["ops"][j + 1:]}
        for n in range(len(r.get("ops", []))):
            yield {**plan, "ops": plan["ops"][:j] + [{**r, "ops": r["ops"][:n] + r["ops"][n + 1:], "single": False}] + plan["ops"][j + 1:]}


def wellformed(op):
    from dst.scenarios import c14

    return op not in c14.MALFORMED


def expect(doc, ops):
    for op in ops:
        if not wellformed(op):
            return doc, 4
        try:
            doc = D.apply(doc, op)
        except D.Refused:
            return doc, 106
    return doc, 0


def run(plan, sim, env):
    path = env.put("work/recipe.yaml", plan["text"])
    fs = env.disk()
    doc = D.load(plan["text"])
    codes = []
    for n, r in enumerate(plan["ops"]):
        raw = r["raw"] if "raw" in r else json.dumps(r["ops"][0] if r["single"] and len(r["ops"]) == 1 else r["ops"])
        env.put(f"patch{n}.json", b'[{"op": "remove", "path": "/build/caf\xe9"}]' if raw is None else raw)
        before = env.get("work/recipe.yaml")
        if "bad" in r:
            broken = b"package:\n  name: caf\xe9\n" if r["bad"] is None else r["bad"].encode()
            env.reboot()
            env.put("work/recipe.yaml", broken)
            res = env.cli(["patch", os.path.join(env.root, f"patch{n}.json"), path])
            env.check(res.exc is None, "traceback", f"run {n} on {broken!r}: raised {res.exc_name}: {res.exc}")
            want = 5 if r["bad"] is None else 102
            env.check(res.code == want, "exit-status", f"run {n} on the unusable recipe {broken!r}: exit {res.code}, expected {want}")
            env.check(env.get("work/recipe.yaml") == broken, "failed-run-changed-file", f"run {n}: exit {res.code} but the unusable recipe changed")
            env.put("work/recipe.yaml", before)
            codes.append(res.code)
            continue
        if "raw" in r:
            new, code = doc, 4
        else:
            new, code = expect(doc, r["ops"])
        short = fs.short
        env.reboot()
        fs.short = short
        fs.faults[:] = [{**r["fault"], "fired": 0, "seen": 0}] if r.get("fault") else []
        res = env.cli(["patch", os.path.join(env.root, f"patch{n}.json"), path])
        fired = sum(f["fired"] for f in fs.faults)
        fault = r.get("fault") if fired else None
        fs.faults[:] = []
        after = env.get("work/recipe.yaml")
        ops = r.get("ops", r.get("raw"))
        if res.crashed:
            env.check(fault is not None, "crash", "the process died without a fault")
            env.check(after is not None, "file-lost", f"the recipe is gone after a crash in run {n}")
            if after == before:
                codes.append("crash-old")
                continue
            codes.append("crash-new")
        else:
            env.check(res.exc is None, "traceback", f"run {n} {ops}: raised {res.exc_name}: {res.exc}")
            codes.append(res.code)
            if fault is not None and (fault["op"] in ("read", "open-r") or res.code == 5):
                env.check(res.code == 5, "fault-status", f"run {n} {fault}: exit {res.code}, expected 5 (I/O error)")
                env.check(after == before, "failed-run-changed-file", f"run {n} {fault}: exit 5 but the recipe changed")
                continue
            env.check(res.code == code, "exit-status", f"run {n}: exit {res.code}, expected {code}; operations {ops} on {D.norm(doc)}; {res.tail()}")
            if "raw" in r:
                env.check(after == before, "failed-run-changed-file", f"run {n}: not JSON, but the recipe changed")
                continue
        try:
            got = D.norm(D.load(after.decode()))
        except (yaml.YAMLError, ValueError) as e:
            env.check(False, "unreadable-result", f"run {n} {ops}: the recipe is no longer readable YAML: {e}; {after.decode()!r}")
        want = D.norm(new)
        if got != want:
            env.check(False, "values", f"run {n}: operations {ops} on {D.norm(doc)} gave {got}, expected {want}")
        doc = new
    env.nontrivial = any("ops" in r and r["ops"] for r in plan["ops"])
    env.note(codes, sorted(map(str, D.paths(doc)))[:12])
    env.sample = f"{len(plan['ops'])} runs, exits {codes}"
