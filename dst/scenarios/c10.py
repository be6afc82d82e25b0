"""C10: a bulk conversion writes, for every recipe, exactly what converting it alone in a fresh process writes."""

import json
import os
import random

from dst import convlib as C, freshconv

COUNTS = {"quick": 1100, "thorough": 25000}
RULE = (
    "One run = a seeded history of earlier conversions in the same process (single files, parser objects, renders) followed "
    "by one bulk `crm convert -o` over 2..10 recipes with a seeded number of workers, schedule, enumeration order and hash "
    "seed. Distinct by (interleaving, set of recipes)."
)
REAL = ["crm convert CLI", "RecipeParserConvert", "write path", "pickling of arguments and results"]
STUB = ["multiprocessing.Pool (in-process workers, same chunking and error semantics)", "clock", "enumeration order"]
ASSUMPTIONS = ["the reference text is what the same code writes when it converts the recipe alone, in a process of its own, with PYTHONHASHSEED=0"]


def pool_specs() -> list[dict]:
    rng = random.Random("c10-specs")
    specs = []
    for n in C.V0:
        specs.append({"kind": "ok", "base": f"corpus:{n}"})
        for _ in range(2):
            specs.append({"kind": "ok", "base": f"corpus:{n}", "twists": [[rng.choice(C.TWISTS), rng.randrange(4)] for _ in range(rng.choice([1, 2]))]})
    for k in range(40):
        specs.append({"kind": "ok", "base": f"gen:{1100 + k}", "twists": [["rich", k], *([[rng.choice(C.TWISTS), rng.randrange(4)]] if rng.random() < 0.5 else [])]})
    for k in range(90):
        specs.append({"kind": "ok", "base": f"gen:{1000 + k}", "twists": [[rng.choice(C.TWISTS), rng.randrange(4)] for _ in range(rng.choice([0, 1, 2, 3, 4]))]})
    uniq = {json.dumps(s, sort_keys=True): s for s in specs}
    return list(uniq.values())


SPECS = pool_specs()
SMALL = [i for i, s in enumerate(SPECS) if s["base"].startswith("gen:") or s["base"].split(":")[1] in C.SMALL]


def setup(fixtures):
    freshconv.expected(SPECS, fixtures)


DIRS = ["{}", "{}/recipe", "{}/a/b/recipe", "feed stock {}", "ünï-{}", "{}-feedstock/recipe"]


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 3, 4, 5, 7, 10])
    # (large recipes cost a second each: few of them)
    idx = [rng.choice(SMALL) if rng.random() < 0.93 else rng.randrange(len(SPECS)) for _ in range(n)]
    if rng.random() < 0.3:
        idx[-1] = idx[0]
    hist = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        hist.append([rng.choice(["cli", "cli", "api", "render", "bulk", "cli-d"]), rng.choice(SMALL)])
    files = [{"dir": rng.choice(DIRS).format(f"p{k}"), "spec": s} for k, s in enumerate(idx)]
    if rng.random() < 0.1:
        files[0]["dir"] = ""
    extra = []
    if rng.random() < 0.25:
        extra.append(rng.choice(["broken", "v1", "undecodable"]))
    return {"files": files, "script": hist, "out": rng.choice(["recipe.yaml", "recipe.yaml", "out.yaml"]),
            "cpus": rng.choice([1, 2, 3, 4, 8]), "dirorder": rng.randrange(1 << 30), "extra": extra,
            "old": rng.random() < 0.2, "flags": rng.choice([[], [], ["-d"], ["-t"]]),
            "short_io": rng.choice([None, None, rng.randrange(1 << 30)]), "again": rng.random() < 0.2}


def shrink(plan):
    for j in range(len(plan["files"])):
        if len(plan["files"]) > 2:
            yield {**plan, "files": plan["files"][:j] + plan["files"][j + 1:]}
    for k in ("extra",):
        if plan[k]:
            yield {**plan, k: []}
    for k in ("old", "again"):
        if plan[k]:
            yield {**plan, k: False}


def run(plan, sim, env):
    with open(os.path.join(env.fixtures, "expected.json"), encoding="utf-8") as f:
        table = json.load(f)

    def want(i):
        return table[json.dumps(SPECS[i], sort_keys=True)]

    out = plan["out"]
    rels = {}
    for f in plan["files"]:
        rel = os.path.join(f["dir"], "meta.yaml") if f["dir"] else "meta.yaml"
        env.put(f"work/{rel}", C.content(SPECS[f["spec"]]))
        rels[rel] = f["spec"]
        if plan["old"]:
            env.put(f"work/{os.path.join(f['dir'], out)}", "old: 1\n" * 400)
    for k, e in enumerate(plan["extra"]):
        env.put(f"work/zz{k}/meta.yaml", C.content({"kind": e, "n": k}))
    env.put("work/notes.txt", "x\n")
    for k, (_, i) in enumerate(plan["script"]):
        env.put(f"early/{k}/a/meta.yaml", C.content(SPECS[i]))
        env.put(f"early/{k}/b/meta.yaml", C.content(SPECS[SMALL[(i * 7 + k) % len(SMALL)]]))
    fs = env.disk()
    # what the process did before
    for k, (how, i) in enumerate(plan["script"]):
        p = os.path.join(env.root, "early", str(k), "a", "meta.yaml")
        if how in ("cli", "cli-d"):
            r = env.cli(["convert", *(["-d"] if how == "cli-d" else []), p, "-o", os.path.join(env.root, "early", str(k), "recipe.yaml")])
            got = env.get(f"early/{k}/recipe.yaml")
            env.check(r.exc is None and r.code == want(i)[0], "single-exit", f"{SPECS[i]} exits {r.code}, alone it exits {want(i)[0]}")
            exp = None if want(i)[1] is None else want(i)[1].encode()
            env.check(got == exp, "single-differs", f"{SPECS[i]}: conversion number {k + 1} in this process differs from converting it alone")
        elif how == "bulk":
            env.cli(["convert", os.path.join(env.root, "early", str(k)), "-o", "x.yaml"])
        else:
            from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert as R

            text = R.pre_process_recipe_text(C.content(SPECS[i]))
            try:
                p0 = R(text)
                before = p0.render()
                if how == "api":
                    p0.render_to_v1_recipe_format()
                    env.check(p0.render() == before, "source-parser-changed", f"converting {SPECS[i]} changed the parser it came from")
                else:
                    p0.list_value_paths()
            except (ValueError, KeyError, IndexError, TypeError, AttributeError):
                pass
    before = env.tree("work")
    for round_ in range(2 if plan["again"] else 1):
        res = env.cli(["convert", *plan["flags"], "-o", out, os.path.join(env.root, "work")])
        env.check(res.exc is None and res.code in (0, 42), "bulk-failed", f"bulk conversion: exit {res.code} {res.tail()}")
        after = env.tree("work")
        expect = dict(before)
        for rel, i in rels.items():
            if want(i)[1] is not None:
                expect[os.path.join(os.path.dirname(rel), out)] = want(i)[1].encode()
        for k in sorted(set(expect) | set(after)):
            a, b = after.get(k), expect.get(k)
            if a == b:
                continue
            spec = SPECS[rels[os.path.join(os.path.dirname(k), "meta.yaml")]] if os.path.join(os.path.dirname(k), "meta.yaml") in rels else None
            if os.path.basename(k) == out and spec is not None:
                la = a.decode("utf-8", "replace").splitlines() if isinstance(a, bytes) else [str(a)]
                lb = b.decode("utf-8", "replace").splitlines() if isinstance(b, bytes) else [str(b)]
                d = next(((x, y) for x, y in zip(la + ["<end>"], lb + ["<end>"]) if x != y), ("", ""))
                env.check(False, "bulk-differs", f"{k} ({spec}): bulk wrote {d[0]!r} where converting it alone writes {d[1]!r}")
            env.check(False, "frame", f"{k} was {'created' if b is None else 'removed' if a is None else 'changed'} by the bulk conversion")
    env.check(not fs.escapes, "escape", f"{fs.escapes[:3]}")
    env.note(sorted(rels.values()), plan["script"], plan["cpus"])
    env.sample = f"{len(rels)} recipes, {len(plan['script'])} earlier conversions, workers {plan['cpus']}"
