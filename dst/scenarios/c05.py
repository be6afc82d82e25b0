"""C05: crash points, power loss and disk errors while bump-recipe, patch and convert write their output."""

import json
import os
import random

from dst import alloc, bumplib as B, fs as fsmod, recipes as R

COUNTS = {"quick": 2600, "thorough": 60000}
RULE = (
    "One run = one command writing a recipe (bump -b, bump -t, patch, single or bulk convert) onto a plain, private-mode or "
    "symlinked target, with one fault at the n-th mutating disk operation of the target's directory: process crash before "
    "or after it (torn writes), power loss (all reorderings of unsynced data and metadata), an errno (once or for good), "
    "a short or torn write, an interrupt; or with a failing allocation or an interrupt at a seeded line of the command. Non-trivial: the fault fired. Distinct by (interleaving, outcome)."
)
REAL = ["crm bump-recipe/patch/convert CLIs", "write path", "RecipeParser", "kernel tmpfs semantics for completed operations"]
STUB = ["disk fault engine", "power-loss model (unsynced data may be lost or torn, metadata in order)", "servers", "pool workers"]
ASSUMPTIONS = ["Metadata operations of one directory reach the disk in order (journalled file system); data only after fsync."]

ERR = ["enospc", "eio", "edquot", "erofs", "eacces", "eperm", "emfile"]


def gen(rng: random.Random, tier: str, i: int) -> dict:
    cmd = rng.choice(["bump-b", "bump-b", "bump-t", "patch", "patch", "convert", "convert", "bulk"])
    big = rng.random() < 0.06
    specs = []
    for _ in range(rng.choice([2, 3]) if cmd == "bulk" else 1):
        s = R.gen(rng, n_sources=rng.choice([0, 1, 2]))
        if cmd in ("convert", "bulk"):
            while s["schema"] != 0:
                s = R.gen(rng, n_sources=rng.choice([0, 1]))
        if cmd != "patch":
            R.add_hashkey(rng, s)
        specs.append([s, R.initial_state(rng, s)])
    target = R.version(rng, specs[0][1]["version"])
    net: dict = {}
    if cmd == "bump-t":
        B.add_urls(rng, net, R.urls(specs[0][0], target), lambda r: 0)
    fault = rng.choices(["crash", "power", "error", "error-sticky", "short", "intr", "none", "alloc", "intr-line"], [6, 6, 6, 3, 1, 2, 1, 3, 2])[0]
    glob = rng.choice(["work/*", "work/*", "*recipe*"])
    nth = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10])
    disk = []
    if fault in ("crash", "power"):
        disk = [{"op": "*mut", "glob": glob, "nth": nth, "kind": rng.choice(["crash", "crash", "crash-after"]),
                 "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])}]
    elif fault.startswith("error"):
        op = rng.choice(["*mut", "*mut", "open-w", "write", "fsync", "rename", "chmod"])
        disk = [{"op": op, "glob": glob, "nth": nth if op == "*mut" else rng.choice([1, 1, 2]), "kind": rng.choice(ERR),
                 "sticky": fault == "error-sticky", "frac": rng.choice([0, 0.5, 0.9])}]
    elif fault == "intr":
        disk = [{"op": "*mut", "glob": glob, "nth": nth, "kind": "intr"}]
    trap = None
    if fault in alloc.EXC:
        where = rng.choice([["/utils/fs.py"], ["/utils/fs.py"], ["/convert.py", "/patch.py", "/bump_recipe.py"],
                            ["/commands/" + n + ".py" for n in ("convert", "patch", "bump_recipe")] + ["/utils/fs.py", "_convert.py"]])
        trap = [fault, where, rng.randrange(1, 16) if len(where) == 1 else rng.randrange(1, 60) if len(where) == 3 else int(2 ** rng.uniform(0, 13))]
    return {
        "trap": trap, "cmd": cmd, "specs": specs, "target": target, "net": net, "fault": fault, "disk": disk,
        "power": fault == "power", "short_io": rng.randrange(1 << 30) if fault == "short" else None,
        "link": cmd != "bulk" and rng.random() < 0.2, "mode": rng.choice([None, 0o600, 0o640, 0o755, 0o644]),
        "existing": rng.random() < 0.6, "big": big, "cpus": rng.choice([1, 2]),
    }


def _invoke(env, plan, d):
    """Runs the command on directory `d`."""
    cmd = plan["cmd"]
    if cmd == "bump-b":
        return env.cli(["bump-recipe", "-b", os.path.join(d, "recipe.yaml")])
    if cmd == "bump-t":
        return env.cli(["bump-recipe", "-t", plan["target"], os.path.join(d, "recipe.yaml")])
    if cmd == "patch":
        return env.cli(["patch", os.path.join(env.root, "patch.json"), os.path.join(d, "recipe.yaml")])
    if cmd == "convert":
        return env.cli(["convert", "-o", os.path.join(d, "recipe.yaml"), os.path.join(env.root, "src", "meta.yaml")])
    return env.cli(["convert", "-m", "0", "-o", "recipe.yaml", d])


def _lay(env, plan, d):
    """Creates inputs below directory `d`; :returns: {target path: old content or None}"""
    texts = [R.text(s, st) for s, st in plan["specs"]]
    if plan["big"]:
        texts = [t + "\nbig:\n" + "".join(f"  k{n}: {'x' * 60}\n" for n in range(500)) for t in texts]
    if plan["cmd"] == "bulk":
        out = {}
        for n, t in enumerate(texts):
            env.put(f"{d}/f{n}/recipe/meta.yaml", t)
            tgt = f"{d}/f{n}/recipe/recipe.yaml"
            out[tgt] = None
            if plan["existing"] and n % 2 == 0:
                env.put(tgt, "schema_version: 1\n\n# the previous conversion\n", plan["mode"])
                out[tgt] = b"schema_version: 1\n\n# the previous conversion\n"
        return out
    tgt = f"{d}/recipe.yaml"
    env.mkdir(d)
    if plan["cmd"] == "convert":
        env.put("src/meta.yaml", texts[0])
        if not plan["existing"]:
            return {tgt: None}
        old = "schema_version: 1\n\n# the previous conversion\n" * (400 if plan["big"] else 1)
    else:
        old = texts[0]
    if plan["link"]:
        real = env.put(f"{d}/real/kept-recipe.yaml", old, plan["mode"])
        fsmod.REAL["symlink"](os.path.join("real", "kept-recipe.yaml"), os.path.join(env.root, tgt))
        assert os.path.realpath(os.path.join(env.root, tgt)) == real
    else:
        env.put(tgt, old, plan["mode"])
    return {tgt: old.encode()}


def _mode(env, rel):
    return fsmod.REAL["stat"](os.path.join(env.root, rel)).st_mode & 0o7777


def run(plan, sim, env):
    ops = [{"op": "add", "path": "/build/number", "value": 41}, {"op": "add", "path": "/zzz", "value": {"a": "b"}}]
    env.put("patch.json", json.dumps(ops[: 1 if plan["specs"][0][1]["version"] < "3" else 2]))
    _lay(env, plan, "twin")
    olds = _lay(env, plan, "work")
    fs = env.disk()
    fs.enabled = False
    track, fs.track = fs.track, False
    net, blobs = B.serve(env, plan["net"])
    # what an undisturbed run writes
    ref = _invoke(env, plan, os.path.join(env.root, "twin"))
    env.check(ref.exc is None, "traceback", f"undisturbed {plan['cmd']} raised {ref.exc_name}: {ref.exc}")
    news = {t: env.get("twin" + t[4:]) for t in olds}
    if plan["cmd"] != "convert" and plan["cmd"] != "bulk":
        env.check(ref.code == 0, "undisturbed-run-failed", f"{plan['cmd']}: exit {ref.code}; {ref.tail()}")
    if plan["cmd"] == "bump-b":
        s, st = plan["specs"][0]
        want = R.text(s, R.apply_bump(s, st, True, None, {})).encode()
        env.check(news["work/recipe.yaml"].startswith(want[:-1]), "recipe-text", "the undisturbed bump wrote an unexpected text")
    for t, new in news.items():
        env.check(new is not None, "undisturbed-run-failed", f"{plan['cmd']} wrote no {t}; exit {ref.code}; {ref.tail()}")
    net.hits.clear()
    fs.enabled = True
    fs.track = track
    if track:
        fs._snapshot()
    trap = plan.get("trap") and alloc.Trap(sim, plan["trap"][2], plan["trap"][0], plan["trap"][1])
    if trap:
        trap.arm()
    try:
        res = _invoke(env, plan, os.path.join(env.root, "work"))
    finally:
        if trap:
            trap.disarm()
    fired = sum(f["fired"] for f in fs.faults) + bool(trap and trap.fired)
    fault = plan["fault"]
    env.nontrivial = bool(fired) or fault in ("short", "none", "power")

    def allowed(t):
        return [olds[t], news[t]]

    def brief(c):
        return "no file" if c is None else f"{len(c)} bytes"

    for t in olds:
        now = env.get(t)
        env.check(now in allowed(t), "torn-file",
                  f"{plan['cmd']}/{fault}: {t} holds {brief(now)}, neither the old ({brief(olds[t])}) nor the new "
                  f"({brief(news[t])}) content; last disk operations {fs.mut_log[-4:]}{trap.where if trap else ''}")
        if fault == "power":
            for c in fs.power_outcomes(os.path.join(env.root, t)):
                env.check(c in allowed(t), "power-loss",
                          f"{plan['cmd']}: a power loss here may leave {t} with {brief(c)}, neither the old "
                          f"({brief(olds[t])}) nor the new ({brief(news[t])}) content; operations {fs.mut_log[-6:]}")
        if plan["link"] and olds[t] is not None:
            env.check(os.path.islink(os.path.join(env.root, t)), "symlink-replaced", f"{t} is no longer a symbolic link")
        if olds[t] is not None and plan["mode"] is not None and now == news[t] and not res.crashed:
            if not fired:
                env.check(_mode(env, t) == plan["mode"], "permissions-changed",
                          f"{t} had mode {plan['mode']:o}, now {_mode(env, t):o}")
    if fault == "power":
        env.note("power", plan["cmd"], fired, res.crashed, len(fs.dirops))
    if not res.crashed:
        if fault not in ("intr", *alloc.EXC):
            env.check(res.exc is None, "traceback", f"{plan['cmd']}/{fault}: raised {res.exc_name}: {res.exc}")
        wrote_all = all(env.get(t) == news[t] for t in olds)
        if not fired:
            env.check(wrote_all and res.code == ref.code, "not-written",
                      f"{plan['cmd']}: exit {res.code} (undisturbed: {ref.code}), all written: {wrote_all}")
        elif fault.startswith("error") and plan["cmd"] != "bulk":
            env.check(wrote_all or res.code not in (0, 100), "write-error-ignored",
                      f"{plan['cmd']}: exit {res.code} although the file was not written; {fs.mut_log[-4:]}")
        leftovers = _leftovers(env, plan, olds)
        cleanup_blocked = fault == "error-sticky" and plan["disk"] and plan["disk"][0]["op"] == "*mut"
        if not cleanup_blocked and not trap:
            env.check(not leftovers, "temporary-left", f"{plan['cmd']}/{fault}: left behind {leftovers}; {fs.mut_log[-5:]}")
    # the next attempt, on a healthy disk, succeeds
    if len(sim.order) == 1:
        state = {t: env.get(t) for t in olds}
        env.reboot()
        fs.track = False
        again = plan["cmd"] in ("convert", "bulk", "patch") or all(state[t] == olds[t] for t in olds)
        if again and not (plan["cmd"] == "patch" and state != olds):
            net.hits.clear()
            r2 = _invoke(env, plan, os.path.join(env.root, "work"))
            env.check(r2.code == ref.code and r2.exc is None, "retry-failed",
                      f"{plan['cmd']}/{fault}: the retry exits {r2.code} {r2.exc_name}; {r2.tail()}")
            for t in olds:
                env.check(env.get(t) == news[t], "retry-failed", f"{plan['cmd']}/{fault}: the retry wrote something else to {t}")
    env.note(plan["cmd"], fault, fired, res.code, res.crashed, plan["link"], [env.get(t) == news[t] for t in olds])
    env.sample = f"{plan['cmd']} with {fault} {plan['disk']} -> exit {res.code}, crashed={res.crashed}"


def _leftovers(env, plan, olds):
    known = set(olds)
    out = []
    for rel in env.tree("work"):
        full = "work/" + rel
        if rel.endswith("/") or full in known or rel.endswith("meta.yaml") or rel == "real/kept-recipe.yaml":
            continue
        out.append(rel)
    return out
