"""C09: the report of a bulk conversion accounts for every recipe, whatever fails."""

import json
import os
import random

from dst import alloc, convlib as C

COUNTS = {"quick": 1300, "thorough": 25000}
RULE = (
    "One run = one bulk `crm convert` over a seeded tree of 2..14 recipes (clean, with warnings, with errors, unparsable, "
    "undecodable, empty, V1, directories named meta.yaml, blocked outputs), with disk faults or a failing allocation on seeded recipes, 1..8 "
    "simulated workers and a seeded schedule and enumeration order. Distinct by (interleaving, report)."
)
REAL = ["crm convert CLI", "RecipeParserConvert", "write path", "pickling of arguments and results"]
STUB = ["multiprocessing.Pool (in-process workers, same chunking and error semantics)", "disk faults", "allocation failures (raised at a seeded line of the conversion)", "clock", "enumeration order"]

DIRS = ["{}", "{}/recipe", "{}/a/b/recipe", "feed stock {}", "ünï-{}", "{}.d/recipe", "{}-feedstock/recipe"]


def _spec(rng: random.Random) -> dict:
    k = rng.choices(["ok", "broken", "v1", "undecodable", "empty", "dir"], [14, 2, 1, 1, 1, 1])[0]
    s = {"kind": k, "n": rng.randrange(100)}
    if k == "ok":
        s["base"] = f"corpus:{rng.choice(C.SMALL)}" if rng.random() < 0.35 else f"gen:{rng.randrange(400)}"
        s["twists"] = [[rng.choice(C.TWISTS), rng.randrange(4)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return s


def gen(rng: random.Random, tier: str, i: int) -> dict:
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 9, 14])
    files, disk = [], []
    out = rng.choice([None, "recipe.yaml", "recipe.yaml", "out.yaml"])
    for k in range(n):
        s = _spec(rng)
        s["dir"] = rng.choice(DIRS).format(f"p{k}")
        if k == 0 and rng.random() < 0.1:
            s["dir"] = ""
        if s["kind"] == "ok" and s["dir"]:
            r = rng.random()
            base = f"work/{s['dir']}"
            if r < 0.13:
                s["fault"] = "read"
                disk.append({"op": rng.choice(["open-r", "open-r", "read"]), "glob": f"{base}/meta.yaml", "nth": 1,
                             "kind": rng.choice(["eio", "eacces", "enoent", "emfile", "eperm"]), "sticky": True})
            elif r < 0.26 and out:
                s["fault"] = "write"
                disk.append({"op": rng.choice(["open-w", "write", "fsync", "rename"]), "glob": f"{base}/*", "nth": 1,
                             "kind": rng.choice(["enospc", "eio", "erofs", "edquot", "eacces"]), "sticky": True})
            elif r < 0.30 and out:
                s["outdir"] = True
            elif r < 0.36:
                s["old"] = True
            elif r < 0.46:
                s["alloc"] = int(2 ** rng.uniform(0, 10))
        files.append(s)
    args = []
    if rng.random() < 0.7:
        args += ["-m", str(rng.choice([0, 0.1, 0.25, 0.33, 0.5, 0.66, 0.67, 0.75, 0.9, 1]))]
    if rng.random() < 0.2:
        args.append("-t")
    if rng.random() < 0.1:
        args.append("-d")
    return {"files": files, "out": out, "args": args, "disk": disk, "cpus": rng.choice([1, 2, 3, 4, 8]),
            "dirorder": rng.randrange(1 << 30), "trail": rng.random() < 0.2,
            "clock_jumps": [[0, rng.choice([-5000, 5000])]] if rng.random() < 0.1 else []}


def shrink(plan):
    for j in range(len(plan["files"])):
        if len(plan["files"]) > 2:
            d = plan["files"][j]["dir"]
            yield {**plan, "files": plan["files"][:j] + plan["files"][j + 1:],
                   "disk": [f for f in plan["disk"] if not d or not f["glob"].startswith(f"work/{d}/")]}


def run(plan, sim, env):
    out = plan["out"]
    files = {}
    for s in plan["files"]:
        rel = os.path.join(s["dir"], "meta.yaml") if s["dir"] else "meta.yaml"
        if s["kind"] == "dir":
            env.mkdir(f"work/{rel}")
        else:
            env.put(f"work/{rel}", C.content(s))
        if s.get("outdir"):
            env.mkdir(f"work/{os.path.join(s['dir'], out)}")
        if s.get("old") and out:
            env.put(f"work/{os.path.join(s['dir'], out)}", "previous output\n")
        files[rel] = s
    env.put("work/README", "not a recipe\n")
    env.put("work/zz/recipe.yaml", "schema_version: 1\n")
    env.put("work/zz/meta.yml", "package:\n")
    fs = env.disk()
    fs.enabled = False
    # the individual outcomes, without faults
    single = {}
    for rel, s in files.items():
        if s["kind"] == "dir":
            single[rel] = None
            continue
        r = env.cli(["convert", os.path.join(env.root, "work", rel)])
        env.check(r.exc is None and "Traceback (most" not in r.err, "traceback", f"single conversion of {s} raised {r.exc_name}: {r.exc}")
        single[rel] = C.Single(r)
    before = env.tree("work")
    fs.enabled = True
    root = os.path.join(env.root, "work") + ("/" if plan["trail"] else "")
    args = ["convert", *plan["args"], *(["-o", out] if out else []), root]
    traps = {os.path.join(env.root, "work", rel): alloc.Trap(sim, s["alloc"], "alloc", ("/recipe_parser_convert.py",))
             for rel, s in files.items() if s.get("alloc")}

    def opened(real):
        alloc.sys.settrace(None)
        if real in traps and not traps[real].fired:
            traps[real].arm()

    if traps:
        fs.on_open = opened
    res = env.cli(args)
    alloc.sys.settrace(None)
    for rel, s in files.items():
        if s.get("alloc"):
            s = files[rel] = {**s, "oom": traps[os.path.join(env.root, "work", rel)].where}
    env.check(res.exc is None, "traceback", f"bulk conversion raised {res.exc_name}: {res.exc} (faults {plan['disk']})")
    try:
        rep = json.loads(res.out)
    except ValueError:
        env.check(False, "no-report", f"bulk conversion printed no JSON report; exit {res.code}: {res.out[-200:]!r} {res.tail()}")
    st = rep["statistics"]
    dirs = [rel for rel, s in files.items() if s["kind"] == "dir"]
    if dirs and st.get("total_recipe_files") == len(files) - len(dirs):
        # a directory with a recipe's name may be left out or count as an unreadable recipe
        files = {rel: s for rel, s in files.items() if rel not in dirs}
    n = len(files)
    # what each recipe must count as
    exc, err, warn, ok = [], [], [], []
    err_hist, warn_hist, exc_hist, loose = {}, {}, {}, 0
    for rel, s in files.items():
        one = single[rel]
        dead = one is None or s.get("fault") == "read" or s.get("oom")
        bad_write = not dead and one.exception is None and out and (s.get("fault") == "write" or s.get("outdir"))
        if dead or one.exception is not None or bad_write:
            exc.append(rel)
            if one is not None and one.exception is not None and not dead:
                exc_hist[one.exception] = exc_hist.get(one.exception, 0) + 1
            else:
                loose += 1
        if not dead:
            for m in one.errors:
                err_hist[m] = err_hist.get(m, 0) + 1
            for m in one.warnings:
                warn_hist[m] = warn_hist.get(m, 0) + 1
            if one.errors:
                err.append(rel)
            if one.warnings:
                warn.append(rel)
        if rel not in exc and rel not in err:
            ok.append(rel)
    want = {
        "total_recipe_files": n, "total_recipes_processed": n, "total_errors": sum(err_hist.values()),
        "total_warnings": sum(warn_hist.values()), "num_recipe_exceptions": len(exc), "num_recipe_errors": len(err),
        "num_recipe_warnings": len(warn), "num_recipe_success": len(ok), "num_theoretical_recipe_success": len(ok),
        "percent_recipe_exceptions": round(len(exc) / n, 2), "percent_recipe_errors": round(len(err) / n, 2),
        "percent_recipe_warnings": round(len(warn) / n, 2), "percent_recipe_success": round(len(ok) / n, 2),
        "percent_recipe_theoretical_success": round(len(ok) / n, 2),
    }
    for k, v in want.items():
        env.check(st.get(k) == v, f"stat-{k}", f"report says {k}={st.get(k)}, the recipes add up to {v}; exceptions {exc}, errors {err}, "
                  f"success {ok}; faults {[(f['op'], f['kind'], f['glob']) for f in plan['disk']]}")
    env.check(rep["error_histogram"] == err_hist, "error-histogram", f"{rep['error_histogram']} != {err_hist}")
    env.check(rep["warnings_histogram"] == warn_hist, "warning-histogram", f"{rep['warnings_histogram']} != {warn_hist}")
    got_exc = rep["exception_histogram"]
    env.check(sum(got_exc.values()) == len(exc), "exception-histogram", f"{got_exc} does not add up to the {len(exc)} failed recipes")
    for m, c in exc_hist.items():
        env.check(got_exc.get(m, 0) >= c, "exception-histogram", f"{m!r}: counted {got_exc.get(m, 0)}, expected {c}")
    if "-t" not in plan["args"]:
        for k, v in (("recipes_with_exceptions", exc), ("recipes_with_errors", err), ("recipes_with_warnings", warn)):
            env.check(sorted(rep[k]) == sorted(v), k, f"{k}: {sorted(rep[k])} != {sorted(v)}")
    m = float(plan["args"][plan["args"].index("-m") + 1]) if "-m" in plan["args"] else None
    if m is not None:
        env.check(res.code == (0 if st["percent_recipe_success"] >= m else 42), "exit-code",
                  f"exit {res.code} with success rate {st['percent_recipe_success']} and minimum {m}")
    else:
        env.check(res.code in (0, 42), "exit-code", f"exit {res.code}")
    # a failed recipe disturbs no other: every recipe that can be written was, the failed ones left no file
    after = env.tree("work")
    expect = dict(before)
    for rel, s in files.items():
        if out and rel in set(files) - set(exc):
            expect[os.path.join(s["dir"], out) if s["dir"] else out] = single[rel].out[:-1].encode()
    for k in sorted(set(expect) | set(after)):
        a, b = after.get(k), expect.get(k)
        if k.endswith("/") or a == b:
            continue
        env.check(isinstance(a, bytes) and isinstance(b, bytes) and a.rstrip(b"\n") == b.rstrip(b"\n"), "outputs",
                  f"{k}: {'missing' if a is None else 'unexpected content or file'} after the bulk conversion")
    env.nontrivial = n > 1
    env.note(n, len(exc), len(err), len(warn), res.code, plan["cpus"])
    env.sample = f"{n} recipes, {len(exc)} exceptions, {len(err)} with errors, exit {res.code}, workers {plan['cpus']}"
