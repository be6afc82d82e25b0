"""C30: the CI summary counts every report of every readable log once, whatever the order, the neighbours and the disk do."""

import io
import json
import os
import random
import sys

COUNTS = {"quick": 3500, "thorough": 80000}
RULE = (
    "One run = one directory of 0..9 CI logs (reports of both kinds between other output, with and without time stamps, cut-off, malformed and foreign "
    "JSON, undecodable logs, directories, dangling links), some reports written by simulated bulk conversions of the real CLI, read by scripts/parse_ci_output.py "
    "twice, under two seeded enumeration orders, with seeded read faults and short reads. Distinct by (logs, summary)."
)
REAL = ["scripts/parse_ci_output.py", "crm convert (some reports)"]
STUB = ["disk faults, short reads and enumeration order", "multiprocessing.Pool (reports made by crm convert)"]
ASSUMPTIONS = ["all reports of one kind carry the same percentages; reports of one directory may disagree (then the summary shows one of them)"]

CONVERT = ["percent_recipe_exceptions", "percent_recipe_errors", "percent_recipe_success", "total_recipe_files", "total_errors", "num_recipe_success"]
BUILD = ["percent_errors", "percent_success", "total_recipes", "total_success", "total_errors"]
PULLED = {"percent_recipe_exceptions", "percent_recipe_errors", "percent_recipe_success", "percent_errors", "percent_success"}
NOISE = ["Run make test", "##[group]Run crm convert", "  {", "}{", "{}", "{ }", "percent: 12%", "", "ERROR: it's {broken}", "ünï ✓", "[1, 2]", "\ttab"]
STAMPS = ["2024-05-01T10:11:12.1234567Z ", "2023-12-31T23:59:59.0Z "]


def report(rng, dirs):
    kind = rng.choice(["convert", "build"])
    n = rng.choice([1, 3, 10, 400])
    stats: dict = {}
    for k in CONVERT if kind == "convert" else BUILD:
        stats[k] = round(rng.random(), 2) if k.startswith("percent") else rng.randrange(n + 1)
    if rng.random() < 0.4:
        stats["timings"] = {"total_exec_time": 1.5, "percent_recipe_success": 99}
    if rng.random() < 0.2:
        stats["note"] = "12"
    d = {"info": {"command_name": "convert" if kind == "convert" else rng.choice(["rattler-bulk-build", "rattler-bulk-build", "other"]), "directory": rng.choice(dirs)}}
    d["stats" if rng.random() < 0.25 else "statistics"] = stats
    if rng.random() < 0.3:
        d["error_histogram"] = {"a {b} }": 2, "x\u2028y": 1, "n\nl": 3}
    return d


def bad_block(rng, dirs):
    r = report(rng, dirs)
    k = rng.randrange(8)
    if k == 0:
        return json.dumps(r, indent=2).rsplit("\n", 2)[0]  # cut off
    if k == 1:
        return json.dumps(r, indent=2).replace(":", "", 1)
    if k == 2:
        return "{\nnot json\n}"
    if k == 3:
        return json.dumps({"other": 1, "statistics": {"total_errors": 5}}, indent=2)
    if k == 4:
        r["info"].pop("command_name")
    elif k == 5:
        r["info"] = rng.choice([5, None, ["command_name"], "command_name"])
    elif k == 6:
        r["info"].pop("directory")
    else:
        r.pop("stats", None)
        r.pop("statistics", None)
    return json.dumps(r, indent=2)


def gen(rng: random.Random, tier, i):
    dirs = [f"{rng.choice(['/home/runner', 'test', 'a b/'])}/recipes_{k}" for k in range(rng.choice([1, 2, 5]))]
    logs, earlier = [], []
    for k in range(rng.choice([0, 1, 2, 3, 5, 9])):
        parts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            r = rng.random()
            if r < 0.12 and earlier:
                parts.append(["report", rng.choice(earlier)])  # the same report once more: two jobs can agree on every number
            elif r < 0.55:
                earlier.append(report(rng, dirs))
                parts.append(["report", earlier[-1]])
            elif r < 0.75:
                parts.append(["bad", bad_block(rng, dirs)])
            elif r < 0.78 and i % 4 == 0:
                parts.append(["live", [rng.randrange(40) for _ in range(rng.choice([2, 3, 4]))]])
            else:
                parts.append(["noise", [rng.choice(NOISE) for _ in range(rng.choice([1, 3]))]])
        name = rng.choice(["{}_build.txt", "{}_test 3.11.txt", "{}.log", ".{}", "{}_ünï"]).format(k)
        kind = rng.choices(["log", "undecodable", "dir", "link", "ds"], [30, 2, 2, 1, 1])[0]
        logs.append({"name": name if kind != "ds" else ".DS_Store", "kind": kind, "parts": parts, "stamp": rng.choice([None, 0, 0, 1]), "crlf": rng.random() < 0.1,
                     "nl": rng.random() < 0.8, "fault": rng.random() < 0.1})
    disk = [{"op": rng.choice(["open-r", "read"]), "glob": f"logs/{L['name']}", "nth": 1, "kind": rng.choice(["eio", "eacces", "enoent", "emfile"]), "sticky": True}
            for L in logs if L["fault"] and L["kind"] == "log"]
    return {"logs": logs, "disk": disk, "dirorder": rng.randrange(1 << 30), "verbose": rng.random() < 0.4, "short_io": rng.choice([None, rng.randrange(1 << 30)]), "cpus": rng.choice([1, 2, 4])}


def shrink(plan):
    for j in range(len(plan["logs"])):
        L = plan["logs"][j]
        yield {**plan, "logs": plan["logs"][:j] + plan["logs"][j + 1:], "disk": [f for f in plan["disk"] if f["glob"] != f"logs/{L['name']}"]}
        for k in range(len(L["parts"])):
            M = {**L, "parts": L["parts"][:k] + L["parts"][k + 1:]}
            yield {**plan, "logs": plan["logs"][:j] + [M] + plan["logs"][j + 1:]}


def load():
    from dst import target

    import importlib.util

    name = "parse_ci_output"
    if name not in sys.modules:
        spec = importlib.util.spec_from_file_location(name, os.path.join(target.REPO, "scripts/parse_ci_output.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
    return sys.modules[name]


def run_script(env, sim, mod, args):
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ["parse_ci_output.py", *args], io.StringIO(), io.StringIO()
    try:
        mod.main()
        return sys.stdout.getvalue(), sys.stderr.getvalue()
    except (Exception, SystemExit) as e:  # noqa: BLE001
        env.check(False, "script-failed", f"the script ended with {type(e).__name__}: {e}")
    finally:
        sys.argv, sys.stdout, sys.stderr = saved


def run(plan, sim, env):
    from dst import convlib as C

    mod = load()
    env.mkdir("logs")
    fs = env.disk()
    good, silent = [], []
    for L in plan["logs"]:
        rel = f"logs/{L['name']}"
        lines: list[str] = []
        reports = []
        for kind, v in L["parts"]:
            if kind == "report":
                lines += json.dumps(v, indent=2).split("\n")
                reports.append(v)
            elif kind == "bad":
                lines += v.split("\n")
            elif kind == "live":
                d = f"live/{L['name']}-{len(lines)}"
                for j, n in enumerate(v):
                    spec = {"kind": "broken", "n": n} if n % 7 == 0 else {"kind": "ok", "base": f"gen:{1000 + n}"}
                    env.put(f"{d}/r{j}-feedstock/recipe/meta.yaml", C.content(spec))
                fs.enabled = False
                r = env.cli(["convert", os.path.join(env.root, d)])
                fs.enabled = True
                text = r.out.strip()
                env.check(text.startswith("{\n") and text.endswith("\n}"), "live-report", f"`crm convert` printed no report: {r.out[:200]!r}")
                lines += text.split("\n")
                reports.append(json.loads(text))
            else:
                lines += v
        st = "" if L["stamp"] is None else STAMPS[L["stamp"]]
        eol = "\r\n" if L["crlf"] else "\n"
        text = eol.join(st + x for x in lines) + (eol if L["nl"] else "")
        if L["kind"] == "dir":
            env.put(rel + "/inner.log", text)
        elif L["kind"] == "link":
            os.symlink("/nowhere/at/all", os.path.join(env.root, rel))
        elif L["kind"] == "undecodable":
            env.put(rel, text.encode() + b"caf\xe9\n")
        else:
            env.put(rel, text)
        if L["kind"] == "log" and not (L["fault"] and any(f["glob"] == rel for f in plan["disk"])):
            good += reports
        elif L["kind"] in ("log", "undecodable", "link"):
            silent.append(L["name"])
    before = env.tree("logs")
    outs = []
    for rnd in range(2):
        if rnd:
            fs.dirorder = plan["dirorder"] ^ 0x2545F491
        out, err = run_script(env, sim, mod, [os.path.join(env.root, "logs"), *(["-v"] if plan["verbose"] else [])])
        try:
            outs.append(json.loads(out))
        except ValueError:
            env.check(False, "no-report", f"printed no JSON: {out[:200]!r} {err[-300:]!r}")
        for n in silent:
            env.check(n in err, "unreadable-not-named", f"the log {n} could not be read and is not mentioned: {err[-300:]!r}")
    conv = [r for r in good if r["info"]["command_name"] == "convert"]
    dry = [r for r in good if r["info"]["command_name"] != "convert"]
    got = outs[0]
    for title, rs in (("recipe_conversion", conv), ("rattler_dry_run", dry)):
        want: dict = {}
        for r in rs:
            for k, v in (r["stats"] if "stats" in r else r["statistics"]).items():
                if isinstance(v, (int, float)):
                    want[k] = want.get(k, 0) + v
        for k in want:
            if k.startswith("percent_"):
                want[k] /= len(rs)
        have = got["summary"]["all_stages"][title]
        env.check(set(have) == set(want), "totals-keys", f"{title}: {sorted(have)} != {sorted(want)}")
        for k, v in want.items():
            env.check(abs(have[k] - v) < (0.0051 if k.startswith("percent_") else 1e-6 * (1 + abs(v))), "totals", f"{title}: {k} is {have[k]}, {len(rs)} reports add up to {v}")
    tests: dict = {}
    for stage, rs in (("recipe_conversion", conv), ("recipe_dry_run", dry)):
        for r in rs:
            t = tests.setdefault(os.path.basename(r["info"]["directory"]), {"test_count": 0})
            t["test_count"] += 1
            stats = r["stats"] if "stats" in r else r["statistics"]
            for k in PULLED & set(stats):
                t.setdefault(stage, {}).setdefault(k, set()).add(stats[k])
    have = got["summary"]["test_summaries"]
    env.check(set(have) == set(tests), "test-names", f"{sorted(have)} != {sorted(tests)}")
    for n, t in tests.items():
        env.check(have[n]["test_count"] == t["test_count"], "test-count", f"{n}: {have[n]['test_count']} tests, the logs hold {t['test_count']}")
        for stage in ("recipe_conversion", "recipe_dry_run"):
            env.check(set(have[n].get(stage, {})) == set(t.get(stage, {})), "test-fields", f"{n}/{stage}: {have[n].get(stage)}")
            for k, vs in t.get(stage, {}).items():
                env.check(have[n][stage][k] in vs, "test-values", f"{n}/{stage}/{k}: {have[n][stage][k]} was reported by no job ({sorted(vs)})")
    if plan["verbose"]:
        for key, rs in (("raw_conversion_results", conv), ("raw_dry_run_results", dry)):
            a, b = sorted(json.dumps(x, sort_keys=True) for x in got[key]), sorted(json.dumps(x, sort_keys=True) for x in rs)
            env.check(a == b, "raw-results", f"{key}: {len(a)} reports, the logs hold {len(b)}; first difference {[x for x in zip(a, b) if x[0] != x[1]][:1]}")
    env.check(outs[0] == outs[1], "order", "the summary depends on the order the logs are listed in")
    env.check(env.tree("logs") == before, "modified", "a log was modified")
    env.nontrivial = bool(good)
    env.note(len(conv), len(dry), sorted(tests)[:3], [L["kind"] for L in plan["logs"]], json.dumps(got["summary"]["all_stages"], sort_keys=True))
    env.sample = f"{len(plan['logs'])} logs ({len(silent)} unreadable) with {len(conv)} + {len(dry)} reports"
