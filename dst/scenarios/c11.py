"""C11: `crm rattler-bulk-build` starts one faithful build per recipe and accounts for each of them."""

import json
import os
import random

COUNTS = {"quick": 3500, "thorough": 60000}
RULE = (
    "One run = one `crm rattler-bulk-build` over a seeded tree of 1..12 recipes with awkward names and seeded extra arguments; "
    "every build is a simulated process with a seeded duration, exit status, messages, hang, failed start or garbage output, run by "
    "1..8 simulated workers under a seeded schedule. Distinct by (interleaving, report)."
)
REAL = ["crm rattler-bulk-build CLI", "subprocess.run incl. timeout and kill logic", "pickling of arguments and results"]
STUB = ["rattler-build (simulated program)", "/bin/sh (POSIX word splitting; unquoted shell syntax is flagged)", "multiprocessing.Pool", "clock", "disk faults"]
ASSUMPTIONS = ["the shell is modelled by POSIX word splitting and quoting; expansion is never performed, only flagged"]

DIRS = ["{}", "{}/recipe", "{}/a/b", "feed stock {}", "it's {}", "ünï-{}", "$HOME{}", "a;b{}", "{}&", "(x){}", "star*{}", "q\"{}\"", "back\\{}",
        "tab\t{}", "new\nline{}", "#{}", "-r{}", "~{}", "{}`id`", "!{}", "p{{}}{}"]
ARGS = [["--dry-run"], ["-c", "conda-forge"], ["--channel", "a b"], ["--output-dir", "/out dir/x"], ["--variant-config=v c.yaml"],
        ["--render-only"], ["it's"], ["$HOME"], ["*.yaml"], ["a;b"], ["`id`"], ["-vvv"], ["--experimental"], ["&&"], ["|"], ["x\\y"],
        ["\"q\""], ["ünï"], ["--no-build-id"], ["#c"], ["~"], [">out"], ["-k"], ["--opt="], ["-c", ""], ["a\nb"], ["%s"], ["--target-platform", "linux-64"],
        ["!"], ["{a,b}"], ["--recipe-dir"], ["- -"]]
MSGS = ["  × failed to resolve deps", " Failed to parse recipe", "\n  × could not solve", "\t× Rust panic", " script failed with code 1", " ünï code", " a: b: c",
        "   × Failed to parse recipe", " Error in [build]", " x", " {\"json\": 1}",
        " xx", "  × Failed to parse recipe at line 3", "  × failed to resolve", " script failed with code 12", " Failed"]
NOISE = ["warning: something", " ╰─▶ context", "error: lower case", "Errors happened", "", "Error : spaced", "info", "Error:", "  at line 3\tcolumn 9"]


def gen(rng: random.Random, tier, i):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 0 if rng.random() < 0.2 else 2])
    recs, used = [], set()
    for k in range(n):
        d = rng.choice(DIRS).replace("{{}}", "{x}").replace("{}", f"p{k}")
        if k == 0 and rng.random() < 0.1:
            d = ""
        how = rng.choices(["ok", "fail", "signal", "hang", "slow", "spawn", "garbage"], [9, 5, 1, 1, 1, 1, 1])[0]
        r = {"dir": d, "how": how, "err": [], "dur": rng.choice([0, 0.5, 3, 30, 60, 110])}
        if how == "fail":
            r["code"] = rng.choice([1, 2, 3, 42, 43, 100, 101, 126, 127, 255])
        elif how == "signal":
            r["code"] = rng.choice([-9, -11, -15])
        elif how == "slow":
            r["dur"] = rng.choice([130, 500, 100000])
        for _ in range(rng.choice([0, 1, 1, 2, 4]) if how not in ("ok",) else rng.choice([0, 0, 0, 1, 2])):
            r["err"].append(["m", rng.randrange(len(MSGS))] if rng.random() < 0.6 else ["n", rng.randrange(len(NOISE))])
        recs.append(r)
    if rng.random() < 0.06:
        for r in recs:
            r["how"] = "missing"
            r["err"] = []
    extra = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
        extra += rng.choice(ARGS)
    opts = []
    if rng.random() < 0.7:
        opts += [rng.choice(["-m", "--min-success-rate"]), str(rng.choice([0, 0.1, 0.25, 0.33, 0.5, 0.66, 0.67, 0.75, 0.8, 0.9, 1]))]
    if rng.random() < 0.15:
        opts.append("-t")
    log = rng.random() < 0.5
    plan = {"recs": recs, "extra": extra, "opts": opts, "log": log, "cpus": rng.choice([1, 2, 3, 4, 8]), "dirorder": rng.randrange(1 << 30),
            "where": rng.choice(["abs", "abs", "abs/", "rel", "dot"]), "disk": [], "tail": rng.random() < 0.4,
            "clock_jumps": [[rng.choice([0, 10]), rng.choice([-5000, 5000])]] if rng.random() < 0.1 else []}
    if log and rng.random() < 0.15:
        plan["disk"].append({"op": rng.choice(["open-w", "write"]), "glob": "debug.json", "nth": 1, "kind": rng.choice(["enospc", "eacces", "erofs", "eio"]), "sticky": True})
    return plan


def shrink(plan):
    for j in range(len(plan["recs"])):
        yield {**plan, "recs": plan["recs"][:j] + plan["recs"][j + 1:]}
    if plan["extra"]:
        yield {**plan, "extra": []}
        for j in range(len(plan["extra"])):
            yield {**plan, "extra": plan["extra"][:j] + plan["extra"][j + 1:]}
    if plan["log"]:
        yield {**plan, "log": False, "disk": []}
    for j, r in enumerate(plan["recs"]):
        if r["err"]:
            yield {**plan, "recs": plan["recs"][:j] + [{**r, "err": r["err"][1:]}] + plan["recs"][j + 1:]}


def stderr_of(r):
    """The builder's stderr and the messages in it: a line `Error:` + blank + text, where the blank may be a line break."""
    out, msgs = [], []
    for t, k in r["err"]:
        if t == "m":
            out.append("Error:" + MSGS[k])
            msgs.append("Error:" + MSGS[k])
            continue
        line = NOISE[k]
        out.append(line)
    # a bare "Error:" takes its text from the next non-blank line; keep it apart from real messages
    txt = "\n".join(out)
    if any(t == "n" and NOISE[k] == "Error:" for t, k in r["err"]):
        txt, msgs2 = "", []
        for t, k in r["err"]:
            if t == "m":
                txt += "Error:" + MSGS[k] + "\n"
                msgs2.append("Error:" + MSGS[k])
            elif NOISE[k] != "Error:":
                txt += NOISE[k] + "\n"
        msgs = msgs2
    return txt, msgs


def run(plan, sim, env):
    files = {}
    for r in plan["recs"]:
        rel = os.path.join(r["dir"], "recipe.yaml") if r["dir"] else "recipe.yaml"
        env.put(f"work/{rel}", "schema_version: 1\n")
        files[rel] = r
    env.mkdir("work/empty")
    env.put("work/zz/meta.yaml", "x\n")
    env.put("work/zz/recipe.yml", "x\n")
    fs = env.disk()
    if plan["where"] == "dot":
        os.chdir(os.path.join(env.root, "work"))
    root = {"abs": os.path.join(env.root, "work"), "abs/": os.path.join(env.root, "work") + "/", "rel": "work", "dot": "."}[plan["where"]]
    cwd = os.getcwd()
    calls, bad = [], []
    work = os.path.realpath(os.path.join(env.root, "work"))

    def program(words, clean, shell, pcwd):
        if words[:3] != ["rattler-build", "build", "-r"] or len(words) < 4:
            bad.append(("argv", f"the builder was started as {words}"))
            return {"code": 2, "err": b""}
        p = os.path.realpath(os.path.join(pcwd or cwd, words[3]))
        rel = os.path.relpath(p, work)
        if not clean:
            bad.append(("shell-syntax", f"the command line for {rel!r} {words[4:]} holds unquoted shell syntax"))
        if rel not in files:
            bad.append(("wrong-file", f"a build was started on {rel!r}, which is not one of the recipes"))
            return {"code": 2, "err": b""}
        if words[4:] != plan["extra"]:
            bad.append(("arguments", f"extra arguments {plan['extra']} arrived as {words[4:]}"))
        calls.append(rel)
        r = files[rel]
        err = stderr_of(r)[0].encode()
        if r["how"] == "garbage":
            return {"code": 0 if len(rel) % 2 else 1, "err": b"\xff\xfe\x80garbage\xc3\n" + err, "out": b"\x80\x81", "duration": r["dur"]}
        if r["how"] == "missing":
            return {"missing": True}
        if r["how"] == "spawn":
            sim.fault("spawn-failure")
            raise OSError(11, "Resource temporarily unavailable")
        if r["how"] == "hang":
            sim.fault("builder-hang")
            return {"code": 0, "err": err, "duration": None}
        if r["how"] == "slow":
            sim.fault("builder-slow")
        elif r["how"] != "ok":
            sim.fault("builder-" + r["how"])
        return {"code": r.get("code", 0), "err": err, "out": b"Error: on stdout does not count\n", "duration": r["dur"]}

    sim.programs = program
    args = ["rattler-bulk-build"]
    opts = list(plan["opts"]) + (["-l", os.path.join(env.root, "debug.json")] if plan["log"] else [])
    args += [root, *plan["extra"], *opts] if plan["tail"] else [*opts, root, *plan["extra"]]
    t0 = sim.now_us
    res = env.cli(args)
    n = len(files)
    log_failed = any(f.get("fired") for f in fs.faults)
    env.check(res.exc is None, "traceback", f"{res.exc_name}: {res.exc}")
    if bad:
        env.check(False, *bad[0])
    if n == 0:
        env.check(res.code == 3 and not calls, "no-files", f"exit {res.code} without any recipe file")
        env.note("none")
        return
    env.check(sorted(calls) == sorted(files), "one-build-each", f"builds started on {sorted(calls)}, recipes {sorted(files)}")
    bound = sum(min(r["dur"], 121) if r["how"] != "hang" else 121 for r in files.values()) + 5
    env.check((sim.now_us - t0) / 1e6 <= bound, "time-limit", f"took {(sim.now_us - t0) / 1e6:.0f} simulated s, the builds add up to {bound:.0f} s with the 120 s limit")
    try:
        rep = json.loads(res.out)
    except ValueError:
        env.check(False, "no-report", f"no JSON report; exit {res.code}: {res.out[-200:]!r} {res.tail()}")
    failed, hist, by_msg, odd = [], {}, {}, set()
    for rel, r in files.items():
        code = r.get("code", 0)
        if r["how"] in ("hang", "slow", "spawn"):
            failed.append(rel)
            odd.add(rel)
            continue
        if r["how"] == "garbage":
            code = 0 if len(rel) % 2 else 1
        if r["how"] == "missing":
            code = 127
        if code != 0:
            failed.append(rel)
        for m in stderr_of(r)[1]:
            hist[m] = hist.get(m, 0) + 1
            by_msg.setdefault(m, set()).add(rel)
    st = rep["statistics"]
    want = {"total_recipe_files": n, "total_recipes_processed": n, "total_errors": len(failed),
            "percent_errors": round(len(failed) / n, 2), "percent_success": round((n - len(failed)) / n, 2)}
    for k, v in want.items():
        env.check(st.get(k) == v, f"stat-{k}", f"report says {k}={st.get(k)}, the builds add up to {v} ({[(f, r['how'], r.get('code')) for f, r in files.items()]})")
    if "-t" not in plan["opts"]:
        env.check(sorted(rep["recipes_with_build_error_code"]) == sorted(failed), "failed-list",
                  f"{sorted(rep['recipes_with_build_error_code'])} != {sorted(failed)}")
    got = dict(rep["error_histogram"])
    for m, c in hist.items():
        env.check(got.get(m, 0) == c, "error-histogram", f"{m!r} counted {got.get(m, 0)} times, the builders said it {c} times")
    rest = {m: c for m, c in got.items() if m not in hist}
    env.check(sum(rest.values()) <= len(odd), "error-histogram", f"messages nobody said: {rest} (killed or never started: {len(odd)})")
    m = next((float(plan["opts"][j + 1]) for j, a in enumerate(plan["opts"]) if a in ("-m", "--min-success-rate")), 0.8)
    if log_failed:
        env.check(res.code == 5, "debug-log-error", f"exit {res.code} although the debug log could not be written")
    else:
        env.check(res.code == (0 if st["percent_success"] >= m else 42), "exit-code", f"exit {res.code}, success rate {st['percent_success']}, minimum {m}")
    if plan["log"] and not log_failed:
        raw = env.get("debug.json")
        env.check(raw is not None, "debug-log", "no debug log was written")
        dump = json.loads(raw)["errors"]
        env.check([e["recipe_count"] for e in dump] == sorted((e["recipe_count"] for e in dump), reverse=True), "debug-log", "the debug log is not sorted by recipe count")
        env.check(sorted(e["error"] for e in dump) == sorted(got), "debug-log", f"debug log lists {[e['error'] for e in dump]}, the report {list(got)}")
        for e in dump:
            w = by_msg.get(e["error"])
            if w is None:
                env.check(set(e["recipes"]) <= odd and e["recipe_count"] == len(e["recipes"]), "debug-log", f"{e}")
            else:
                env.check(sorted(e["recipes"]) == sorted(w) and e["recipe_count"] == len(w), "debug-log", f"{e['error']!r} is attributed to {e['recipes']}, it was said by {sorted(w)}")
    env.check(not fs.escapes, "escape", f"{fs.escapes[:3]}")
    env.nontrivial = n > 1
    env.note(n, len(failed), res.code, plan["cpus"], sorted(r["how"] for r in files.values()))
    env.sample = f"{n} recipes, {len(failed)} failed builds, exit {res.code}, extra {plan['extra']}"
