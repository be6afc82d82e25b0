"""C02: a bump that cannot finish exits with its documented code and leaves every file alone; a dry run writes nothing."""

import random

from dst import bumplib as B, recipes as R

COUNTS = {"quick": 1800, "thorough": 40000}
RULE = (
    "One run = one seeded recipe and one reason to fail (a subset of sources failing for good with mixed fault kinds, an "
    "unreadable/undecodable/unparsable recipe, no build section, a non-integer build number, an inapplicable change, bad "
    "usage, a full disk for the download) or a dry run, under a seeded schedule. Distinct by (interleaving, outcome)."
)
REAL = ["crm bump-recipe CLI", "RecipeParser", "artifact fetchers", "ThreadPoolExecutor", "requests/urllib3", "tarfile/zipfile"]
STUB = ["HTTPAdapter.send (servers)", "clock and sleep", "thread scheduler", "disk faults"]

UNPARSABLE = ["foo: [unclosed\n", "a: b: c\n", "package:\n  name: {{ b\n", "package:\n  name: @x\n", "build:\n  number: *missing\n"]
BAD_NUMBERS = ["{{ build }}", "abc", "1.5", "true", "", "0x", "one", "1.0.0"]


def gen(rng: random.Random, tier: str, i: int) -> dict:
    mode = rng.choices(["net", "net-multi", "read", "undecodable", "parse", "no-build", "number", "inapplicable", "usage",
                        "tmp-disk", "dry", "missing"], [6, 8, 3, 1, 2, 2, 3, 2, 3, 3, 4, 1])[0]
    n = {"net": 1, "net-multi": rng.choice([2, 3, 4, 6])}.get(mode)
    if mode == "tmp-disk":
        n = rng.choice([1, 1, 2])
    while True:
        spec = R.add_hashkey(rng, R.gen(rng, n_sources=n))
        if mode not in ("net", "net-multi", "tmp-disk") or any(s["t"] == "http" for s in spec["sources"]):
            break
    if mode == "inapplicable":
        spec["ver_in"] = "none"
    state = R.initial_state(rng, spec)
    target = R.version(rng, state["version"])
    net: dict = {}
    urls = [u for u in R.urls(spec, target) if u]
    doomed = []
    if mode in ("net", "net-multi"):
        doomed = rng.sample(urls, rng.randrange(1, len(urls) + 1)) if urls else []
        for u in urls:
            B.add_urls(rng, net, [u], (lambda r: 5) if u in doomed else (lambda r: r.choice([0, 0, 1, 4])))
            if u in doomed and rng.random() < 0.5:
                net[u] = [net[u][0]]  # the same failure every time
    else:
        B.add_urls(rng, net, urls, lambda r: r.choice([0, 0, 0, 2]))
    args = ["-t", target]
    if rng.random() < 0.2:
        args.append("-b")
    if mode in ("read", "undecodable", "parse", "no-build", "missing") and rng.random() < 0.5 or mode == "number":
        args = ["-b"] if rng.random() < 0.7 else ["-b", "-t", target]
    if rng.random() < 0.5:
        args += ["-i", str(rng.choice([0.01, 1, 30, 100]))]
    if mode == "dry" or rng.random() < 0.2:
        args.append("-d")
    plan = {"mode": mode, "spec": spec, "state": state, "target": target, "net": net, "args": args,
            "doomed": sorted(set(doomed)), "cpus": rng.choice([1, 2, 4, 16])}
    if mode == "read":
        plan["disk"] = [{"op": rng.choice(["open-r", "read"]), "glob": "work/*", "nth": 1,
                         "kind": rng.choice(["eio", "eacces", "emfile", "enoent"]), "sticky": True}]
        if plan["disk"][0]["op"] == "read":
            plan["disk"][0]["kind"] = "eio"
    if mode == "tmp-disk":
        plan["disk"] = [{"op": rng.choice(["open-w", "write", "mkdir", "open-r", "read"]), "glob": "tmp/crm_artifact_fetcher*", "nth": 1,
                         "kind": rng.choice(["enospc", "eio", "edquot", "erofs"]), "sticky": True}]
    if mode == "parse":
        plan["text"] = rng.choice(UNPARSABLE)
    if mode == "number":
        plan["bad"] = rng.choice(BAD_NUMBERS)
    if mode == "usage":
        plan["usage"] = rng.choice([[], ["-d"], ["-t", ""], ["-b", "-t", ""], ["-t", "1", "-i", "0"], ["-b", "-i", "-3"],
                                    ["-b", "-i", "abc"], ["-b", "--no-such-flag"], ["-i", "5"]])
    return plan


def run(plan, sim, env):
    mode, spec, state = plan["mode"], plan["spec"], plan["state"]
    text = R.text(spec, state)
    args = list(plan["args"])
    want = None
    if mode == "parse":
        text, want = plan["text"], 102
    elif mode == "undecodable":
        text, want = b"package:\n  name: caf\xe9\n\nbuild:\n  number: 0\n", 5
    elif mode == "read":
        want = 5
    elif mode == "no-build":
        lines = text.split("\n")
        at = lines.index("build:")
        end = at + 1
        while end < len(lines) and lines[end].startswith(" "):
            end += 1
        text, want = "\n".join(lines[:at] + lines[end + 1:]), 106
        if spec["build"] and not text.strip():
            return
    elif mode == "number":
        lines = [ln for ln in text.split("\n") if not ln.startswith("  number:")]
        at = lines.index("build:")
        lines.insert(at + 1, f"  number: {plan['bad']}".rstrip())
        text, want = "\n".join(lines), 106
    elif mode == "inapplicable":
        # nowhere to put a version: no variable and no /package section
        lines = text.split("\n")
        at = lines.index("package:")
        del lines[at:at + 3]
        text, want = "\n".join(lines), 107
    elif mode == "usage":
        args, want = list(plan["usage"]), 2
    elif mode == "missing":
        want = 2
    elif mode in ("net", "net-multi", "tmp-disk"):
        want = 108
        if mode == "tmp-disk" and plan["disk"][0]["op"] == "mkdir":
            want = 5  # not even the temporary directory of an artifact can be made
    elif mode == "dry":
        want = 0
    path = env.put(B.RECIPE, text)
    if mode == "missing":
        path += ".not-there"
    env.put("work/other.txt", "bystander\n")
    before = env.tree("work")
    fs = env.disk()
    net, blobs = B.serve(env, plan["net"])
    urls = [u for u in R.urls(spec, plan["target"]) if u]
    if mode in ("net", "net-multi"):
        if not any(B.fail_count(plan["net"], u) >= 5 for u in urls):
            return  # (only a shrunk plan)
    if mode == "tmp-disk" and (not urls or all(B.fail_count(plan["net"], u) >= 5 for u in urls)):
        return
    if mode == "tmp-disk" and "-t" not in args:
        return
    if mode == "inapplicable" and "-t" not in args:
        return
    res = env.cli(["bump-recipe", *args, path])
    after = env.tree("work")
    env.check(res.exc is None, "traceback", f"{mode}: bump-recipe raised {res.exc_name}: {res.exc}")
    env.check(after == before, "files-changed",
              f"{mode}: exit {res.code}, changed: {[k for k in set(before) | set(after) if before.get(k) != after.get(k)]}")
    env.check(not [m for m in fs.mut_log if " work" in m and "open-r" not in m] or "-d" not in args or mode != "dry",
              "dry-run-mutates", f"a dry run touched the disk: {[m for m in fs.mut_log if ' work' in m][:3]}")
    if mode in ("net", "net-multi", "tmp-disk", "dry"):
        # an inapplicable or unreadable recipe never gets here; a failed download always must
        pass
    env.check(res.code == want, "exit-code", f"{mode}: exit {res.code}, documented is {want}; args {args}; {res.tail()}")
    env.check("Traceback (most recent call last)" not in res.err, "traceback", "a traceback reached the user")
    if want:
        env.check(res.err.strip() or res.out.strip(), "silent-failure", f"{mode}: exit {res.code} without any message")
    env.note(mode, res.code, sorted(net.hits.items()), len(fs.mut_log))
    env.sample = f"mode={mode} args={args[:3]} exit={res.code} requests={len(net.log)}"
