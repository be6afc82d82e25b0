"""C07: fetching touches nothing outside its own temporary directory, and that directory never outlives its artifact."""

import os
import random

from dst import archives as A

COUNTS = {"quick": 3500, "thorough": 80000}
RULE = (
    "One run = one command or artifact session fed with hostile archives (absolute, parent-directory, link and device "
    "members, duplicate and odd names, odd modes), hostile URLs and package names, with network faults, disk faults or an "
    "interrupt at a seeded point. Distinct by (interleaving, outcome, members)."
)
REAL = ["HttpArtifactFetcher", "from_recipe", "crm bump-recipe CLI", "tarfile/zipfile", "tempfile", "ThreadPoolExecutor"]
STUB = ["HTTPAdapter.send (servers)", "clock", "thread scheduler", "disk faults", "Ctrl-C (raised at a seeded wait or disk operation of the main thread)"]
ASSUMPTIONS = [
    "Archives that only escape through published vulnerabilities of Python's own tarfile 'data' filter are out of scope; "
    "the generator does not build the multi-kilobyte link chains those need.",
]

N1 = ["x", "a/b", "dir/", "link/pwn", "link/../pwn", "link", "a/link/q", "../x", "../../x", "../../../outside/p", "../../outside/p",
      "../../../work/recipe.yaml", "$ROOT/outside/q", "/etc/crm_pwn", "a/../../b", "d/../../../outside/z", "./ok", "..", ".",
      "a/./../../../../outside/w", "a\\..\\..\\b", "//outside", "l" * 200, "é/ü", " ", "~/.x", "$HOME/x", "link2/deep/f", "../../keep.txt",
      "../../../tmp/keep.txt", "C:/x", "-rf", "link/../../../../outside/v", "outside"]
LINKS = ["..", "../..", "../../..", "$ROOT/outside", "$ROOT", "/etc", "/", ".", "link", "link2", "a/b", "a/../..", "../extracted",
         "../../../outside/secret.txt", "$ROOT/outside/secret.txt", "../../outside", "x", "link/..", "a/link"]
URLS = ["https://h/%s/src.tar.gz", "https://h/%s/..", "https://h/%s/.", "https://h/%s/", "https://h/%s/..%%2f..%%2fx", "https://h/%s/a;b.tar",
        "https://h/%s/%%2e%%2e/x.zip", "https://h/%s/x?file=../../y", "https://h/%s/x#../../z", "https://h/%s/" + "n" * 300,
        "https://h/%s", "https://h/%s/~root", "https://h/%s/..\\..\\x", "https://h/%s/src", "https://h/%s/-"]
NAMES = ["pkg", "../../evil", "/abs/evil", "a/b/c", "..", ".", "x" * 400, "sp ace", "ü", "-rf", "$(id)", "a\\b", "*"]
FAILS = ["refuse", "reset", "truncated", "reset-body", "stall", "status", "connect-timeout"]


def _member(rng: random.Random) -> dict:
    t = rng.choices(["f", "d", "s", "h", "p", "c", "b"], [8, 2, 6, 4, 1, 1, 1])[0]
    m = {"n": rng.choice(["link", "link2", "a/link", "lnk/x"]) if t == "s" and rng.random() < 0.7 else rng.choice(N1), "t": t}
    if t in "sh":
        m["l"] = rng.choice(LINKS) if t == "s" or rng.random() < 0.5 else rng.choice(N1 + ["link/secret.txt", "link/outside/secret.txt"])
    else:
        m["z"] = rng.choice([0, 3, 700])
        m["k"] = rng.randrange(1 << 20)
    if rng.random() < 0.4:
        m["m"] = rng.choice([0, 0o777, 0o4755, 0o2777, 0o1777, 0o200, 0o111, 0o7777])
    if rng.random() < 0.1:
        m["u"] = 1234
    return m


def _blob(rng: random.Random) -> dict:
    kind = rng.choice(["tar", "tar.gz", "tar.xz", "zip", "zip0"])
    if rng.random() < 0.25:
        ms = [{"n": "src/", "t": "d"}, {"n": "src/a.txt", "z": 100, "k": 1}, {"n": "src/b", "z": 2000, "k": 2}]
    else:
        ms = [_member(rng) for _ in range(rng.choice([1, 2, 3, 4, 6, 8]))]
        if rng.random() < 0.3:  # a good member before, so that something was extracted already
            ms.insert(0, {"n": "ok/first", "z": 50, "k": 3})
    b = {"kind": kind, "members": ms}
    if rng.random() < 0.1:
        b["damage"] = {"k": rng.choice(["cut", "flip", "zero"]), "x": round(rng.random(), 2), "s": rng.randrange(1 << 30)}
    return b


def gen(rng: random.Random, tier: str, i: int) -> dict:
    mode = rng.choices(["fetch", "bump"], [5, 3])[0]
    n = rng.choice([1, 1, 2, 3]) if mode == "bump" else rng.choice([1, 1, 2])
    blobs, net, urls = {}, {}, []
    for k in range(n):
        url = (rng.choice(URLS) if rng.random() < 0.4 else URLS[0]) % f"s{k}"
        urls.append(url)
        lst = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            bid = f"b{len(blobs)}"
            blobs[bid] = _blob(rng)
            b = {"kind": "ok", "blob": bid, "latency": rng.choice([0, 0.2, 3]), "piece": rng.choice([0, 0, 500])}
            if rng.random() < 0.25:
                b["kind"] = rng.choice(FAILS)
                b["status"] = 503
            lst.append(b)
        net[url] = lst
    plan = {"mode": mode, "urls": urls, "net": net, "blobs": blobs, "name": rng.choice(NAMES) if rng.random() < 0.4 else "pkg",
            "fetches": rng.choice([1, 1, 2, 3]), "cpus": rng.choice([1, 2, 4])}
    r = rng.random()
    if r < 0.2:
        plan["disk"] = [{"op": rng.choice(["open-w", "write", "mkdir", "symlink", "chmod", "open-r", "read", "scandir", "link", "utime"]),
                         "glob": "tmp/crm_artifact_fetcher*", "nth": rng.choice([1, 1, 2, 3, 5, 8]),
                         "kind": rng.choice(["enospc", "eio", "eacces", "emfile", "eperm"]), "sticky": rng.random() < 0.5}]
    elif r < 0.45:
        plan["intr"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25])
    if mode == "bump":
        plan["dry"] = rng.random() < 0.2
        plan["interval"] = rng.choice(["0.01", "1", "30"])
    return plan


def shrink(plan: dict):
    for b, d in plan["blobs"].items():
        for j in range(len(d["members"])):
            if len(d["members"]) > 1:
                yield {**plan, "blobs": {**plan["blobs"], b: {**d, "members": d["members"][:j] + d["members"][j + 1:]}}}
    if len(plan["urls"]) > 1:
        for j in range(len(plan["urls"])):
            yield {**plan, "urls": plan["urls"][:j] + plan["urls"][j + 1:]}


def run(plan, sim, env):
    from conda_recipe_manager.fetcher.exceptions import FetchError
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

    blobs = {}
    for bid, b in plan["blobs"].items():
        ms = [{**m, "n": m["n"].replace("$ROOT", env.root), **({"l": m["l"].replace("$ROOT", env.root)} if "l" in m else {})}
              for m in b["members"]]
        data = A.raw(b["kind"], ms)
        blobs[bid] = A.damage(data, b["damage"]) if b.get("damage") else data
    env.put("outside/secret.txt", "secret\n", 0o600)
    env.put("outside/deep/other.txt", "other\n")
    env.put("tmp/keep.txt", "keep\n")
    env.put("tmp/crm_artifact_fetcher_other/data", "someone else's\n")
    text = f"package:\n  name: {_quote(plan['name'])}\n  version: 1.0.0\n\nsource:\n"
    for u in plan["urls"]:
        text += f"  - url: \"{_esc(u)}\"\n    sha256: {'0' * 64}\n"
    text += "\nbuild:\n  number: 0\n"
    recipe = env.put("work/recipe.yaml", text)
    before = env.tree()
    fs = env.disk()
    env.network(plan["net"], blobs)
    sim.intr_at = plan.get("intr")
    outcome = []
    if plan["mode"] == "fetch":
        def session():
            for u in plan["urls"]:
                try:
                    f = HttpArtifactFetcher(plan["name"], u)
                except OSError:  # no room for the temporary directory itself
                    env.check(sum(x["fired"] for x in fs.faults), "constructor", f"no artifact object for {plan['name']!r} {u!r}")
                    outcome.append("no-temp")
                    continue
                for _ in range(plan["fetches"]):
                    try:
                        f.fetch()
                        outcome.append("ok")
                        p = str(f.get_path_to_source_code())
                        env.check(os.path.realpath(p).startswith(os.path.join(env.root, "tmp", "crm_artifact_fetcher_")),
                                  "source-path-outside", f"source code path {p} is outside the temporary area")
                    except FetchError:
                        outcome.append("err")
                del f  # falls out of scope: its directory must go at once, not only at interpreter exit
                if sim.intr_at is None and not fs.faults:
                    import gc

                    gc.collect()
                    left = [d for d in _listing(env) if d != "crm_artifact_fetcher_other"]
                    env.check(not left, "temp-left", f"temporary files remain after the artifact fell out of scope: {left}")

        try:
            session()
        except KeyboardInterrupt:
            outcome.append("intr")
    else:
        args = ["bump-recipe", "-t", "2.0.0", "-i", plan["interval"]] + (["-d"] if plan["dry"] else []) + [recipe]
        res = env.cli(args)
        env.check(res.exc is None or isinstance(res.exc, KeyboardInterrupt), "traceback", f"bump-recipe raised {res.exc_name}: {res.exc}")
        outcome.append(str(res.code))
        code = res.code
        del res
    sim.intr_at = None
    interrupted = bool(sim.faults.get("keyboard-interrupt"))
    env.quiesce()
    env.check(not fs.escapes, "escape", f"blocked access outside the scratch area: {fs.escapes[:3]}")
    own = "tmp/crm_artifact_fetcher_"
    ok_recipe = plan["mode"] == "bump" and not plan["dry"]
    for m in fs.mut_log:
        op, path = m.split(" ", 1)
        good = path.startswith(own) and not path.startswith("tmp/crm_artifact_fetcher_other") and ".." not in path.split("/")[:2]
        # a directory cannot be opened for writing: a URL ending in `..` fails without any effect
        good = good or op == "open-w" and os.path.isdir(os.path.join(env.root, path))
        # writing the recipe (and the helper file for that) is the command's own business
        good = good or ok_recipe and path.startswith("work/") and not path.startswith("work/x")
        env.check(good, "mutation-outside", f"{op} on {path} while fetching {plan['urls']}")
    after = env.tree()
    if ok_recipe:
        before.pop("work/recipe.yaml"), after.pop("work/recipe.yaml", None)
    left = [k for k in after if k.startswith(own) and not k.startswith("tmp/crm_artifact_fetcher_other")]
    env.check(not left, "temp-left", f"temporary files remain after the {'interrupted ' if interrupted else ''}{plan['mode']}: {left[:4]}")
    diff = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
    env.check(not diff, "outside-changed", f"changed outside the temporary directory: {diff[:5]}")
    env.check((os.stat(os.path.join(env.root, "outside/secret.txt")).st_mode & 0o7777) == 0o600, "outside-changed", "mode of a file outside changed")
    env.check(os.stat(os.path.join(env.root, "outside/secret.txt")).st_nlink == 1, "outside-changed", "a file outside got hard-linked")
    env.note(plan["mode"], outcome, interrupted, [(m["n"], m.get("t")) for b in plan["blobs"].values() for m in b["members"]])
    env.sample = f"mode={plan['mode']} outcome={outcome} intr={interrupted} members={[m['n'] for b in plan['blobs'].values() for m in b['members']][:4]}"


def _listing(env):
    return [n.rstrip("/") for n in env.tree("tmp") if n.startswith("crm_artifact_fetcher_") and n.count("/") == 1 and n.endswith("/")]


def _esc(s: str) -> str:
    return s.replace("\\", "\\\\").replace('"', '\\"')


def _quote(s: str) -> str:
    return '"' + _esc(s) + '"'
