"""C01: every checksum of a bumped recipe belongs to its own source, under any schedule, latency and transient faults."""

import random

from dst import bumplib as B, recipes as R

COUNTS = {"quick": 1400, "thorough": 30000}
RULE = (
    "One run = one seeded recipe (V0/V1, 0-6 sources, checksum in place/missing/in a variable), one target version, a "
    "simulated server per URL (old and new version URLs serve different archives) and one seeded schedule of the "
    "download threads. Non-trivial: at least one HTTP source was downloaded; distinct by (interleaving, outcome)."
)
REAL = ["crm bump-recipe CLI", "RecipeParser", "artifact fetchers", "ThreadPoolExecutor/as_completed", "requests",
        "urllib3 response", "tarfile/zipfile", "tempfile"]
STUB = ["HTTPAdapter.send (servers)", "clock and sleep", "thread scheduler", "disk operations (seeded pass-through)"]


def gen(rng: random.Random, tier: str, i: int) -> dict:
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6]) if i % 10 else None
    spec = R.add_hashkey(rng, R.gen(rng, n_sources=n))
    http = [s for s in spec["sources"] if s["t"] == "http"]
    if len(http) > 1 and rng.random() < 0.12:
        # one archive that is unpacked to two places
        a, b = rng.sample(http, 2)
        b["url"] = list(a["url"])
    state = R.initial_state(rng, spec)
    target = R.version(rng, state["version"])
    net: dict = {}
    mode = rng.choice(["clean", "some", "some", "heavy"])
    fails = {"clean": lambda r: 0, "some": lambda r: r.choice([0, 0, 0, 1, 2]), "heavy": lambda r: r.randrange(0, 5)}[mode]
    B.add_urls(rng, net, R.urls(spec, target), fails)
    # the previous release is still being served
    B.add_urls(rng, net, R.urls(spec, state["version"]), lambda r: 0, redirects=False)
    if rng.random() < 0.1:
        # mirrors: two sources serve identical bytes
        urls = [u for u in R.urls(spec, target) if u]
        if len(urls) > 1 and B.kind_of(urls[0]) == B.kind_of(urls[1]):
            for b in net[urls[0]] + net[urls[1]]:
                if b.get("blob") in urls:
                    b["key"] = "mirror"
    args = ["-t", target]
    if rng.random() < 0.25:
        args.append("-b")
    if rng.random() < 0.5:
        args += ["-i", str(rng.choice([0.01, 1, 5, 30, 600]))]
    if rng.random() < 0.15:
        args.append("-d")
    return {"spec": spec, "state": state, "target": target, "net": net, "args": args, "cpus": rng.choice([1, 2, 4, 16]),
            "short_io": rng.randrange(1 << 30) if rng.random() < 0.3 else None}


def run(plan, sim, env):
    spec, state, target = plan["spec"], plan["state"], plan["target"]
    before = R.text(spec, state)
    path = env.put(B.RECIPE, before)
    env.disk()
    net, blobs = B.serve(env, plan["net"])
    urls = R.urls(spec, target)
    shas = {i: B.served_sha(plan["net"], blobs, u) for i, u in enumerate(urls) if u}
    dry = "-d" in plan["args"]
    res = env.cli(["bump-recipe", *plan["args"], path])
    env.check(res.exc is None, "traceback", f"bump-recipe raised {res.exc_name}: {res.exc}")
    must_fail = any(v is None for v in shas.values()) or any(B.fail_count(plan["net"], u) >= 5 for u in urls if u)
    if must_fail:
        env.check(res.code != 0, "failed-download-ignored", f"exit 0 although a source never served an archive: {shas}")
        env.nontrivial = False
        return
    env.check(res.code == 0, "bump-failed", f"exit {res.code} although every source is available; {res.tail()}")
    want_state = R.apply_bump(spec, state, "-b" in plan["args"], target, shas)
    want = R.text(spec, want_state)
    got = res.out[:-1] if dry else (env.get(B.RECIPE) or b"").decode()
    if got != want:
        env.check(B.sha_lines(got) == B.sha_lines(want), "wrong-checksum",
                  f"checksums after bump to {target}: {B.first_diff(want, got)}; served {shas}")
        env.check(False, "recipe-text", f"recipe after bump to {target}: {B.first_diff(want, got)}")
    if dry:
        env.check((env.get(B.RECIPE) or b"").decode() == before, "dry-run-wrote", "a dry run changed the recipe")
    # only the new version's URLs may have been asked
    wanted = {u for u in urls if u}
    asked = {e["url"] for e in net.log}
    env.check(wanted <= asked, "source-not-downloaded", f"never requested: {sorted(wanted - asked)}")
    env.nontrivial = bool(shas)
    env.note(len(shas), spec["schema"], spec["single"], bool(spec["shavar"]), [e["url"] for e in net.log])
    env.sample = f"sources={[s['t'] for s in spec['sources']]} target={target} requests={len(net.log)} exit={res.code}"
