"""C03: retries of a download: number, spacing, overlap and bounded waiting, on the simulated clock."""

import random

from dst import bumplib as B, recipes as R

COUNTS = {"quick": 1500, "thorough": 40000}
RULE = (
    "One run = one seeded recipe whose sources fail 0-5 times with mixed fault kinds before (possibly) serving, a retry "
    "interval, and a seeded schedule; checked against an event model on the simulated clock. Non-trivial: at least one "
    "attempt failed. Distinct by (interleaving, outcome)."
)
REAL = ["crm bump-recipe CLI", "retry loop", "artifact fetchers", "ThreadPoolExecutor", "requests/urllib3"]
STUB = ["HTTPAdapter.send (servers)", "clock and sleep (simulated time)", "thread scheduler"]
EPS = 2e-5


def gen(rng: random.Random, tier: str, i: int) -> dict:
    while True:
        spec = R.add_hashkey(rng, R.gen(rng, n_sources=rng.choice([1, 1, 2, 2, 3, 4, 6])))
        if any(s["t"] == "http" for s in spec["sources"]):
            break
    state = R.initial_state(rng, spec)
    target = R.version(rng, state["version"])
    net: dict = {}
    mode = rng.choice(["transient", "transient", "edge", "doomed"])
    f = {"transient": lambda r: r.randrange(0, 5), "edge": lambda r: r.choice([0, 4]), "doomed": lambda r: r.choice([0, 3, 5, 5])}[mode]
    for u in R.urls(spec, target):
        if u:
            B.add_urls(rng, net, [u], f)
    args = ["-t", target]
    interval = 30.0
    if rng.random() < 0.8:
        interval = rng.choice([0.001, 0.5, 1, 2.5, 10, 30, 31, 600, 86400])
        args += [rng.choice(["-i", "--retry-interval"]), str(interval)]
    return {"spec": spec, "state": state, "target": target, "net": net, "args": args, "interval": interval,
            "cpus": rng.choice([1, 2, 4, 16]),
            "clock_jumps": [[rng.choice([0.5, 30, 200]), rng.choice([-5000, 3600, -1])]] if rng.random() < 0.3 else []}


def run(plan, sim, env):
    spec, state, target, interval = plan["spec"], plan["state"], plan["target"], plan["interval"]
    before = R.text(spec, state)
    path = env.put(B.RECIPE, before)
    env.disk()
    net, blobs = B.serve(env, plan["net"])
    urls = {i: u for i, u in enumerate(R.urls(spec, target)) if u}
    distinct = sorted(set(urls.values()))
    fails = {u: min(5, B.fail_count(plan["net"], u)) for u in distinct}
    res = env.cli(["bump-recipe", *plan["args"], path])
    elapsed = sim.now_us / 1e6
    env.check(res.exc is None, "traceback", f"bump-recipe raised {res.exc_name}: {res.exc}")
    shared = len(distinct) != len(urls)
    for e in net.log:
        env.check(e["timeout"] is not None, "no-timeout", f"{e['url']} was requested without a timeout")
    doomed = [u for u in distinct if fails[u] >= 5]
    chains = {}
    for u in distinct:
        starts = [k for k, e in enumerate(net.log) if e["url"] == u]
        if shared:
            continue
        env.check(len(starts) <= 5, "too-many-attempts", f"{u} was requested {len(starts)} times")
        family = (u, u + "?again", u.replace("://", "://cdn.", 1) + "?sig=1")
        ends = []
        for n, k in enumerate(starts):
            nxt = starts[n + 1] if n + 1 < len(starts) else len(net.log)
            ends.append(max(e["end"] for e in net.log[k:nxt] if e["url"] in family))
        at = [net.log[k]["at"] for k in starts]
        for n in range(1, len(starts)):
            gap = at[n] - ends[n - 1]
            env.check(abs(gap - n * interval) <= EPS + 1e-6 * n * interval, "back-off",
                      f"{u}: attempt {n + 1} came {gap:.6f} s after failed attempt {n}; interval {interval}")
        if not doomed:
            env.check(len(starts) == fails[u] + 1, "attempts",
                      f"{u}: {len(starts)} attempts, the source fails {fails[u]} times")
        elif len(doomed) == 1 and u in doomed:
            env.check(len(starts) == 5, "gave-up-early", f"{u}: gave up after {len(starts)} attempts")
        if starts:
            failed = u in doomed
            chains[u] = ends[-1] - at[0] + (5 * interval if failed else 0)
    if not shared and len(distinct) <= 4 and chains:
        bound = max(chains.values())
        env.check(elapsed <= bound * (1 + 1e-6) + EPS * 20, "no-overlap",
                  f"took {elapsed:.3f} s; the slowest source alone needs {bound:.3f} s ({chains})")
    got = (env.get(B.RECIPE) or b"").decode()
    if doomed:
        env.check(res.code == 108, "exit-code", f"exit {res.code} although {doomed} failed five times")
        env.check(got == before, "recipe-changed", "a failed bump changed the recipe")
    else:
        env.check(res.code == 0, "transient-failure-fatal",
                  f"exit {res.code} although every source recovers within four failures {fails}; {res.tail()}")
        shas = {i: B.served_sha(plan["net"], blobs, u) for i, u in urls.items()}
        want = R.text(spec, R.apply_bump(spec, state, False, target, shas))
        env.check(got == want, "recipe-text", f"recipe differs from the fault-free one: {B.first_diff(want, got)}")
    env.nontrivial = any(fails.values())
    env.note(sorted(fails.values()), interval, res.code, [e["kind"] for e in net.log])
    env.sample = f"failures per source {sorted(fails.values())}, interval {interval}, elapsed {elapsed:.1f} simulated s"
