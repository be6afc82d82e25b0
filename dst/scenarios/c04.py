"""C04: histories of bumps (real, dry, failing, build-number only) against a line-level reference model."""

import random

from dst import bumplib as B, recipes as R

COUNTS = {"quick": 1400, "thorough": 40000}
RULE = (
    "One run = one seeded canonical recipe and a history of 1-6 bumps (version, build number, dry runs, bumps that fail on "
    "the network), each under a seeded schedule; after every step the file must equal the model's text byte for byte. "
    "Distinct by (interleaving, outcome)."
)
REAL = ["crm bump-recipe CLI", "RecipeParser parse/patch/render", "artifact fetchers", "ThreadPoolExecutor"]
STUB = ["HTTPAdapter.send (servers)", "clock and sleep", "thread scheduler"]
ASSUMPTIONS = ["Recipes are in the parser's canonical layout (parse + render is the identity on them)."]


def gen(rng: random.Random, tier: str, i: int) -> dict:
    spec = R.add_hashkey(rng, R.gen(rng))
    if spec["schema"] == 0 and spec["ver_in"] == "var" and rng.random() < 0.04:
        spec["set_expr"] = rng.choice(["version.split('.')[0]", "name|upper", "environ.get('MAJOR', 1)"])
    state = R.initial_state(rng, spec)
    net: dict = {}
    ops = []
    cur = state["version"]
    for k in range(rng.choice([1, 1, 2, 3, 4, 6])):
        kind = rng.choices(["b", "t", "bt", "fail"], [4, 6, 1, 1])[0]
        op = {"k": kind, "dry": rng.random() < 0.25}
        if kind != "b":
            op["t"] = R.version(rng, cur if rng.random() < 0.9 else "")
            urls = R.urls(spec, op["t"])
            if kind == "fail":
                fresh = [u for u in urls if u and u not in net]
                if fresh:
                    u = rng.choice(fresh)
                    B.add_urls(rng, net, [u], lambda r: 5)
                    net[u] = [net[u][0]]
                op["k"] = "t"
            B.add_urls(rng, net, urls, lambda r: r.choice([0, 0, 0, 0, 1, 3]))
            if not op["dry"]:
                cur = op["t"]
        ops.append(op)
    return {"spec": spec, "state": state, "net": net, "ops": ops, "cpus": rng.choice([1, 4]),
            "short_io": rng.randrange(1 << 30) if rng.random() < 0.2 else None}


def run(plan, sim, env):
    spec, state = plan["spec"], plan["state"]
    text = R.text(spec, state)
    path = env.put(B.RECIPE, text)
    env.disk()
    net, blobs = B.serve(env, plan["net"])
    for n, op in enumerate(plan["ops"]):
        args = ["bump-recipe"]
        build = "b" in op["k"]
        if build:
            args.append("-b")
        target = op.get("t")
        if target is not None:
            args += ["--target-version" if n % 2 else "-t", target]
        if op["dry"]:
            args.append("--dry-run")
        args += ["-i", "0.5"]
        if target is not None and target.startswith("-"):
            continue
        shas, fails = {}, False
        if target is not None:
            for i, u in enumerate(R.urls(spec, target)):
                if u:
                    shas[i] = B.served_sha(plan["net"], blobs, u)
                    fails = fails or shas[i] is None
        res = env.cli([*args, path])
        env.check(res.exc is None, "traceback", f"step {n}: bump-recipe raised {res.exc_name}: {res.exc}")
        got = (env.get(B.RECIPE) or b"").decode()
        what = f"step {n} ({'-b ' if build else ''}{'-t ' + target if target else ''}{' dry' if op['dry'] else ''})"
        if fails:
            env.check(res.code != 0, "failure-ignored", f"{what}: exit 0 although a source never served an archive")
            env.check(got == text, "failed-bump-wrote", f"{what}: {B.first_diff(text, got)}")
            env.note("fail", res.code)
            continue
        env.check(res.code == 0, "bump-failed", f"{what}: exit {res.code}; {res.tail()}")
        new = R.apply_bump(spec, state, build, target, shas)
        want = R.text(spec, new)
        shown = res.out if op["dry"] else got
        if spec["set_expr"]:
            quoted = want.replace(f"= {spec['set_expr']} %}}", f'= "{spec["set_expr"]}" %}}')
            if shown in (quoted, quoted + "\n"):
                env.check(False, "expression-variable-quoted", f"{what}: `{{% set major = {spec['set_expr']} %}}` was quoted")
        if op["dry"]:
            env.check(got == text, "dry-run-wrote", f"{what}: {B.first_diff(text, got)}")
            env.check(res.out in (want, want + "\n"), "dry-run-text", f"{what}: printed text differs from a real run: {B.first_diff(want, res.out)}")
        else:
            env.check(got == want, "unrelated-change" if B.sha_lines(got) == B.sha_lines(want) else "wrong-value",
                      f"{what}: {B.first_diff(want, got)}")
            state, text = new, want
        env.note("ok", build, target, op["dry"])
    env.sample = f"history {[(o['k'], o.get('t'), o['dry']) for o in plan['ops']]} on a {'V0' if spec['schema'] == 0 else 'V1'} recipe"
