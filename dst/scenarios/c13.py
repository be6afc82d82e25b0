"""C13: graph edges match the dependencies, and no history of queries corrupts the graph or crashes the shell."""

import json
import os
import random
import re

from dst import graphlib as G
from dst.scenarios import c12

COUNTS = {"quick": 3000, "thorough": 60000}
RULE = (
    "One run = one collection of 1..10 recipes and one seeded history of 1..25 queries, typed at the `crm graph` prompt or made through the "
    "library, with plot failures, interrupts and end of input at seeded points, checked query by query against an independent model. "
    "Distinct by (collection, history)."
)
REAL = ["crm graph shell", "RecipeGraphFromDisk", "RecipeReaderDeps", "networkx traversal"]
STUB = ["plotting back end (recorder with seeded failures)", "stdin", "multiprocessing.Pool", "enumeration order", "conda MatchSpec stand-in"]

BAD = ["", "   ", "plot", "plot build", "plot build depends", "plot build depends pkga pkgb", "stats now", "help me", "foo", "plot all", "plot  build", "exitt", "q q", "\x00", "plöt build all",
       "[", "plot build needed_by pkga", "--help", "plot run all", "plot BUILD_ all", "%s %d", "plot none depends python", "plot build sideways pkga"]


def _cmd(rng: random.Random) -> list:
    k = rng.choices(["all", "sub", "stats", "help", "bad"], [4, 8, 3, 1, 3])[0]
    if k == "all":
        return [k, rng.choice(["build", "test"]), rng.random() < 0.2]
    if k == "sub":
        n = rng.choice(G.NAMES) if rng.random() < 0.75 else rng.choice([*G.EXT, "nope", "build", "none"])
        return [k, rng.choice(["build", "test"]), rng.choice(["depends", "needed-by"]), n, rng.random() < 0.15]
    if k == "stats":
        return [k, rng.choice(["stats", "statistics", "STATS", " stats "])]
    if k == "help":
        return [k, rng.choice(["help", "h"])]
    if rng.random() < 0.3:
        a, b = rng.choice([("run", "depends"), ("none", "needed-by"), ("tests", "depends"), ("build", "needs"), ("test", "depend")])
        return [k, f"plot {a} {b} {rng.choice(G.NAMES)}"]
    return [k, rng.choice(BAD)]


def gen(rng, tier, i):
    files = []
    for k in range(rng.choice([1, 2, 3, 4, 6, 8, 10])):
        r = G.gen_recipe(rng)
        if r["kind"] == "dir":
            r["kind"] = "ok"
        files.append({"p": f"f{rng.randrange(100):02d}x{k}/{'recipe' if r['schema'] else 'meta'}.yaml", "r": r})
    ops = [_cmd(rng) for _ in range(rng.choice([1, 2, 4, 6, 10, 25]))]
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        how = rng.choice(["import", "os", "value", "mem", "intr"])
        faults.append({"nth": rng.randrange(1, 8), "at": rng.choice(["layout", "draw"]) if how != "intr" else "show", "how": how})
    return {"files": files, "ops": ops, "how": rng.choice(["shell", "shell", "api"]), "end": rng.choice(["q", "quit", "exit", "esc", "EXIT", "eof", "intr"]),
            "plotfaults": faults, "cpus": rng.choice([1, 2, 4]), "dirorder": rng.randrange(1 << 30)}


def shrink(plan):
    for j in range(len(plan["files"])):
        if len(plan["files"]) > 1:
            yield {**plan, "files": plan["files"][:j] + plan["files"][j + 1:]}
    if plan["plotfaults"]:
        yield {**plan, "plotfaults": []}


def typed(op):
    k = op[0]
    if k == "all":
        s = f"plot {op[1]} all"
        return s.upper() if op[2] else s
    if k == "sub":
        s = f"plot {op[1]} {op[2]} {op[3]}"
        return "  " + s.upper() + " " if op[4] else s
    return op[1]


def run(plan, sim, env):
    files = {}
    for f in plan["files"]:
        env.put(f"work/{f['p']}", G.text(f["r"]))
        files[f["p"]] = f["r"]
    before = env.tree("work")
    fs = env.disk()
    plots = G.Plots(sim, plan["plotfaults"] if plan["how"] == "shell" else [f for f in plan["plotfaults"] if f["how"] != "intr"])
    m = G.Model(files, set())
    root = os.path.join(env.root, "work")
    (api if plan["how"] == "api" else shell)(plan, sim, env, m, plots, root)
    env.check(env.tree("work") == before and not fs.mut_log, "modified", f"queries changed files: {fs.mut_log[:3]}")
    env.note(plan["how"], plan["end"], plan["ops"], len(m.edges["build"]), len(m.edges["test"]), plots.fired)
    env.sample = f"{plan['how']}: {len(plan['ops'])} queries over {len(m.packages)} packages, {plots.fired} failed plots"


def check_sub(env, m, g, direction, pkg, call, what):
    nodes, edges = call
    back = direction == "needed-by"
    want = m.reach(g, pkg, back)
    env.check(nodes == want, "sub-graph", f"{what}: shows {sorted(nodes)}, expected {sorted(want)}")
    legal = {(b, a) if back else (a, b) for a, b in m.edges[g]}
    env.check(edges <= legal, "sub-graph", f"{what}: invented edges {sorted(edges - legal)[:4]}")


def check_stats(env, m, st, root, what):
    failed = {os.path.relpath(p, root) for p in st["recipes_failed_to_parse"]}
    want = {"total_recipes": m.total, "total_parsed_recipes": m.parsed, "total_packages": len(m.packages)}
    for k, v in want.items():
        env.check(st[k] == v, "stats", f"{what}: {k} is {st[k]}, expected {v}")
    env.check(failed == m.failed and set(st["package_name_duplicates"]) == m.dups, "stats", f"{what}: {st}")
    env.check(len(st["recipes_failed_to_parse_dependencies"]) == len(m.dep_failed), "stats", f"{what}: {st}")


def api(plan, sim, env, m, plots, root):
    from dataclasses import asdict

    from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk
    from conda_recipe_manager.grapher.types import GraphDirection, GraphType

    g = RecipeGraphFromDisk(root)
    for n, op in enumerate(plan["ops"]):
        k, f0 = len(plots.calls), plots.fired
        what = f"query {n + 1} {op}"
        if op[0] in ("all", "sub"):
            t = GraphType(op[1])
            raised = None
            try:
                if op[0] == "all":
                    g.plot(t)
                else:
                    g.plot(t, GraphDirection.DEPENDS_ON if op[2] == "depends" else GraphDirection.NEEDED_BY, op[3])
            except Exception as e:  # noqa: BLE001
                raised = e
            if plots.fired > f0:
                env.check(raised is not None, "plot-error-hidden", f"{what}: the plot failed but the call returned")
            elif op[0] == "all":
                env.check(raised is None and plots.calls[k:] == [(m.nodes[op[1]], m.edges[op[1]])], "plot-all", f"{what}: raised {raised!r}, drew {plots.calls[k:]}")
            elif op[3] in m.nodes[op[1]]:
                env.check(raised is None and len(plots.calls) == k + 1, "plot-sub", f"{what}: raised {raised!r}")
                check_sub(env, m, op[1], op[2], op[3], plots.calls[k], what)
            else:
                env.check(raised is not None and len(plots.calls) == k, "plot-unknown", f"{what}: an unknown package was drawn")
        elif op[0] == "stats":
            check_stats(env, m, asdict(g.get_package_stats()), root, what)
        else:
            env.check(g.contains_package_name(op[1]) is False, "contains", f"{what}")
            env.check(bool(g) == (m.parsed > 0), "truthiness", f"{what}")
    plots.faults = {}
    c12.check_graph(env, g, m, plots, root, "after the history")


def shell(plan, sim, env, m, plots, root):
    from dst.env import _Stdin

    lines = [typed(op) + "\n" for op in plan["ops"]]
    end = plan["end"]
    if end == "intr":
        lines.append(_Stdin.INTR)
    elif end != "eof":
        lines.append(end + "\n")
    res = env.cli(["graph", root], stdin="".join(lines))
    env.check(res.exc is None and "Traceback (most" not in res.err, "shell-crash", f"the shell died with {res.exc_name}: {res.exc}; history {plan['ops']}; {res.tail()}")
    if m.parsed == 0:
        env.check(res.code == 2 and "== Main menu ==" not in res.out, "no-recipes", f"exit {res.code} without any readable recipe")
        return
    head, sep, rest = res.out.partition("== Main menu ==\n")
    env.check(sep != "", "no-menu", f"the menu never appeared: {res.out[-200:]!r} {res.tail()}")
    env.check(f"Failed to parse {len(m.failed)} out of {m.total} recipe files" in head, "banner", f"{head!r}, expected {len(m.failed)} of {m.total}")
    env.check(f"Failed to parse the dependencies from {len(m.dep_failed)} out of {m.parsed} recipe files" in head, "banner", f"{head!r}, expected {len(m.dep_failed)} of {m.parsed}")
    rates = [float(x) for x in re.findall(r"\(([0-9.]+)% success\)", head)]
    want = [100 * (1 - len(m.failed) / m.total), 100 * (1 - len(m.dep_failed) / m.parsed)]
    env.check(len(rates) == 2 and all(abs(a - b) < 0.011 for a, b in zip(rates, want)), "banner", f"{head!r}, expected success rates {want}")
    segs = rest.split("> ")[1:]
    # which plot calls each command must have caused
    calls, k, intr = plots.calls, 0, False
    count = 0
    for n, op in enumerate(plan["ops"]):
        what = f"command {n + 1} {typed(op)!r}"
        env.check(n < len(segs), "shell-stopped", f"{what} was never read; output ends {res.out[-200:]!r}; {res.tail()}")
        out = segs[n]
        if op[0] in ("all", "sub") and (op[0] == "all" or op[3] in m.packages):
            count += 1
            f = plots.faults.get(count)
            if f is not None:
                if f["at"] == "show":
                    k += 1
                    intr = True
                    break
                continue
            env.check(k < len(calls), "not-drawn", f"{what}: nothing was drawn")
            if op[0] == "all":
                env.check(calls[k] == (m.nodes[op[1]], m.edges[op[1]]), "plot-all", f"{what}: drew {calls[k]}, expected {m.edges[op[1]]}")
            else:
                check_sub(env, m, op[1], op[2], op[3], calls[k], what)
            k += 1
        elif op[0] == "sub":
            env.check(op[3] in out and "not found" in out, "unknown-package", f"{what} printed {out!r}")
        elif op[0] == "stats":
            try:
                st = json.loads(out)
            except ValueError:
                env.check(False, "stats", f"{what} printed {out!r}")
            check_stats(env, m, st, root, what)
        elif op[0] == "help":
            env.check("plot" in out and "stats" in out, "help", f"{what} printed {out!r}")
        else:
            env.check(out.strip() != "" and "Traceback" not in out, "bad-command", f"{what} printed nothing")
    env.check(k == len(calls), "unexpected-plot", f"{len(calls)} graphs drawn, {k} asked for")
    if intr or end == "intr":
        env.check(res.code in (0, 1, 130), "shell-exit", f"exit {res.code} after an interrupt")
    elif end == "eof":
        env.check(res.code in (0, 1), "shell-exit", f"exit {res.code} at end of input")
    else:
        env.check(res.code == 0, "shell-exit", f"exit {res.code} after {end!r}")
