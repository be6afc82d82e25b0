"""C12: the recipe graph is the same for every enumeration order, schedule and neighbour."""

import os
import random

from dst import graphlib as G

COUNTS = {"quick": 3000, "thorough": 60000}
RULE = (
    "One run = one recipe graph built from a seeded tree of 0..12 recipes (V0, V1, multi-output, duplicate packages, identical copies, broken, "
    "undecodable, unreadable) under a seeded enumeration order, worker count, schedule and hash seed, compared with an independent model; then "
    "built again under other orders and after one file changed. Distinct by (interleaving, graph)."
)
REAL = ["RecipeGraphFromDisk", "RecipeReaderDeps", "networkx", "pickling of parsed recipes"]
STUB = ["multiprocessing.Pool (in-process workers)", "disk faults and enumeration order", "plotting back end (recorder)", "conda MatchSpec stand-in"]

DIRS = ["{}", "{}/recipe", "{}/a/b/recipe", "feed stock {}", "ünï-{}", "Z{}", "_{}"]


def gen(rng: random.Random, tier, i):
    n = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12]) if rng.random() < 0.9 else 1
    files, disk = [], []
    for k in range(n):
        r = G.gen_recipe(rng)
        if files and rng.random() < 0.12:
            r = dict(rng.choice(files)["r"])  # an identical copy elsewhere
        d = rng.choice(DIRS).format(f"p{rng.randrange(100):02d}x{k}") if not (k == 0 and rng.random() < 0.1) else ""
        fn = ("recipe.yaml" if r["schema"] == 1 else "meta.yaml") if rng.random() < 0.93 else rng.choice(["recipe.yaml", "meta.yaml"])
        f = {"p": os.path.join(d, fn), "r": r}
        if r["kind"] not in ("dir", "broken", "undecodable") and rng.random() < 0.1:
            f["fault"] = True
            disk.append({"op": rng.choice(["open-r", "open-r", "read"]), "glob": f"work/{f['p']}", "nth": 1,
                         "kind": rng.choice(["eio", "eacces", "enoent", "emfile", "eperm"]), "sticky": True})
        files.append(f)
    return {"files": files, "disk": disk, "cpus": rng.choice([1, 2, 3, 4, 8]), "ncpu": rng.choice([0, 0, 1, 2, 5]), "dirorder": rng.randrange(1 << 30),
            "short_io": rng.choice([None, None, rng.randrange(1 << 30)]), "str": rng.random() < 0.5}


def shrink(plan):
    for j in range(len(plan["files"])):
        p = plan["files"][j]["p"]
        yield {**plan, "files": plan["files"][:j] + plan["files"][j + 1:], "disk": [d for d in plan["disk"] if d["glob"] != f"work/{p}"]}
    for j, f in enumerate(plan["files"]):
        if f["r"]["outs"]:
            yield {**plan, "files": plan["files"][:j] + [{**f, "r": {**f["r"], "outs": f["r"]["outs"][1:]}}] + plan["files"][j + 1:]}
        for s in f["r"]["deps"]:
            d = {k: v for k, v in f["r"]["deps"].items() if k != s}
            yield {**plan, "files": plan["files"][:j] + [{**f, "r": {**f["r"], "deps": d}}] + plan["files"][j + 1:]}


def check_graph(env, g, m, plots, root, what):
    from conda_recipe_manager.grapher.types import GraphType

    st = g.get_package_stats()
    c = env.check
    c(bool(g) == (m.parsed > 0), "truthiness", f"{what}: bool(graph) is {bool(g)} with {m.parsed} parsed recipes")
    failed = {os.path.relpath(os.path.join(os.getcwd(), p), root) for p in st.recipes_failed_to_parse}
    c(failed - m.dirs == m.failed, "failed-recipes", f"{what}: failed to parse {sorted(failed)}, expected {sorted(m.failed)}")
    c(st.total_recipes == m.parsed + len(failed) and st.total_parsed_recipes == m.parsed, "totals",
      f"{what}: {st.total_parsed_recipes} parsed of {st.total_recipes}, expected {m.parsed} of {m.total}")
    c(st.total_packages == len(m.packages), "package-count", f"{what}: {st.total_packages} packages, expected {sorted(m.packages)}")
    c(st.package_name_duplicates == m.dups, "duplicates", f"{what}: duplicates {sorted(st.package_name_duplicates)}, expected {sorted(m.dups)}")
    c(len(st.recipes_failed_to_parse_dependencies) == len(m.dep_failed), "dep-failures",
      f"{what}: {st.recipes_failed_to_parse_dependencies} recipes without dependencies, expected {[(r['name'], r['kind']) for r in m.dep_failed]}")
    for n in [*G.NAMES, *G.EXT, "nope"]:
        c(g.contains_package_name(n) == (n in m.packages), "contains", f"{what}: contains_package_name({n!r}) is {g.contains_package_name(n)}")
    for t in (GraphType.BUILD, GraphType.TEST):
        nodes, edges = G.graph_of(plots, g, t)
        want_e, want_n = m.edges[t.value], m.nodes[t.value]
        c(edges == want_e, "edges", f"{what}: {t.value} graph: missing {sorted(want_e - edges)[:4]}, extra {sorted(edges - want_e)[:4]}")
        c(nodes == want_n, "nodes", f"{what}: {t.value} graph: missing nodes {sorted(want_n - nodes)[:4]}, extra {sorted(nodes - want_n)[:4]}")


def run(plan, sim, env):
    from pathlib import Path

    from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk

    files, unread = {}, set()
    for f in plan["files"]:
        if f["r"]["kind"] == "dir":
            env.mkdir(f"work/{f['p']}")
        else:
            env.put(f"work/{f['p']}", G.text(f["r"]))
        files[f["p"]] = f["r"]
        if f.get("fault"):
            unread.add(f["p"])
    env.mkdir("work/empty")
    env.put("work/other.yaml", "package:\n  name: pkga\n")
    env.put("work/p/meta.yml", "package:\n  name: pkgb\n")
    before = env.tree("work")
    fs = env.disk()
    plots = G.Plots(sim)
    root = os.path.join(env.root, "work")

    def build():
        return RecipeGraphFromDisk(root if plan["str"] else Path(root), plan["ncpu"])

    m = G.Model(files, unread)
    check_graph(env, build(), m, plots, root, "first build")
    env.check(env.tree("work") == before and not fs.mut_log, "modified", f"building the graph changed files: {fs.mut_log[:3]}")
    # another order, then without the faults: only what the faults hid comes back
    check_graph(env, build(), m, plots, root, "second build")
    fs.enabled = False
    m2 = G.Model(files, set())
    check_graph(env, build(), m2, plots, root, "build without faults")
    ok = sorted(p for p in files if files[p]["kind"] == "ok")
    if ok:
        # break one file: only its own packages may change
        bad = ok[sim.rng.randrange(len(ok))]
        env.put(f"work/{bad}", b"\xff\xfe broken")
        check_graph(env, build(), G.Model(files, {bad}), plots, root, f"after breaking {bad}")
    env.nontrivial = len(files) > 1
    env.note(len(files), m.parsed, len(m.packages), sorted(m.edges["build"])[:5], sorted(m.dups), plan["ncpu"])
    env.sample = f"{len(files)} recipe files, {m.parsed} parsed, {len(m.packages)} packages, {len(m.edges['build'])}+{len(m.edges['test'])} edges"
