"""C23: editing sessions that hop between simulated worker processes against one that stays."""

import multiprocessing
import random

from dst import docs as D, session as S

COUNTS = {"quick": 900, "thorough": 26000}
RULE = (
    "One run = one recipe and 2-10 seeded edits in 1-5 stretches; each stretch is made by a session that stays, and by 1-3 copies sent to "
    "simulated worker processes (pickle round trip of arguments and results) that return the edited recipe, which hops on. Answers of all readers here and "
    "there, results, raised exceptions, dependency listings, conversions and their messages are compared. Distinct by (interleaving, outcome)."
)
REAL = ["pickling of recipes, dependencies, selectors, messages, results and exceptions", "RecipeParserDeps", "RecipeParserConvert"]
STUB = ["multiprocessing.Pool (pickles for real, workers share one interpreter)", "conda MatchSpec stand-in"]
ASSUMPTIONS = ["worker processes run the same code as their parent"]


SPECS = ["python", "numpy >=1.2,<3", "py-lib ==1.0", "zlib 1.2.*", "x 3 h1_0"]
MSGS = ["first", "second", "", "with\nlines", "ünï", "first ", "%s {} \\"]


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema)
    doc = D.load(text)
    es = S.edits(rng, doc, schema, rng.choice([2, 4, 6, 10]))
    ops = []
    while es:
        n = rng.randrange(1, 5)
        ops.append({"edits": es[:n], "hop": rng.random() < 0.75, "copies": rng.choice([1, 1, 2, 3])})
        es = es[n:]
    return {"text": text, "ops": ops, "cpus": rng.choice([1, 2, 4]), "convert": rng.random() < 0.4, "bad": rng.choice(S.BAD_PATCHES),
            "msgs": [[rng.randrange(3), rng.choice(MSGS)] for _ in range(rng.randrange(0, 7))], "deps": [[rng.choice(SPECS), rng.choice(["", "[win]", "[not win and py<38]"])] for _ in range(rng.randrange(0, 4))]}


def shrink(plan):
    for j, o in enumerate(plan["ops"]):
        if o["copies"] > 1:
            yield {**plan, "ops": plan["ops"][:j] + [{**o, "copies": 1}] + plan["ops"][j + 1:]}
        for k in range(len(o["edits"])):
            yield {**plan, "ops": plan["ops"][:j] + [{**o, "edits": o["edits"][:k] + o["edits"][k + 1:]}] + plan["ops"][j + 1:]}


def flags(p):
    return [p.is_modified(), p.diff(), str(p)]


def table_answers(t):
    from conda_recipe_manager.types import MessageCategory

    return [[c.name, list(t.get_messages(c)), t.get_message_count(c)] for c in MessageCategory] + [t.get_totals_message()]


def luggage(plan, env):
    """Messages, dependencies, selectors, sentinels and enumerations, sent there and back."""
    from conda_recipe_manager.grapher.types import PackageStats
    from conda_recipe_manager.parser.dependency import Dependency, DependencySection, dependency_data_from_str, dependency_data_render_as_str
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.types import SchemaVersion
    from conda_recipe_manager.scanner.dependency.base_dep_scanner import new_project_dependency
    from conda_recipe_manager.types import MessageCategory, MessageTable, SentinelType

    t = MessageTable()
    cats = list(MessageCategory)
    for c, m in plan["msgs"]:
        t.add_message(cats[c], m)
    deps = [Dependency("pkg", f"/requirements/run/{n}", DependencySection.RUN, dependency_data_from_str(d), SelectorParser(s, SchemaVersion.V0) if s else None) for n, (d, s) in enumerate(plan["deps"])]
    proj = {new_project_dependency(d, DependencySection.TESTS) for d, _ in plan["deps"]}
    st = PackageStats(recipes_failed_to_parse={m for _, m in plan["msgs"]}, total_parsed_recipes=len(plan["msgs"]), total_recipes=7)
    with multiprocessing.Pool(plan["cpus"]) as pool:
        t2, deps2, proj2, st2, sentinel, cat = pool.map(S.remote_same, [t, deps, proj, st, SentinelType(), cats])
    env.check(table_answers(t2) == table_answers(t), "messages", f"messages arrive as {table_answers(t2)}, sent {table_answers(t)}")
    for c, m in plan["msgs"]:
        t.add_message(cats[c], m)
        t2.add_message(cats[c], m)
    env.check(table_answers(t2) == table_answers(t), "messages", f"messages added to a table that travelled: {table_answers(t2)}, expected {table_answers(t)}")

    def show(ds):
        return [[d.required_by, d.path, d.type, dependency_data_render_as_str(d.data), d.selector.render() if d.selector else None, d.selector.get_selected_platforms() if d.selector else None] for d in ds]

    env.check(show(deps2) == show(deps) and [d.data for d in deps2] == [d.data for d in deps], "dependency", f"dependencies arrive as {show(deps2)}, sent {show(deps)}")
    env.check(proj2 == proj, "dependency", f"project dependencies arrive as {proj2}, sent {proj}")
    env.check(st2 == st, "statistics", f"graph statistics arrive as {st2}, sent {st}")
    env.check(sentinel is SentinelType() and cat == cats and all(a is b for a, b in zip(cat, cats)), "identity", "a sentinel or category arrives as something else")


def run(plan, sim, env):
    luggage(plan, env)
    a = S.parser(plan["text"])
    b = S.parser(plan["text"])
    hops = 0
    for n, o in enumerate(plan["ops"]):
        where = f"stretch {n}"
        ra = [S.perform(a, e) for e in o["edits"]]
        want, wflags = S.record(a), flags(a)
        if not o["hop"]:
            rb = [S.perform(b, e) for e in o["edits"]]
            env.check(ra == rb, "result", f"{where}: the session that stayed reports {ra}, the one that travelled before {rb}")
            copies = [b]
        else:
            hops += 1
            untouched, uflags = S.record(b), flags(b)
            with multiprocessing.Pool(plan["cpus"]) as pool:
                back = pool.starmap(S.remote, [(b, o["edits"])] * o["copies"])
            d = S.differs(untouched, S.record(b))
            env.check(not d and flags(b) == uflags, "sender-changed", f"{where}: sending a recipe to a worker changed it; {d}")
            for p, rb, there, tflags in back:
                env.check(ra == rb, "result", f"{where}: the session that stayed reports {ra}, the worker {rb}")
                d = S.differs(want, there)
                env.check(not d, "worker-answers", f"{where}: answers in the worker differ; {d}")
                env.check(tflags == wflags, "worker-flags", f"{where}: flag, diff or tree in the worker differ: {[(x, y) for x, y in zip(wflags, tflags) if x != y][:1]}")
            copies = [x[0] for x in back]
        for p in copies:
            d = S.differs(want, S.record(p))
            env.check(not d, "answers", f"{where}: the recipe that travelled answers differently; {d}")
            env.check(flags(p) == wflags, "flags", f"{where}: flag, diff or tree differ: {[(x, y) for x, y in zip(wflags, flags(p)) if x != y][:1]}")
            env.check(p == a and a == p, "equality", f"{where}: the recipe that travelled is not equal to the one that stayed")
        b = copies[-1]

    with multiprocessing.Pool(plan["cpus"]) as pool:
        there = pool.map(S.remote_deps, [b])[0]
        here = S.remote_deps(a)
        env.check(there == here, "dependencies", f"dependencies listed by a worker differ: {there!r} != {here!r}")
        if isinstance(here, dict):
            show, far = S.dep_list(here), S.dep_list(there)
            env.check(far == show, "dependencies", f"dependencies listed by a worker {far} differ from {show}")
        try:
            S.remote_raise(S.parser(a.render()), plan["bad"])
            mine = None
        except Exception as x:  # noqa: BLE001
            mine = x
        try:
            pool.starmap(S.remote_raise, [(b, plan["bad"])])
            theirs = None
        except Exception as x:  # noqa: BLE001
            theirs = x
        env.check(type(mine) is type(theirs) and str(mine) == str(theirs), "exception", f"a worker's exception arrives as {theirs!r} ({theirs}), locally it is {mine!r} ({mine})")
        if plan["convert"] and "schema_version: 1" not in plan["text"]:
            c, there = pool.map(S.remote_convert, [a.render()])[0]
            here = S.remote_convert(a.render())[1]
            env.check(there == here, "conversion", "a conversion made by a worker differs from a local one")
            env.check(S.converted(c) == here, "conversion", "a converter that travelled converts differently")
    env.nontrivial = hops > 0
    env.note(hops, [o["copies"] for o in plan["ops"]], a.calc_sha256()[:8])
    env.sample = f"{hops} hops"
