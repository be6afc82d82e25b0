"""C17: reader threads of one recipe preempted at seeded source lines; answers compared with a lone reader, returned data vandalised."""

import os
import random
import sys

from dst import core, docs as D, session as S, target

COUNTS = {"quick": 800, "thorough": 24000}
RULE = (
    "One run = one recipe in a state reached by 0-6 seeded edits, read by a lone reader (the reference), then by one thread making every "
    "read in seeded orders, destroying whatever mutable data it was given, then by 2-4 threads preempted at seeded lines inside the "
    "package. Every answer, the text, the flag and the diff equal the reference. Distinct by (interleaving, outcome)."
)
REAL = ["all public readers of RecipeReader, RecipeParser and RecipeReaderDeps", "parser and renderer"]
STUB = ["thread scheduling (line-level preemption by the simulator)", "conda MatchSpec stand-in"]
ASSUMPTIONS = ["preemption happens between source lines of conda_recipe_manager; writers do not run concurrently with readers"]
MAX_STEPS = 2_000_000
PKG = os.path.join(os.path.realpath(target.REPO), "conda_recipe_manager") + os.sep


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    text = D.recipe(rng, schema, rng.choice([0.1, 0.25, 0.5]))
    doc = D.load(text)
    extra = []
    if schema == 0:
        extra = rng.sample(["{% set parts = ['a', 'b'] %}", "{% set table = {'x': 1, 'y': [2]} %}", "{% set flag = True %}", "{% set n = 7 %}"], rng.randrange(0, 3))
    elif rng.random() < 0.5:
        extra = rng.sample(["  parts:\n    - a\n    - b", "  flag: true", "  n: 7", "  nothing: []", "  table: {}"], rng.randrange(1, 3))
    if schema == 0:
        text = "\n".join(extra + [text])
    else:
        text = text.replace("\n  version: ", "\n" + "\n".join(extra) + "\n  version: " if extra else "\n  version: ", 1)
    if rng.random() < 0.3:
        text += "\nextra2:\n  empty: []\n  other: {}\n  list:\n    - []\n" if rng.random() < 0.7 else "\nextra2:\n  only:\n    - 1\n"
    if rng.random() < 0.3:
        text += "\nextra3:\n" + "\n".join(rng.sample(["  flow: [a, [b, c], {d: [e]}]", "  map: {a: [b, {c: d}], e: 1}", "  members:\n    - {f: [g]}\n    - [h, [i]]\n    - j", "  pins: [zlib, 'x y']"], rng.randrange(1, 5))) + "\n"
    return {"text": text, "ops": S.edits(rng, doc, schema, rng.choice([0, 1, 3, 6]), 0.05), "threads": rng.choice([2, 2, 3, 4]), "reads": rng.choice([4, 8, 16]),
            "gap": rng.choice([1, 3, 10, 30, 100]), "rs": rng.randrange(1 << 30)}


def shrink(plan):
    for k in ("threads", "reads"):
        if plan[k] > 2:
            yield {**plan, k: plan[k] - 1}
            yield {**plan, k: max(2, plan[k] // 2)}


def vandalise(v):
    """Destroys data the API handed out."""
    if isinstance(v, dict):
        for x in list(v.values()):
            vandalise(x)
        v.clear()
        v["vandalised"] = ["vandalised"]
    elif isinstance(v, list):
        for x in v:
            vandalise(x)
        v[:] = ["vandalised", {"vandalised": 1}]
    elif isinstance(v, set):
        v.clear()


def raw_readers(p):
    """The readers that hand out data structures, unconverted."""
    out = [p.list_value_paths, p.render_to_object, lambda: p.render_to_object(True), p.list_variables, p.list_selectors, p.get_comments_table, p.get_package_paths, p.get_dependency_paths,
           p.get_package_names_to_path, p.get_all_dependencies, lambda: p.search("."), lambda: p.find_value("alpha")]
    for v in p.list_variables():
        out += [lambda v=v: p.get_variable(v), lambda v=v: p.get_variable_references(v)]
    for s in p.list_selectors():
        out.append(lambda s=s: p.get_selector_paths(s))
    paths = sorted(set(p.list_value_paths()))
    for q in paths + sorted({q.rsplit("/", n)[0] for q in paths for n in range(1, q.count("/"))} - {""}):
        out += [lambda q=q: p.get_value(q), lambda q=q: p.get_value(q, None, True)]
    return out


def preempting(sim, rng, gap):
    left = [rng.randrange(1, 2 * gap + 1)]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0:
                left[0] = rng.randrange(1, 2 * gap + 1)
                sim.log("preempt")
                sim.probe("preempt")
                sim.point("line", log=False)
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None

    return trace


def run(plan, sim, env):
    p = S.parser(plan["text"])
    for e in plan["ops"]:
        S.perform(p, e)
    rng = random.Random(plan["rs"])

    def state():
        return [p.render(), p.is_modified(), p.diff(), str(p)]

    start = state()
    ref = S.record(p)
    env.check(state() == start, "reader-side-effect", "the text, flag, diff or tree changed while only reading")

    # one thread, any order, with vandalism
    rs = S.readers(p)
    rng.shuffle(rs)
    for n, f in rs[: 40 if len(rs) > 40 else len(rs)]:
        got = f()
        env.check(got == ref[n], "order-dependent", f"{n} answered {got!r} after other reads, {ref[n]!r} before")
    raw = raw_readers(p)
    rng.shuffle(raw)
    for f in raw:
        try:
            vandalise(f())
        except Exception as x:  # noqa: BLE001
            sim.log("refused", type(x).__name__)
    now = state()
    env.check(now == start, "aliased", f"changing data returned by a reader changed the recipe: {[(a, b) for a, b in zip(start, now) if a != b][:1]}")
    d = S.differs(ref, S.record(p))
    env.check(not d, "aliased", f"changing data returned by a reader changed later answers; {d}")

    # conversion reads the recipe it is given
    if plan["text"].find("schema_version: 1") < 0:
        from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

        c = RecipeParserConvert(plan["text"])
        for e in plan["ops"]:
            S.perform(c, e) if e["k"] not in ("adddep", "remdep") else None
        was = [c.render(), c.is_modified(), c.diff()]
        first = S.converted(c)
        env.check([c.render(), c.is_modified(), c.diff()] == was, "conversion-side-effect", "converting a recipe changed it")
        env.check(S.converted(c) == first, "conversion-side-effect", "converting a recipe twice gives two results")

    # several threads
    names = list(ref)
    bad = []
    sim.log("threads")

    def reader(work, seed):
        fns = dict(S.readers(p))
        sys.settrace(preempting(sim, random.Random(seed), plan["gap"]))
        try:
            for n in work:
                got = fns[n]()
                if got != ref[n]:
                    bad.append(("thread-answer", f"{n} answered {got!r} next to other readers, {ref[n]!r} alone"))
                    return
        except (core.SimAbort, core.SimCrash):
            raise
        except BaseException as x:  # noqa: BLE001
            bad.append(("thread-exception", f"{n} raised {type(x).__name__}: {x} next to other readers"))
        finally:
            sys.settrace(None)

    heavy = ["render", "object", "object-subs", "deps", "selectors", "comments", "sha", "paths"]
    ts = [sim.spawn(reader, ([rng.choice(heavy if rng.random() < 0.4 else names) for _ in range(plan["reads"])], f"{plan['rs']}:{k}"), name=f"r{k}") for k in range(plan["threads"])]
    for t in ts:
        sim.join(t)
    for key, msg in bad[:1]:
        env.check(False, key, msg)
    env.check(state() == start, "reader-side-effect", "the text, flag, diff or tree changed while several threads were only reading")
    d = S.differs(ref, S.record(p))
    env.check(not d, "reader-side-effect", f"answers changed after several threads read; {d}")
    env.note(len(ref), plan["threads"], plan["gap"])
    env.sample = f"{plan['threads']} threads x {plan['reads']} reads, gap {plan['gap']}"
