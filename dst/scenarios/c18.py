"""C18: histories of dependency edits with lost and restarted sessions against lists of (dependency, selector, note)."""

import copy
import json
import random
import re

import yaml

from dst import session as S

COUNTS = {"quick": 1500, "thorough": 50000}
RULE = (
    "One run = one seeded recipe (V0 or V1, single or multi output, selectors, notes, remarks, conditional entries, Jinja) and 2-12 seeded dependency operations: additions in all "
    "conflict modes with and without selectors, removals, re-use of listed dependencies, selector edits, invalid paths; the session is saved, killed and restarted from the "
    "durable text at seeded points, unsaved operations are lost. After every operation the listing and an independent reading of the text are compared with the model. "
    "Distinct by (interleaving, outcome)."
)
REAL = ["RecipeParserDeps.add_dependency/remove_dependency", "get_all_dependencies, get_dependency_paths", "parser and renderer"]
STUB = ["conda MatchSpec stand-in", "disk fault engine"]
ASSUMPTIONS = ["names of added dependencies are plain or Jinja functions; selectors joined to others are single terms"]

NAMES = ["numpy", "zstd", "openssl", "rust", "py-bar", "libfoo", "six", "Pillow"]
CONSTRAINTS = ["", "", " >=1.2", " 1.2.*", " >=1,<2", " 1.7 h1_0", "=1.2", ">=1.0", "==1.0", " !=1.1", " 1.10"]
FUNCTIONS = ["{{ compiler('c') }}", "{{ stdlib('c') }}", "{{ pin_subpackage('out0', exact=True) }}"]
VARIABLE = ["libver {{ version }}", "{{ name }}-dev", "libver >={{ version }},<9", "{{ name }} {{ version }}", "{{ name }}-lib >={{ version }}"]
SELECTORS = ["[linux]", "[win]", "[osx]", "[py<310]", "[not osx]"]
SECTIONS = {0: ["build", "host", "run", "run_constrained"], 1: ["build", "host", "run", "run_constraints", "run_exports"]}
PATHS = {0: ["build", "host", "run", "run_constrained"], 1: ["build", "host", "run", "run_constraints"]}
TYPES = {"build": "BUILD", "host": "HOST", "run": "RUN", "run_constrained": "RUN_CONSTRAINTS", "run_constraints": "RUN_CONSTRAINTS", "run_exports": "RUN_EXPORTS"}
VARS = {"name": "pkg", "version": "1.2.3"}
INVALID = ["/requirements/run", "requirements/run/0", "/requirements/run/x", "/requirements/run/-1", "/build/number/0", "/requirements/nope/0", "/outputs/x/requirements/run/0",
           "/outputs/0/requirements/run", "", "/", "/outputs/77/requirements/run/0", "/requirements/run/0/1", "/package/requirements/run/0", "/requirements/test/0"]


def spec(rng, schema, jinja=True):
    r = rng.random()
    if jinja and r < 0.12:
        return rng.choice(FUNCTIONS)
    if jinja and r < 0.2:
        return rng.choice(VARIABLE)
    return rng.choice(NAMES) + rng.choice(CONSTRAINTS)


def section(rng, schema):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        if schema == 1 and rng.random() < 0.12:
            out.append({"if": rng.choice(["win", "osx"]), "then": rng.choice(NAMES)})
            continue
        sel = rng.choice(SELECTORS) if rng.random() < 0.3 else None
        note = f"note {rng.randrange(50)}" if rng.random() < 0.12 else None
        out.append([spec(rng, schema), sel, note, rng.random() < 0.15])  # spec, selector, note, remark line above
    return out


def sections(rng, schema, p):
    return {s: section(rng, schema) for s in SECTIONS[schema] if rng.random() < p}


def gen(rng: random.Random, tier, i):
    schema = rng.choice([0, 0, 1])
    model = {"root": sections(rng, schema, 0.6) if rng.random() < 0.85 else None, "outs": []}
    if rng.random() < 0.4:
        model["outs"] = [sections(rng, schema, 0.45) if rng.random() < 0.85 else None for _ in range(rng.randrange(1, 4))]
    ops = []
    for _ in range(rng.choice([2, 4, 6, 9, 12])):
        where = rng.choice([None] + list(range(len(model["outs"]))))
        sec = rng.choice(SECTIONS[schema])
        k = rng.choices(["add", "remove", "copy", "drop", "addsel", "remsel", "bad", "restart", "lose", "save"], [9, 3, 2, 3, 2, 1, 1, 2, 1, 2])[0]
        o = {"do": k}
        if k in ("add", "copy"):
            o |= {"out": where, "sec": sec, "idx": rng.choice([0, 0, 1, 2, 3, 50]), "mode": rng.choice(["REPLACE", "REPLACE", "IGNORE", "USE_BOTH", "EXACT_POSITION"]), "smode": rng.choice(["REPLACE", "AND", "OR"])}
        if k == "add":
            s = spec(rng, schema)
            o |= {"spec": s if s not in VARIABLE else rng.choice(NAMES), "sel": rng.choice([None, None] + SELECTORS[:4])}
        elif k == "remove":
            o |= {"out": where, "sec": sec, "idx": rng.choice([0, 0, 1, 1, 2, 3, 50])}
        elif k in ("addsel", "remsel"):
            o |= {"k": rng.randrange(40), "sel": rng.choice(SELECTORS[:4]), "smode": rng.choice(["REPLACE", "AND", "OR"])}
        elif k == "bad":
            o |= {"path": rng.choice(INVALID)}
        if k in ("copy", "drop"):
            o["k"] = rng.randrange(40)
        ops.append(o)
    return {"schema": schema, "model": model, "ops": ops}


def shrink(plan):
    m = plan["model"]
    for j in range(len(m["outs"])):
        yield {**plan, "model": {**m, "outs": m["outs"][:j] + m["outs"][j + 1:]}}
    for w, r in [("root", m["root"])] + list(enumerate(m["outs"])):
        for s in r or ():
            for n in [None, *range(len(r[s]))]:
                c = copy.deepcopy(m)
                t = c["root"] if w == "root" else c["outs"][w]
                if n is None:
                    del t[s]
                elif len(t[s]) > 1:
                    del t[s][n]
                else:
                    continue
                yield {**plan, "model": c}


def jinja(s, schema):
    return s.replace("{{", "${{") if schema == 1 else s


def text_of(plan) -> str:
    schema, m = plan["schema"], plan["model"]
    out = []
    v = jinja("{{ version }}", schema)
    if schema == 0:
        out += ['{% set name = "pkg" %}', '{% set version = "1.2.3" %}', ""]
    else:
        out += ["schema_version: 1", "", "context:", "  name: pkg", "  version: 1.2.3", ""]
    out += ["# about the package", "recipe:" if schema and m["outs"] else "package:", "  name: pkg", f"  version: {v}", "", "build:", "  number: 0  # a number", "", ]

    def reqs(r, ind):
        if r is None:
            return
        pad = " " * ind
        if not r:
            return
        out.append(pad + "requirements:")
        for s, items in r.items():
            out.append(f"{pad}  {s}:")
            for it in items:
                if isinstance(it, dict):
                    out.extend([f"{pad}    - if: {it['if']}", f"{pad}      then: {it['then']}"])
                    continue
                if it[3]:
                    out.append(f"{pad}    # remark on {s}")
                c = " ".join(x for x in (it[1], it[2]) if x)
                out.append(f"{pad}    - {jinja(it[0], schema)}" + (f"  # {c}" if c else ""))

    if m["root"]:
        reqs(m["root"], 0)
        out.append("")
    if m["outs"]:
        out.append("outputs:")
        for n, r in enumerate(m["outs"]):
            out += [f"  - name: out{n}"] if schema == 0 else ["  - package:", f"      name: out{n}"]
            reqs(r, 4)
        out.append("")
    out += ["about:", "  summary: words  # kept", "  license: MIT", ""]
    return "\n".join(out)


class Model:
    def __init__(self, plan):
        self.schema = plan["schema"]
        m = plan["model"]
        load = lambda r: {s: [dict(i) if isinstance(i, dict) else [jinja(i[0], self.schema), i[1], i[2]] for i in items] for s, items in r.items()} if r else None  # noqa: E731
        self.root, self.outs = load(m["root"]), [load(r) for r in m["outs"]]

    def at(self, out):
        return self.root if out is None else self.outs[out]

    def every(self):
        return [(None, self.root)] + list(enumerate(self.outs))

    def resolved(self, s):
        """What a listing shows: known variables substituted, anything else escaped."""
        t = re.sub(r"\$?\{\{\s*(\w+)\s*\}\}", lambda x: VARS.get(x.group(1), x.group(0)), s)
        return re.sub(r"(?<!\$)\{\{", "${{", t)

    @staticmethod
    def name(s):
        if "{{" in s:
            return s.replace("${{", "{{")
        return re.match(r"[A-Za-z0-9_.\-]+", s.strip()).group(0).lower()

    def listing(self):
        out = []
        for w, r in self.every():
            who = "pkg" if w is None else f"out{w}"
            pre = "" if w is None else f"/outputs/{w}"
            mine = [[who, f"{pre}/requirements/{s}/{n}", TYPES[s], self.resolved(it[0]), it[1]] for s, items in (r or {}).items() for n, it in enumerate(items) if not isinstance(it, dict)]
            out.append([who, mine])
        if len(out) > 1:
            for who, mine in out[1:]:
                mine.extend([[who, *d[1:]] for d in out[0][1]])
        return out

    def paths(self):
        return [f"{'' if w is None else f'/outputs/{w}'}/requirements/{s}/{n}" for w, r in self.every() for s in PATHS[self.schema] for n in range(len((r or {}).get(s, ())))]

    def add(self, out, sec, idx, sp, mode, smode, sel) -> bool:
        r = self.at(out)
        if r is None:
            return False
        if mode == "EXACT_POSITION":
            if sec not in r or idx >= len(r[sec]):
                return False
            hit = idx
        else:
            hit = None
            if mode != "USE_BOTH":
                hit = next((n for n, it in enumerate(r.get(sec, ())) if not isinstance(it, dict) and self.name(self.resolved(it[0])) == self.name(sp)), None)
                if hit is not None and mode == "IGNORE":
                    return False
        if hit is None:
            r.setdefault(sec, []).append([sp, sel, None])
            return True
        old = r[sec][hit]
        keep = None if isinstance(old, dict) or smode == "REPLACE" else old[1]
        r[sec][hit] = [sp, self.join(keep, sel, smode), None]
        return True

    @staticmethod
    def join(old, new, smode):
        if old is None or new is None or smode == "REPLACE":
            return new if new is not None or smode == "REPLACE" else old
        return f"[{old[1:-1]} {smode.lower()} {new[1:-1]}]"

    def remove(self, out, sec, idx) -> bool:
        r = self.at(out)
        if r is None or sec not in r or idx >= len(r[sec]):
            return False
        del r[sec][idx]
        return True


def read(text: str):
    """Independent reading: [(where, section, [(spec | dict, selector, note)])], the other lines and the remarks."""
    lines = text.split("\n")
    body = "\n".join("" if ln.lstrip().startswith("{%") else re.sub(r"(?<!\$)\{\{(.*?)\}\}", r"<<\1>>", ln) for ln in lines)
    doc = yaml.compose(body)
    found, used = [], set()

    def get(node, key):
        return next(((k, v) for k, v in node.value if k.value == key), None)

    def tail(n):
        c = re.search(r"\s#\s*(.*)$", lines[n])
        c = c.group(1).strip() if c else ""
        s = re.match(r"\[[^\]]*\]", c)
        sel = s.group(0) if s else None
        return sel, (c[len(sel):] if sel else c).strip() or None

    def reqs(node, where):
        kv = get(node, "requirements")
        if not kv or not isinstance(kv[1], yaml.MappingNode):
            return
        for k, v in kv[1].value:
            items = []
            used.add((where, k.value, k.start_mark.line))
            for x in v.value if isinstance(v, yaml.SequenceNode) else ():
                n = x.start_mark.line
                if isinstance(x, yaml.MappingNode):
                    items.append({a.value: b.value for a, b in x.value})
                    for m in range(n, x.value[-1][1].start_mark.line + 1):
                        used.add((where, k.value, m))
                    continue
                used.add((where, k.value, n))
                items.append([re.sub(r"<<(.*?)>>", r"{{\1}}", x.value), *tail(n)])
            found.append([where, k.value, items])

    reqs(doc, None)
    outs = get(doc, "outputs")
    if outs and isinstance(outs[1], yaml.SequenceNode):
        for n, x in enumerate(outs[1].value):
            reqs(x, n)
    rest = lambda where, sec: [ln for n, ln in enumerate(lines) if ln.strip() and (where, sec, n) not in used]  # noqa: E731
    return found, rest


def run(plan, sim, env):
    from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str
    from conda_recipe_manager.parser.enums import SelectorConflictMode
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.types import SchemaVersion

    schema = plan["schema"]
    text = text_of(plan)
    path = env.put("work/recipe.yaml", text)
    env.disk()
    p, m = S.parser(text), Model(plan)
    saved = copy.deepcopy(m)
    version = SchemaVersion(schema)
    outcome = []

    def sel_of(s):
        return SelectorParser(s, version) if s else None

    def check(where):
        want = m.listing()
        got = S.deps_of(p)
        env.check(got == want, "listing", f"{where}: listed {diff(got, want)}")
        env.check(p.get_dependency_paths() == m.paths(), "paths", f"{where}: dependency paths {p.get_dependency_paths()}, expected {m.paths()}")
        found, _ = read(p.render())
        mine = [[w, s, items] for w, r in m.every() for s, items in (r or {}).items()]
        env.check([[w, s, [i if isinstance(i, dict) else i[0] for i in items]] for w, s, items in found] == [[w, s, [i if isinstance(i, dict) else i[0] for i in items]] for w, s, items in mine],
                  "text", f"{where}: the text has {found}, expected {mine}")
        for (w, s, a), (_, _, b) in zip(found, mine):
            for x, y in zip(a, b):
                if not isinstance(x, dict):
                    env.check(x[1] == y[1], "selector", f"{where}: {x[0]!r} in {s} of {w} has selector {x[1]}, expected {y[1]}")
                    if y[2] is not None:
                        env.check(x[2] == y[2], "note", f"{where}: {x[0]!r} in {s} of {w} has note {x[2]}, expected {y[2]}")

    def diff(a, b):
        return next((f"{x} instead of {y}" for x, y in zip(a, b) if x != y), f"{len(a)} packages instead of {len(b)}")

    def untouched(before, out, sec, where):
        """Lines outside the addressed list stay as they are."""
        x, y = read(before)[1](out, sec), read(p.render())[1](out, sec)
        env.check(x == y, "other-lines", f"{where}: other lines changed: {[ln for ln in x if ln not in y]} -> {[ln for ln in y if ln not in x]}")

    check("at the start")
    for n, o in enumerate(plan["ops"]):
        k = o["do"]
        where = f"after operation {n} ({k})"
        before = p.render()
        if k in ("save", "restart"):
            env.put("work/recipe.yaml", p.render())
            saved = copy.deepcopy(m)
        if k in ("restart", "lose"):
            p, m = S.parser(env.get("work/recipe.yaml").decode()), copy.deepcopy(saved)
            sim.log("restart")
        elif k in ("add", "copy"):
            out = o["out"] if o["out"] is None or o["out"] < len(m.outs) else None
            sec, idx = o["sec"], o["idx"]
            target = f"{'' if out is None else f'/outputs/{out}'}/requirements/{sec}/{idx}"
            if k == "add":
                sp, sel = jinja(o["spec"], schema), o["sel"]
                dep = Dependency("pkg", target, DependencySection.RUN, dependency_data_from_str(sp), sel_of(sel))
            else:
                every = [d for ds in p.get_all_dependencies().values() for d in ds]
                if not every:
                    continue
                d = every[o["k"] % len(every)]
                _, _, _, sp, sel = [x for _, ds in m.listing() for x in ds][o["k"] % len(every)]
                if sel and (" or " in sel or " and " in sel):
                    continue
                dep = Dependency(d.required_by, target, d.type, d.data, d.selector)
                sp = sp.replace("${{", "{{") if schema == 0 else sp
            want = m.add(out, sec, idx, sp, o["mode"], o["smode"], sel)
            got = p.add_dependency(dep, DependencyConflictMode[o["mode"]], SelectorConflictMode[o["smode"]])
            env.check(got is want, "result", f"{where}: adding {sp!r} at {target} ({o['mode']}) returned {got}, expected {want}")
            if not want:
                env.check(p.render() == before, "no-op", f"{where}: the addition was refused, but the text changed")
            untouched(before, out, sec, where)
            outcome.append(k[0] + str(want)[0])
        elif k in ("remove", "drop"):
            if k == "drop":
                every = [d for ds in p.get_all_dependencies().values() for d in ds]
                if not every:
                    continue
                dep = every[o["k"] % len(every)]
                b = dep.path.split("/")
                out, sec, idx = (int(b[2]) if b[1] == "outputs" else None), b[-2], int(b[-1])
            else:
                out = o["out"] if o["out"] is None or o["out"] < len(m.outs) else None
                sec, idx = o["sec"], o["idx"]
                dep = Dependency("pkg", f"{'' if out is None else f'/outputs/{out}'}/requirements/{sec}/{idx}", DependencySection.RUN, dependency_data_from_str("x"), None)
            want = m.remove(out, sec, idx)
            got = p.remove_dependency(dep)
            env.check(got is want, "result", f"{where}: removing {dep.path} returned {got}, expected {want}")
            if not want:
                env.check(p.render() == before, "no-op", f"{where}: the removal was refused, but the text changed")
            untouched(before, out, sec, where)
            outcome.append(k[0] + str(want)[0])
        elif k in ("addsel", "remsel"):
            every = [(d[1]) for _, ds in m.listing() for d in ds]
            if not every:
                continue
            at = every[o["k"] % len(every)]
            b = at.split("/")
            it = m.at(int(b[2]) if b[1] == "outputs" else None)[b[-2]][int(b[-1])]
            if k == "addsel":
                p.add_selector(at, o["sel"], SelectorConflictMode[o["smode"]])
                it[1], it[2] = m.join(it[1], o["sel"], o["smode"]), None
            else:
                got = p.remove_selector(at)
                env.check(got == it[1], "result", f"{where}: removed selector {got}, expected {it[1]}")
                it[1] = None
            outcome.append(k)
        elif k == "bad":
            if o["path"].startswith("/outputs/0") and m.outs and o["path"].count("/") == 5:
                continue
            dep = Dependency("pkg", o["path"], DependencySection.RUN, dependency_data_from_str("numpy"), sel_of("[win]"))
            got = p.add_dependency(dep)
            env.check(got is False and p.render() == before, "invalid-path", f"{where}: adding at {o['path']!r} returned {got}, text changed: {p.render() != before}")
        check(where)
    env.nontrivial = any(x.endswith("T") for x in outcome)
    env.note(outcome, m.listing())
    env.sample = ",".join(outcome)
