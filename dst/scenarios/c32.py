"""C32: histories of edits of variables and values with saves, crashes and restarts; what is read with variables substituted is
what the variables' present values make of the present text."""

import copy
import os
import random
import re

from dst import core, docs as D, session as S

COUNTS = {"quick": 2600, "thorough": 80000}
RULE = (
    "One run = one seeded recipe (V0 or V1) whose values refer to variables (plainly, with `lower`, `upper`, an index, a sum or a concatenation, and to variables that are not set) "
    "and 3-14 seeded edits: variables set, deleted and patched, values added, replaced and removed, saves under disk faults and crashes, restarts from the saved text. "
    "After every step each value, collection and the whole recipe is read with variables substituted and compared with a model's evaluation. Distinct by (interleaving, outcome)."
)
REAL = ["get_value, render_to_object and get_recipe_name with substitution", "set_variable, del_variable, patch", "parser, renderer"]
STUB = ["disk fault engine", "the writer of the saved text"]
ASSUMPTIONS = [
    "variables hold numbers or words of letters, digits, dots and dashes that YAML does not read as null or a boolean",
    "sums and concatenations are whole values (inside of longer text they are rendered with quotes, which the tests pin); one reference per text of that kind",
    "an expression with a variable that is not set stays in the text; `{{` and `${{` are both accepted for it (the tests pin `${{` for V0 text that starts with it)",
]
NAMES = ["name", "version", "build", "major", "commit", "py"]
WORDS = ["1.2.3", "2.0", "1.10", "0.7", "10.4.1", "Alpha", "libFoo", "x", "r12", "ABC-def", "007", "1e3", "2024-01-01", 0, 3, 12, 100, 1.5, 2.25]


def expr(rng, schema, whole):
    """Text of one reference."""
    v = rng.choice(NAMES + ["nope"]) if rng.random() < 0.93 else "unset_var"
    k = rng.randrange(10)
    if whole and k < 3:
        e = rng.choice([f"{v} + 100", f"{v} + 1.5", f"{v} + '.1'", f"{v} + \"_x\"", f"{v} + {rng.choice(NAMES)}", f"3 + {v}", f"'v' + {v}", f"{v}+1"])
    elif k == 3:
        e = rng.choice([f"{v} | lower", f"{v}|lower", f"{v} |upper", f"{v} | upper"])
    elif k == 4:
        e = f"{v}[{rng.choice([0, 0, 1, 2, 40])}]"
    elif k == 5:
        e = rng.choice([f"{v}[0] | lower", f"{v}[1]|upper"])
    else:
        e = v
    pad = rng.choice([" ", " ", " ", "", "  "])
    return ("${{" if schema else "{{") + pad + e + pad + "}}"


def text(rng, schema):
    r = rng.random()
    if r < 0.2:
        return rng.choice(["alpha", "zstd >=1.2", "make install", "MIT"])
    if r < 0.45:
        return expr(rng, schema, True)
    out = rng.choice(["https://h/", "pkg-", "numpy >=", "a b "]) if r < 0.9 else rng.choice(["", "", "z"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        out += expr(rng, schema, False) + rng.choice(["-", "/", ".", "_x", " "])
    out += "end"
    # The first characters may not become a mark of YAML's own, like `...`.
    return "z" + out if re.match(r"\$?\{\{[^}]*\[", out) else out


def tree(rng, schema):
    d = {}
    if schema:
        d["schema_version"] = 1
        d["context"] = {v: rng.choice(WORDS) for v in rng.sample(NAMES, rng.randrange(2, 6))}
    d["package"] = {"name": expr(rng, schema, False), "version": text(rng, schema)}
    src = [{"url": text(rng, schema), "patches": [text(rng, schema) for _ in range(rng.randrange(1, 3))]} for _ in range(rng.randrange(1, 3))]
    d["source"] = src if len(src) > 1 or rng.random() < 0.5 else src[0]
    d["build"] = {"number": rng.choice([0, expr(rng, schema, True)]), "string": text(rng, schema)}
    d["requirements"] = {s: [text(rng, schema) for _ in range(rng.randrange(1, 4))] for s in ("host", "run")[: rng.randrange(1, 3)]}
    if rng.random() < 0.4:
        d["about"] = {"summary": text(rng, schema), "home": text(rng, schema)}
    return d


def gen(rng: random.Random, tier, i):
    schema = rng.randrange(2)
    doc = tree(rng, schema)
    vs = doc["context"] if schema else {v: rng.choice(WORDS) for v in rng.sample(NAMES, rng.randrange(2, 6))}
    ops, now = [], copy.deepcopy(doc)
    for _ in range(rng.choice([3, 5, 8, 14])):
        k = rng.choices(["set", "del", "patch", "drop", "save", "restart", "context"], [6, 2, 4, 1, 2, 2, 2])[0]
        if k == "set":
            ops.append({"k": k, "var": rng.choice(NAMES), "value": rng.choice(WORDS)})
        elif k == "del":
            ops.append({"k": k, "var": rng.choice(NAMES)})
        elif k == "context":
            if schema:
                ops.append({"k": k, "op": rng.choice(["add", "replace", "remove"]), "var": rng.choice(NAMES), "value": rng.choice(WORDS)})
        elif k in ("patch", "drop"):
            ps = [p for p in D.paths(now) if not p.startswith(("/context", "/schema_version")) and isinstance(D._get(now, D.split(p)), (str, int, float))]
            p = rng.choice(ps)
            up = p.rsplit("/", 1)[0]
            lst = isinstance(D._get(now, D.split(up)), list)
            if k == "drop":
                if not lst or len(D._get(now, D.split(up))) < 2:
                    continue
                op = {"op": "remove", "path": p}
            elif lst and rng.random() < 0.5:
                op = {"op": "add", "path": rng.choice([p, up + "/-"]), "value": text(rng, schema)}
            else:
                op = {"op": "replace", "path": p, "value": text(rng, schema)}
            ops.append({"k": "patch", "op": op})
            now = D.apply(now, op)
        elif k == "save":
            ops.append({"k": k, "fault": rng.choice([None, {"op": rng.choice(["*mut", "write", "fsync", "rename"]), "glob": "work/*", "nth": rng.choice([1, 1, 2, 3]), "kind": rng.choice(["eio", "enospc", "crash", "crash-after"])}])})
        else:
            ops.append({"k": k})
    return {"doc": doc, "vars": {} if schema else vs, "schema": schema, "style": rng.randrange(1 << 30), "ops": ops}


def shrink(plan):
    for v in list(plan["vars"]):
        yield {**plan, "vars": {k: x for k, x in plan["vars"].items() if k != v}}


def emitted(plan):
    rng = random.Random(plan["style"])
    out = []
    for v, x in plan["vars"].items():
        q = rng.choice("'\"")
        out.append(f"{{% set {v} = {q}{x}{q} %}}" if isinstance(x, str) else f"{{% set {v} = {x} %}}")

    def one(v):
        if not isinstance(v, str):
            return str(v)
        if plan["schema"] == 0 and v.startswith("{{") and rng.random() < 0.5 and "'" not in v and '"' not in v:
            return f'"{v}"'
        if "'" in v or '"' in v or re.fullmatch(r"[\d.e\-]+", v):
            return v if "{{" in v else f'"{v}"'
        return v

    def put(d, ind):
        for k, v in d.items():
            if isinstance(v, dict):
                out.append(" " * ind + f"{k}:")
                put(v, ind + 2)
            elif isinstance(v, list):
                out.append(" " * ind + f"{k}:")
                for x in v:
                    if isinstance(x, dict):
                        at = len(out)
                        put(x, ind + 4)
                        out[at] = " " * (ind + 2) + "- " + out[at].lstrip()
                    else:
                        out.append(" " * (ind + 2) + "- " + one(x))
            else:
                out.append(" " * ind + f"{k}: {one(v)}")

    put(plan["doc"], 0)
    return "\n".join(out) + "\n"


# -- the model's evaluation


def number(v):
    """The variables of V1 recipes are numbers where their text is that of a number."""
    for f in (int, float):
        try:
            if str(f(v)) == str(v):
                return f(v)
        except ValueError:
            pass
    return v


def token(t, vs, v1):
    if t in vs:
        return number(vs[t]) if v1 else vs[t]
    if t.isdecimal():
        return int(t)
    if re.fullmatch(r"\d+\.\d+", t):
        return float(t)
    return t[1:-1] if t[:1] in "'\"" else t


def evaluated(s, vs):
    """What a text is with the variables substituted."""
    if not isinstance(s, str):
        return s
    m = re.fullmatch(r"\$?\{\{\s*([^{}]*?)\s*\+\s*([^{}]*?)\s*\}\}", s)
    if m:
        v1 = s.startswith("$")
        a, b = token(m.group(1), vs, v1), token(m.group(2), vs, v1)
        return a + b if isinstance(a, (int, float)) and isinstance(b, (int, float)) else str(a) + str(b)

    def one(m):
        e = re.fullmatch(r"(\w+)(\[(\d+)\])?\s*(\|\s*(lower|upper))?", m.group(1).strip())
        if e is None or e.group(1) not in vs:
            return "{{" + m.group(1) + "}}"
        v = str(vs[e.group(1)])
        if e.group(5):
            v = getattr(v, e.group(5))()
        return v[int(e.group(3))] if e.group(3) and int(e.group(3)) < len(v) else v

    return re.sub(r"\$?\{\{([^{}]*)\}\}", one, s)


def model(v, vs):
    if isinstance(v, dict):
        return {k: model(x, vs) for k, x in v.items()}
    return [model(x, vs) for x in v] if isinstance(v, list) else evaluated(v, vs)


def text_of(v):
    if isinstance(v, dict):
        return {k: text_of(x) for k, x in v.items()}
    if isinstance(v, list):
        return [text_of(x) for x in v]
    return re.sub(r"\$(?=\{\{)", "", str(v))


def parts(a, b):
    """The parts that differ."""
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return next((f"{k}/{parts(a[k], b[k])}" for k in a if a[k] != b[k]), "")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((f"{k}/{parts(x, b[k])}" for k, x in enumerate(a) if x != b[k]), "")
    return f" {a!r}, expected {b!r}"


def store(path, new):
    """The user's own way of saving."""
    with open(path + "~", "w", encoding="utf-8") as f:
        f.write(new)
        f.flush()
        os.fsync(f.fileno())
    os.replace(path + "~", path)


def run(plan, sim, env):
    src = emitted(plan)
    path = env.put("work/recipe.yaml", src)
    fs = env.disk()
    p = S.parser(src)
    doc = copy.deepcopy(plan["doc"])
    vs = doc["context"] if plan["schema"] else dict(plan["vars"])
    saved = (copy.deepcopy(doc), dict(vs))
    outcome, changed = [], 0

    def look(where):
        want = text_of(model(doc, vs))
        got = text_of(p.render_to_object(replace_variables=True))
        env.check(got == want, "object", f"{where}: with the variables {vs} the whole recipe has {parts(got, want)}")
        for q in D.paths(doc):
            if D._get(doc, D.split(q)) is None:
                continue  # reading an empty key gives its name, which the tests pin
            v = p.get_value(q, sub_vars=True)
            x = model(D._get(doc, D.split(q)), vs)
            env.check(text_of(v) == text_of(x), "value", f"{where}: with the variables {vs} the value at {q} is {v!r}, expected {x!r}")
            env.check(isinstance(x, str) or isinstance(v, bool) == isinstance(x, bool) and type(v) is type(x), "type", f"{where}: with the variables {vs} the value at {q} is {v!r}, expected {x!r}")
            raw = D._get(doc, D.split(q))
            if isinstance(raw, str):
                r = p.get_value(q)
                env.check(text_of(r) == text_of(raw), "raw", f"{where}: without substitution the value at {q} is {r!r}, expected {raw!r}")
        name = p.get_recipe_name()
        env.check(text_of(name) == text_of(evaluated(doc["package"]["name"], vs)), "name", f"{where}: the recipe is called {name!r} with the variables {vs}")
        for v in NAMES:
            env.check(p.contains_variable(v) == (v in vs) and text_of(p.get_variable(v, "-")) == text_of(vs.get(v, "-")), "variable", f"{where}: variable {v} is {p.get_variable(v, None)!r}, expected {vs.get(v)!r}")

    look("at the start")
    for n, o in enumerate(plan["ops"]):
        where = f"step {n} {o}"
        k = o["k"]
        if k == "set":
            p.set_variable(o["var"], o["value"])
            vs[o["var"]] = o["value"]
        elif k == "del":
            if o["var"] in vs and not (plan["schema"] and len(vs) == 1):
                p.del_variable(o["var"])
                del vs[o["var"]]
        elif k == "context":
            there = o["var"] in vs
            if o["op"] == "remove" and (not there or len(vs) == 1) or o["op"] == "replace" and not there:
                continue
            op = {"op": o["op"], "path": f"/context/{o['var']}"} | ({"value": o["value"]} if o["op"] != "remove" else {})
            env.check(p.patch(op), "refused", f"{where}: the patch was refused")
            if o["op"] == "remove":
                del vs[o["var"]]
            else:
                vs[o["var"]] = o["value"]
        elif k == "patch":
            try:
                new = D.apply(doc, o["op"])
            except D.Refused:
                continue
            env.check(p.patch(dict(o["op"])), "refused", f"{where}: the patch was refused")
            if plan["schema"]:
                new["context"] = vs
            doc = new
        elif k == "save":
            new = p.render()
            fs.faults[:] = [{**o["fault"], "fired": 0, "seen": 0}] if o["fault"] else []
            try:
                store(path, new)
                res = "saved"
            except OSError:
                res = "error"
            except core.SimCrash:
                res = "crash"
            env.reboot()
            kept = env.get("work/recipe.yaml").decode()
            if kept == new:
                saved = (copy.deepcopy(doc), dict(vs))
            env.check(res != "saved" or kept == new, "save", f"{where}: the saved text is not in the file")
            outcome.append(res)
            if res == "crash":
                k = "restart"
        if k == "restart":
            sim.log("restart")
            p = S.parser(env.get("work/recipe.yaml").decode())
            doc, vs = copy.deepcopy(saved[0]), dict(saved[1])
            if plan["schema"]:
                doc["context"] = vs
        changed += k in ("set", "del", "context", "patch")
        outcome.append(k)
        look(where)
    env.note(outcome, p.calc_sha256()[:8])
    env.nontrivial = changed > 0
    env.sample = f"{changed} of {len(plan['ops'])} steps changed the recipe"
