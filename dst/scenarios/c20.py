"""C20: scanning pyproject.toml yields exactly what it declares, reports every problem, never raises."""

import os
import random
import tomllib

COUNTS = {"quick": 4000, "thorough": 80000}
RULE = (
    "One run = a history of 1..5 scans by 1..3 scanners (reused or new, in one or several threads) over project files that change between "
    "the scans: well formed, malformed in each section, truncated, undecodable, missing, directories, dangling links, failing to open or read. "
    "The declared dependencies come from an independent reading of the generated text. Distinct by (interleaving, results)."
)
REAL = ["PyProjectDependencyScanner", "tomllib", "dependency_data_from_str"]
STUB = ["disk faults", "scheduler of the scanning threads", "conda MatchSpec stand-in"]

NAMES = ["numpy", "requests", "PyYAML", "ruamel.yaml", "conda-build", "a", "typing_extensions", "Jinja2"]
CONS = ["", "", "", ">=1.2", " >= 1.2", "==1.0.*", ">=1,<2", "~=8.1", "!=3.0", " >=2.8.1,==2.8.*"]
ODD = ["foo[extra]>=1", "x; python_version < '3.8'", "pkg @ https://e.org/p.whl", "", "   ", "é", "a b c d e", "{{ name }}", "${{ x }}", ">=3", "tab\\tbed", "=",
       "foo>=1.0; extra == 'x'", "a=", "[]", "#x", "name >="]


def dep(rng):
    return rng.choice(ODD) if rng.random() < 0.12 else rng.choice(NAMES) + rng.choice(CONS)


def q(s):
    return '"' + s.replace('"', '\\"') + '"'


BADVAL = ["3", "true", '"numpy"', "1.5", "{ a = 1 }", "2024-01-01", '""']
BADENT = ["3", "false", '["numpy"]', "{ name = \"x\" }", "1.0", "[]"]


def lst(rng, bad):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    ents = [q(dep(rng)) for _ in range(n)]
    if bad and rng.random() < 0.4:
        for _ in range(rng.randrange(1, 3)):
            ents.insert(rng.randrange(len(ents) + 1), rng.choice(BADENT))
    sep = rng.choice([", ", ",\n  "])
    return "[" + sep.join(ents) + "]"


def text(rng: random.Random) -> bytes:
    bad = rng.random() < 0.4
    L = []
    if rng.random() < 0.3:
        L += ["[build-system]", 'requires = ["setuptools"]', ""]
    r = rng.random()
    if bad and r < 0.15:
        L += [rng.choice(["", 'x = 1', "[tool.x]\ny = 1", "[projects]\ndependencies = ['a']"])]
    elif bad and r < 0.3:
        L = [rng.choice(["project = 3", 'project = "x"', "project = []", "project = true", "[[project]]\nname = 'x'"])] + L
    else:
        P = ["[project]"]
        if rng.random() < 0.7:
            P.append('name = "demo"')
        if rng.random() < 0.85:
            P.append(f"dependencies = {rng.choice(BADVAL) if bad and rng.random() < 0.35 else lst(rng, bad)}")
        if rng.random() < 0.3:
            P.append('requires-python = ">=3.8"')
        form = rng.randrange(4)
        groups = rng.sample(["dev", "test", "conda_build", '"a.b"', "docs"], rng.randrange(0, 4))
        body = [f"{g} = {rng.choice(BADVAL) if bad and rng.random() < 0.3 else lst(rng, bad)}" for g in groups]
        if form == 0 and bad:
            P.append(f"optional-dependencies = {rng.choice(['3', '[]', '[\"pytest\"]', '\"x\"', 'true'])}")
        elif form == 1:
            P += [f"optional-dependencies.{b}" for b in body]
        elif form == 2:
            P += ["", "[project.optional-dependencies]"] + body
        L += P
        if rng.random() < 0.2:
            L += ["", "[tool.other]", 'dependencies = ["not-me"]', "[tool.other.optional-dependencies]", 'dev = ["nor-me"]']
    t = "\n".join(L) + "\n"
    if bad and rng.random() < 0.15:
        t += rng.choice(["[project\n", "= 3\n", "[project]\n[project]\n", 'x = "unterminated\n'])
    if rng.random() < 0.1:
        t = t.replace("\n", "\r\n")
    b = t.encode()
    if rng.random() < 0.08:
        b = b[: rng.randrange(len(b) + 1)]
    if rng.random() < 0.04:
        b += b"# \xff\xfe\n"
    if rng.random() < 0.03:
        b = b"\xef\xbb\xbf" + b
    if rng.random() < 0.03:
        b = b""
    return b


def gen(rng: random.Random, tier, i):
    names = ["pyproject.toml", "pyproject.toml", "other.toml"]
    scanners = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
    threads = rng.random() < 0.25
    ops, disk = [], []
    if threads:
        for n in set(scanners):
            ops.append({"op": "file", "name": n, "b": text(rng).hex(), "kind": "file"})
        for s in range(len(scanners)):
            for _ in range(rng.randrange(1, 3)):
                ops.append({"op": "scan", "s": s})
    else:
        for _ in range(rng.randrange(1, 6)):
            s = rng.randrange(len(scanners))
            if rng.random() < 0.75:
                ops.append({"op": "file", "name": scanners[s], "b": text(rng).hex(),
                            "kind": rng.choices(["file", "gone", "dir", "dangling", "link"], [20, 2, 1, 1, 1])[0]})
            if rng.random() < 0.15:
                ops.append({"op": "new", "s": s})
            ops.append({"op": "scan", "s": s, "fault": rng.choice([None, None, None, None, {"op": rng.choice(["open-r", "read"]), "kind": rng.choice(["eio", "eacces", "enoent", "emfile", "eperm"]),
                                                                                            "nth": rng.choice([1, 1, 2])}])})
    return {"scanners": scanners, "ops": ops, "threads": threads, "disk": disk, "short_io": rng.choice([None, rng.randrange(1 << 30)]), "str": rng.random() < 0.5}


def key(s: str) -> str:
    return "".join(s.split()).lower()


def model(b):
    """-> ({(dependency, section)}, number of problems)"""
    try:
        d = tomllib.loads(b.decode("utf-8"))
    except (UnicodeDecodeError, tomllib.TOMLDecodeError):
        return set(), 1
    p = d.get("project")
    if not isinstance(p, dict):
        return set(), 1
    out, bad = set(), 0

    def take(v, section):
        nonlocal bad
        if not isinstance(v, list):
            bad += 1
            return
        for e in v:
            if isinstance(e, str):
                out.add((key(e), section))
            else:
                bad += 1

    if "dependencies" in p:
        take(p["dependencies"], "run")
    o = p.get("optional-dependencies", {})
    if not isinstance(o, dict):
        bad += 1
    else:
        for v in o.values():
            take(v, "run_constraints")
    return out, bad


def run(plan, sim, env):
    from pathlib import Path

    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str
    from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner
    from conda_recipe_manager.types import MessageCategory

    env.mkdir("work")
    root = os.path.join(env.root, "work")
    fs = env.disk()
    state: dict = {}

    def new(k):
        r = root if plan["str"] else Path(root)
        n = plan["scanners"][k]
        return PyProjectDependencyScanner(r) if n == "pyproject.toml" else PyProjectDependencyScanner(r, n)

    scanners = [new(k) for k in range(len(plan["scanners"]))]
    results = []

    def put(op):
        from dst import fs as fsmod

        p = os.path.join(root, op["name"])
        if os.path.islink(p) or os.path.isfile(p):
            fsmod.REAL["unlink"](p)
        elif os.path.isdir(p):
            fsmod.REAL["rmdir"](p)
        b = bytes.fromhex(op["b"])
        k = op["kind"]
        if k == "file":
            env.put(f"work/{op['name']}", b)
        elif k == "link":
            env.put(f"work/real_{op['name']}", b)
            fsmod.REAL["symlink"](f"real_{op['name']}", p)
        elif k == "dir":
            env.mkdir(f"work/{op['name']}")
        elif k == "dangling":
            fsmod.REAL["symlink"]("nowhere", p)
        state[op["name"]] = b if k in ("file", "link") else None

    def scan(op):
        k = op["s"]
        sc, name = scanners[k], plan["scanners"][k]
        n0 = {c: len(sc.get_message_table().get_messages(c)) for c in MessageCategory}
        f = op.get("fault")
        rule = None
        if f:
            rule = {**f, "glob": "work/*.toml", "sticky": True, "seen": 0, "fired": 0}
            fs.faults.append(rule)
        got = {(key(dependency_data_render_as_str(d.data)), d.type.name.lower()) for d in sc.scan()}
        if rule:
            fs.faults.remove(rule)
        msgs = [m for c in MessageCategory for m in sc.get_message_table().get_messages(c)[n0[c]:]]
        b = state.get(name)
        want, problems = model(b) if b is not None else (set(), 1)
        if rule and rule["fired"]:
            want, problems = set(), 1
        what = f"scan of {name} by scanner {k}"
        env.check(got == want, "dependencies", f"{what}: missing {sorted(want - got)[:3]}, extra {sorted(got - want)[:3]}")
        if problems:
            env.check(len(msgs) >= problems, "no-message", f"{what}: {problems} problems but messages {msgs[:3]}")
        else:
            env.check(not msgs, "spurious-message", f"{what}: messages for a good file: {msgs[:3]}")
        results.append((len(got), problems, rule["fired"] if rule else 0))

    if plan["threads"]:
        errors: list = []
        for op in plan["ops"]:
            if op["op"] == "file":
                put(op)

        def worker(k):
            try:
                for op in plan["ops"]:
                    if op["op"] == "scan" and op["s"] == k:
                        scan(op)
            except BaseException as e:  # noqa: BLE001
                errors.append(e)

        ts = [sim.spawn(worker, (k,), name=f"scan{k}") for k in range(len(scanners))]
        for t in ts:
            sim.join(t)
        if errors:
            raise errors[0]
    else:
        for op in plan["ops"]:
            if op["op"] == "file":
                put(op)
            elif op["op"] == "new":
                scanners[op["s"]] = new(op["s"])
            else:
                scan(op)
    env.check(not fs.mut_log, "modified", f"the scan wrote files: {fs.mut_log[:3]}")
    env.nontrivial = bool(results)
    env.note(results, [op.get("kind") for op in plan["ops"]], plan["threads"])
    env.sample = f"{len(results)} scans by {len(scanners)} scanners: (dependencies, problems, faults) {results[:4]}"
