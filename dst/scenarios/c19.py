"""C19: scanning Python sources finds exactly the imports of the readable files; a bad file only hides its own."""

import os
import random

COUNTS = {"quick": 3000, "thorough": 60000}
RULE = (
    "One run = one seeded project tree of 0..10 Python files (good, broken, undecodable, with a byte order mark or a coding cookie, "
    "dangling links, directories named *.py, files that fail to read or vanish) scanned 1..3 times, in one or two threads, under a seeded "
    "enumeration order, compared with a model that knows what each file imports. Distinct by (interleaving, result)."
)
REAL = ["PythonDependencyScanner", "ast", "pkgutil", "pathlib.rglob"]
STUB = ["disk faults and enumeration order", "scheduler of the scanning threads", "conda MatchSpec stand-in"]

LIBS = {
    "requests": "requests", "numpy": "numpy", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "git": "gitpython",
    "cv2": "py-opencv", "cv": "py-opencv", "OpenGL": "pyopengl", "tables": "pytables", "networkx": "networkx",
    "conda_recipe_manager": "conda_recipe_manager", "_private_lib": "_private_lib", "x1": "x1", "gitx": "gitx", "yaml_ext": "yaml_ext",
    "json5": "json5", "tomli": "tomli", "osmium": "osmium",
}
STD = ["os", "sys", "json", "tomllib", "__future__", "typing", "ast", "_thread", "collections.abc", "os.path", "xml.etree.ElementTree"]
MODS = ["core", "util", "pkg", "sub", "helpers"]
NAMES = ["a.py", "main.py", "test_a.py", "b_test.py", "Test_C.py", "x_TEST.py", "conftest.py", "testing.py", "__init__.py", "nottest_.py", "tests.py", "ü.py"]
DIRS = ["", "", "src", "pkg", "pkg/sub", "tests", "a b", ".hidden", "x/y/z"]


def stmt(rng: random.Random):
    """-> (lines, [imported top-level names])"""
    lib = rng.choice(list(LIBS))
    lib2 = rng.choice(list(LIBS))
    k = rng.randrange(22)
    if k == 0:
        return [f"import {lib}"], [lib]
    if k == 1:
        return [f"import {lib}.sub.mod as m"], [lib]
    if k == 2:
        return [f"import {lib} as q, {lib2}.z"], [lib, lib2]
    if k == 3:
        return [f"from {lib} import thing"], [lib]
    if k == 4:
        return [f"from {lib}.deep.er import (", "    thing,", "    other as o,", ")"], [lib]
    if k == 5:
        return [f"def f{rng.randrange(99)}():", f"    import {lib}", f"    return {lib}"], [lib]
    if k == 6:
        return ["try:", f"    import {lib}", "except ImportError:", f"    from {lib2} import z"], [lib, lib2]
    if k == 7:
        return ["from typing import TYPE_CHECKING", "if TYPE_CHECKING:", f"    from {lib} import T"], [lib]
    if k == 8:
        return ["class A:", "    if True:", f"        import {lib}; import {lib2}"], [lib, lib2]
    if k == 9:
        return [f"import {rng.choice(STD)}"], []
    if k == 10:
        return [f"from {rng.choice(STD)} import x"], []
    if k == 11:
        return [f"# import {lib}", f'DOC = """', f"import {lib2}", '"""'], []
    if k == 12:
        return [f'__import__("os")', f"s = 'import {lib}'"], []
    if k == 14:
        return [rng.choice(["from . import x", "from .. import y as z", f"from .{rng.choice(MODS)} import q", f"from ..{lib} import w", f"from .{lib}.a import b"])], []
    if k == 15:
        return ["with open('EXECUTED', 'w') as f:", "    f.write('x')"], []
    if k == 16:
        return ["raise SystemExit(3)", f"import {lib}"], [lib]
    if k == 17:
        return [f"from {lib} import *"], [lib]
    if k == 18:
        return [f"async def g():", f"    async with x: ", f"        import {lib}"], [lib]
    if k == 19:
        return [f"match 1:", f"    case 1:", f"        from {lib} import a", f"    case _:", f"        import {lib2}"], [lib, lib2]
    if k == 20:
        return [f"x = lambda: 1;import {lib}  # import {lib2}"], [lib]
    return [f"import \\", f"    {lib}"], [lib]


def gen(rng: random.Random, tier, i):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10])
    roots = []
    files, disk, used = [], [], set()
    for m in rng.sample(MODS, rng.randrange(0, 3)):
        p = rng.choice([f"{m}.py", f"{m}/__init__.py"])
        files.append({"p": p, "kind": "good", "body": [], "imports": []})
        used.add(p)
        roots.append(m)
    for _ in range(n):
        p = os.path.join(rng.choice(DIRS), rng.choice(NAMES))
        if rng.random() < 0.3:
            p = os.path.join(os.path.dirname(p), f"m{rng.randrange(30)}{rng.choice(['', '_test'])}.py")
        if p in used or any(u.startswith(p + "/") or p.startswith(u + "/") for u in used):
            continue
        used.add(p)
        kind = rng.choices(["good", "syntax", "null", "undecodable", "latin1", "bom", "isdir", "dangling", "badcookie", "crlf", "empty", "tabs"],
                           [24, 3, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1])[0]
        f = {"p": p, "kind": kind, "body": [], "imports": []}
        if "/" not in p:
            roots.append(p[:-3])
        for _ in range(rng.randrange(0, 6)):
            lines, imps = stmt(rng)
            f["body"] += lines
            f["imports"] += imps
        files.append(f)
    # statements about the project's own modules need the final list of top-level modules
    for f in files:
        if f["kind"] in ("good", "latin1", "bom", "crlf") and rng.random() < 0.4 and roots:
            m = rng.choice(roots)
            f["body"].append(rng.choice(["import {}", "from {}.x import y", "from {} import z"]).format(m))
            f["imports"].append(m)
    for f in files:
        if f["kind"] in ("good", "latin1", "bom") and rng.random() < 0.12:
            f["fault"] = True
            disk.append({"op": rng.choice(["open-r", "open-r", "read"]), "glob": f"work/{f['p']}", "nth": 1,
                         "kind": rng.choice(["eio", "eacces", "enoent", "emfile", "eperm"]), "sticky": True})
    vanish = [f["p"] for f in files if "/" in f["p"] and not f.get("fault") and f["kind"] not in ("isdir", "dangling") and rng.random() < 0.15
              and not (f["p"].count("/") == 1 and f["p"].endswith("/__init__.py"))]
    return {"files": files, "disk": disk, "vanish": vanish if rng.random() < 0.4 else [], "vanish_at": rng.choice([0, 0, 1, 5, 40, 200]), "threads": rng.choice([1, 1, 1, 2, 3]),
            "rounds": rng.choice([1, 1, 2, 3]), "same": rng.random() < 0.5, "str": rng.random() < 0.5, "dirorder": rng.randrange(1 << 30),
            "loop": rng.random() < 0.15, "short_io": rng.choice([None, None, rng.randrange(1 << 30)]), "bystanders": rng.random() < 0.5}


def shrink(plan):
    for j in range(len(plan["files"])):
        p = plan["files"][j]["p"]
        yield {**plan, "files": plan["files"][:j] + plan["files"][j + 1:], "disk": [d for d in plan["disk"] if d["glob"] != f"work/{p}"],
               "vanish": [v for v in plan["vanish"] if v != p]}
    for k, v in (("threads", 1), ("rounds", 1), ("loop", False), ("bystanders", False), ("vanish", [])):
        if plan[k] != v:
            yield {**plan, k: v}


def content(f):
    t = "\n".join(f["body"]) + "\n"
    k = f["kind"]
    if k == "good":
        return t.encode()
    if k == "tabs":
        return ("if True:\n\tpass\n" + t).encode()
    if k == "crlf":
        return t.replace("\n", "\r\n").encode()
    if k == "syntax":
        return (t + "def broken(:\n").encode()
    if k == "null":
        return t.encode() + b"x = '\x00'\n"
    if k == "undecodable":
        return t.encode() + b"s = '\xff\xfe'\n"
    if k == "latin1":
        return b"# -*- coding: latin-1 -*-\n" + t.encode("latin-1", "replace") + b"s = '\xe9'\n"
    if k == "badcookie":
        return b"# -*- coding: no-such-codec -*-\n" + t.encode()
    if k == "bom":
        return b"\xef\xbb\xbf" + t.encode()
    return b""


BAD = {"syntax", "null", "undecodable", "isdir", "dangling", "badcookie"}


def model(files, gone=()):
    """-> set of (name, section). `gone`: paths that are treated as unreadable."""
    roots = set()
    for f in files:
        p = f["p"]
        if "/" not in p and p != "__init__.py":
            roots.add(p[:-3])
        elif p.count("/") == 1 and p.endswith("/__init__.py"):
            roots.add(p.split("/")[0])
    run, tests = set(), set()
    for f in files:
        if f["kind"] in BAD or f["p"] in gone or f["kind"] == "empty":
            continue
        base = os.path.basename(f["p"]).lower()
        to = tests if base.startswith("test_") or base.endswith("_test.py") else run
        to |= {LIBS.get(m, m).lower() for m in f["imports"] if m not in roots}
    return {(n, "run") for n in run} | {(n, "tests") for n in tests - run} | {("python", "host"), ("python", "run")}


def names(deps):
    return {(d.data.name, d.type.name.lower()) for d in deps}


def run(plan, sim, env):
    from pathlib import Path

    from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner
    from conda_recipe_manager.types import MessageCategory

    root = os.path.join(env.root, "work")
    env.mkdir("work")
    files = plan["files"]
    for f in files:
        if f["kind"] == "isdir":
            env.mkdir(f"work/{f['p']}")
        elif f["kind"] == "dangling":
            env.mkdir(os.path.dirname(f"work/{f['p']}"))
            os.symlink("/nonexistent/nowhere.py", os.path.join(root, f["p"]))
        else:
            env.put(f"work/{f['p']}", content(f))
    if plan["loop"]:
        env.mkdir("work/x")
        os.symlink("..", os.path.join(root, "x/loop"))
    if plan["bystanders"]:
        env.put("work/README.md", "import numpy\n")
        env.put("work/mod.pyc", b"\x00\x01")
        env.put("work/stub.pyi", "import tables\n")
        env.put("work/script", "#!/usr/bin/env python\nimport networkx\n")
    before = env.tree("work")
    os.chdir(env.root)
    fs = env.disk()
    faulted = {f["p"] for f in files if f.get("fault")}
    errors: list = []
    vanish = set(plan["vanish"])

    def one_round(scanner, who, rnd, may_vanish, gone):
        n0 = {c: len(scanner.get_message_table().get_messages(c)) for c in MessageCategory}
        got = names(scanner.scan())
        msgs = [m for c in MessageCategory for m in scanner.get_message_table().get_messages(c)[n0[c]:]]
        present = [f for f in files if f["p"] not in gone]
        bad = {f["p"] for f in present if f["kind"] in BAD} | (faulted - gone)
        what = f"scanner {who}, scan {rnd}"
        if not may_vanish:
            want = model(present, faulted)
            env.check(got == want, "dependencies", f"{what}: missing {sorted(want - got)[:4]}, extra {sorted(got - want)[:4]}")
        else:
            lo, hi = model(present, faulted | vanish), model(present, faulted)
            # a vanished file may take a RUN import along, which can turn up as a TESTS one from elsewhere
            names_lo, names_hi = {n for n, _ in lo}, {n for n, _ in hi}
            ns = {n for n, _ in got}
            env.check(names_lo <= ns <= names_hi, "dependencies", f"{what} while files vanish: missing {sorted(names_lo - ns)[:4]}, extra {sorted(ns - names_hi)[:4]}")
        dirs = {f["p"] for f in present if f["kind"] == "isdir"}
        for p in sorted(bad - dirs - (vanish if may_vanish else set())):
            env.check(any(p in m for m in msgs), "no-message", f"{what}: skipped {p} without a message; messages: {msgs[:3]}")
        extra = [m for m in msgs if not any(p in m for p in bad | (vanish if may_vanish else set()))]
        env.check(not extra, "spurious-message", f"{what}: message about a good file: {extra[:2]}")
        if not may_vanish:
            env.check(len(bad - dirs) <= len(msgs) <= len(bad), "message-count", f"{what}: {len(msgs)} messages for {len(bad - dirs)} skipped files")
        return got

    results = []

    def worker(who, may_vanish, gone):
        try:
            sc = None
            for rnd in range(plan["rounds"]):
                if sc is None or not plan["same"]:
                    sc = PythonDependencyScanner(root if plan["str"] else Path(root))
                results.append(one_round(sc, who, rnd, may_vanish, gone))
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    ts = [sim.spawn(worker, (k, bool(vanish), set()), name=f"scan{k}") for k in range(plan["threads"])]
    if vanish:
        def remover():
            for _ in range(plan["vanish_at"]):
                sim.point("wait", log=False)
            for p in sorted(vanish):
                sim.log("vanish", p)
                from dst import fs as fsmod

                fsmod.REAL["unlink"](os.path.join(root, p))
                sim.point("vanish", log=False)

        ts.append(sim.spawn(remover, (), name="remover"))
    for t in ts:
        sim.join(t)
    if errors:
        raise errors[0]
    fs.enabled = False
    faulted_now = set(faulted)
    faulted.clear()
    after = env.tree("work")
    for v in vanish:
        before.pop(v, None)
    env.check(after == before and not fs.mut_log, "modified", f"the scan changed the project: {fs.mut_log[:3]} {sorted(set(after) ^ set(before))[:3]}")
    env.check(env.get("EXECUTED") is None and not os.path.exists("EXECUTED"), "executed", "a project file was executed")
    # once the disk is well again, exactly the hidden imports come back
    one_round(PythonDependencyScanner(root), "last", 0, False, vanish)
    env.nontrivial = len(files) > 0
    env.note(sorted(results[0]) if results else None, len(files), sorted(f["kind"] for f in files), plan["threads"], plan["rounds"], len(faulted_now), len(vanish))
    env.sample = f"{len(files)} files ({sum(f['kind'] in BAD for f in files)} bad, {len(faulted_now)} unreadable, {len(vanish)} vanish) -> {len(results[0]) if results else 0} dependencies"
