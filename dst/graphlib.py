"""
Collections of recipes for the graph scenarios: every recipe is a JSON spec, `text(spec)` writes it out and
`packages(spec)` says, without the code under test, which packages it defines and what each of them needs.
Also the recorder that replaces the plotting back end.
"""

from __future__ import annotations

import random
import re

NAMES = [f"pkg{c}" for c in "abcdefghij"] + ["py-lib", "lib_x", "r.base"]
EXT = ["python", "numpy", "zlib", "cmake", "openssl"]
SECTIONS = ["build", "host", "run", "run_constrained"]
SPECS = ["", "", " >=1.2", " >=1.2,<3", " ==1.0", " 3.*"]
JINJA = ["compiler('c')", "compiler('cxx')", "stdlib('c')", "pin_subpackage('zz')", "pin_compatible('numpy')"]


def _deps(rng: random.Random, own: str) -> dict:
    out = {}
    for s in SECTIONS:
        if rng.random() < 0.6:
            lst = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                if r < 0.1:
                    lst.append(["j", rng.choice(JINJA)])
                elif r < 0.16:
                    lst.append(["v", rng.choice(["", "-core", "-dev"])])  # name variable + suffix
                else:
                    n = rng.choice(NAMES) if rng.random() < 0.7 else rng.choice(EXT)
                    if rng.random() < 0.05:
                        n = own  # self dependency
                    lst.append(["p", n, rng.choice(SPECS), rng.choice(["", "", "", "linux", "not win"])])
            out[s] = lst
    for s in ("run_exports", "requires", "weird"):
        if rng.random() < 0.1:
            out[s] = [["p", rng.choice(NAMES + EXT), rng.choice(SPECS), ""] for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.06:
        out["scalar"] = []
    if rng.random() < 0.5:
        out = dict(rng.sample(sorted(out.items()), len(out)))
    return out


def gen_recipe(rng: random.Random) -> dict:
    kind = rng.choices(["ok", "broken", "undecodable", "twice", "noname", "reqlist", "dir"], [20, 1.5, 1, 1, 0.7, 1, 0.4])[0]
    name = rng.choice(NAMES)
    r = {"kind": kind, "schema": rng.choice([0, 0, 1]), "name": name, "n": rng.randrange(4), "deps": _deps(rng, name), "outs": [], "var": rng.random() < 0.6}
    if rng.random() < 0.35 or kind == "twice":
        outs = rng.sample([n for n in NAMES if n != name], rng.choice([1, 2, 3]))
        r["outs"] = [{"name": o, "deps": _deps(rng, o)} for o in outs]
        if kind == "twice":
            r["outs"].append({"name": name if rng.random() < 0.5 else outs[0], "deps": {}})
    return r


def _dep_lines(r, deps, ind):
    v1 = r["schema"] == 1
    out = []
    for s, lst in deps.items():
        if s == "scalar":  # only lists hold dependencies
            out += [f"{ind}{k}: pkga" for k in ("build", "host", "run") if k not in deps][:1]
            continue
        out.append(f"{ind}{'run_constraints' if v1 and s == 'run_constrained' else s}:")
        for d in lst:
            if d[0] == "j":
                out.append(f"{ind}  - {'$' if v1 else ''}{{{{ {d[1]} }}}}")
            elif d[0] == "v":
                base = (("${{ name }}" if v1 else "{{ name }}") if r["var"] else r["name"])
                out.append(f"{ind}  - {base}{d[1]}")
            else:
                out.append(f"{ind}  - {d[1]}{d[2]}" + (f"  # [{d[3]}]" if d[3] and not v1 else ""))
    return out


def text(r: dict) -> str | bytes:
    k = r["kind"]
    if k == "broken":
        return ["foo: [unclosed\n", "a: b: c\n", "build:\n  number: *missing\n", "package:\n  name: @x\n"][r["n"] % 4]
    if k == "undecodable":
        return b"package:\n  name: caf\xe9\n"
    v1 = r["schema"] == 1
    L = []
    if v1:
        L += ["schema_version: 1", ""]
        if r["var"]:
            L += ["context:", f"  name: {r['name']}", f'  version: "1.{r["n"]}"', ""]
    elif r["var"]:
        L += [f'{{% set name = "{r["name"]}" %}}', f'{{% set version = "1.{r["n"]}" %}}', ""]
    ref = (("${{ name }}" if v1 else "{{ name }}") if r["var"] else r["name"])
    L += ["recipe:" if v1 and r["outs"] else "package:"]
    if k != "noname":
        L.append(f"  name: {ref}")
    L += [f'  version: "2.{r["n"]}"', "", "build:", f"  number: {r['n']}", ""]
    if k == "reqlist":
        L += ["requirements:", "  - python", ""]
    elif r["deps"]:
        L += ["requirements:", *_dep_lines(r, r["deps"], "  "), ""]
    if r["outs"]:
        L.append("outputs:")
        for o in r["outs"]:
            if v1:
                L += ["  - package:", f"      name: {o['name']}"]
            else:
                L.append(f"  - name: {o['name']}")
            if o["deps"]:
                L += ["    requirements:", *_dep_lines(r, o["deps"], "      ")]
    return "\n".join(L).rstrip() + "\n"


def norm(n: str) -> str:
    """Node names of unresolved Jinja expressions are compared by the expression only."""
    return re.sub(r"[\s${}]", "", n).replace('"', "'") if "{{" in n else n


def packages(r: dict):
    """:returns: {package: {"build": set, "test": set}} or None when the recipe's dependencies cannot be listed"""
    if r["kind"] != "ok":
        return None

    def edges(deps):
        e = {"build": set(), "test": set()}
        for s, lst in deps.items():
            g = {"build": "build", "host": "build", "run": "test", "requires": "test"}.get(s)
            if g is None:
                continue
            for d in lst:
                e[g].add(norm("{{" + d[1] + "}}") if d[0] == "j" else r["name"] + d[1] if d[0] == "v" else d[1])
        return e

    root = edges(r["deps"])
    out = {r["name"]: root}
    for o in r["outs"]:
        e = edges(o["deps"])
        out[o["name"]] = {g: e[g] | root[g] for g in e}
    return out


class Model:
    """What the graph of a collection {path: spec} (minus the unreadable paths) must be."""

    def __init__(self, files: dict[str, dict], unreadable: set[str]):
        self.failed = set()
        self.dirs = {p for p in files if files[p]["kind"] == "dir"}  # named like recipes: left out, or counted as unreadable
        self.dep_failed = []  # spec of each distinct recipe whose dependencies cannot be listed
        self.edges = {"build": set(), "test": set()}
        self.packages: dict[str, str] = {}
        self.dups = set()
        seen = set()
        for p in sorted(files, key=lambda x: x.split("/")):
            r = files[p]
            if p in self.dirs:
                continue
            if p in unreadable or r["kind"] in ("broken", "undecodable"):
                self.failed.add(p)
                continue
            t = text(r)
            if t in seen:
                continue
            seen.add(t)
            pk = packages(r)
            if pk is None:
                self.dep_failed.append(r)
                continue
            for name, e in pk.items():
                if name in self.packages:
                    self.dups.add(name)
                    continue
                self.packages[name] = p
                for g in e:
                    self.edges[g] |= {(name, d) for d in e[g]}
        self.parsed = len(seen)
        self.total = self.parsed + len(self.failed)
        self.nodes = {g: set(self.packages) | {d for _, d in self.edges[g]} for g in self.edges}

    def reach(self, g: str, start: str, back: bool) -> set[str]:
        nxt: dict[str, set] = {}
        for a, b in self.edges[g]:
            if back:
                a, b = b, a
            nxt.setdefault(a, set()).add(b)
        seen, todo = {start}, [start]
        while todo:
            for m in nxt.get(todo.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen


class Plots:
    """Stands in for matplotlib/graphviz: remembers every graph that was drawn; can fail on demand."""

    def __init__(self, sim, faults=()):
        import matplotlib.pyplot as plt
        import networkx as nx

        from conda_recipe_manager.grapher import recipe_graph as rg

        self.sim = sim
        self.calls: list[tuple[set, set]] = []
        self.shown = 0
        self.faults = {f["nth"]: f for f in faults}
        self.count = 0
        self.fired = 0

        def layout(g, *a, **k):
            self.count += 1
            self._maybe("layout")
            return {n: (0.0, 0.0) for n in g}

        def draw(g, *a, **k):
            self._maybe("draw")
            self.calls.append(({norm(n) for n in g.nodes}, {(norm(a), norm(b)) for a, b in g.edges}))

        def show(*a, **k):
            sim.point("plot-show")
            self._maybe("show")
            self.shown += 1

        rg.graphviz_layout = layout
        nx.nx_agraph.graphviz_layout = layout
        nx.draw = draw
        nx.draw_networkx = draw
        plt.show = show
        for n in ("figure", "axis", "title", "close", "clf"):
            setattr(plt, n, lambda *a, **k: None)

    def _maybe(self, at: str) -> None:
        f = self.faults.get(self.count)
        if f is None or f["at"] != at:
            return
        self.fired += 1
        self.sim.fault(f"plot-{at}-{f['how']}")
        if f["how"] == "intr":
            raise KeyboardInterrupt()
        raise {"import": ImportError("requires pygraphviz"), "os": OSError(2, "dot not found"), "value": ValueError("Program dot not found in path."),
               "mem": MemoryError()}[f["how"]]


def graph_of(plots: Plots, g, gtype):
    """The whole graph of one type, as a user would see it."""
    k = len(plots.calls)
    g.plot(gtype)
    return plots.calls[k] if len(plots.calls) > k else None
