"""Recipe texts for the conversion scenarios, and a reader for what single-file `crm convert` reports."""

from __future__ import annotations

import os
import random
import re

from dst import recipes as R

CORPUS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus")
V0 = sorted(n for n in os.listdir(CORPUS) if n.endswith(".yaml") and not n.startswith("v1_"))
V1 = sorted(n for n in os.listdir(CORPUS) if n.startswith("v1_"))
SMALL = [n for n in V0 if os.path.getsize(os.path.join(CORPUS, n)) < 2600]

_cache: dict[str, str] = {}


def corpus(name: str) -> str:
    if name not in _cache:
        with open(os.path.join(CORPUS, name), encoding="utf-8") as f:
            _cache[name] = f.read()
    return _cache[name]


def base_text(key: str) -> str:
    """`corpus:NAME` or `gen:SEED` (a V0 recipe)."""
    kind, v = key.split(":", 1)
    if kind == "corpus":
        return corpus(v)
    rng = random.Random(f"conv:{v}")
    while True:
        s = R.gen(rng, n_sources=rng.choice([0, 1, 2]))
        if s["schema"] == 0:
            return R.text(s, R.initial_state(rng, s))


TWISTS = ["rich", "rich", "env-error", "doc-warning", "license-warning", "rename", "dep", "pin", "test", "comment", "repeat"]


PIP = ["pip check", "python -m pip check", "python3 -m pip check"]


def rich(t: str, has: set, n: int) -> str:
    """Adds several instances of everything the converter rewrites, so that the order it visits them in would show."""
    rng = random.Random(f"rich:{n}")

    def some(pool, lo=2):
        return rng.sample(pool, rng.randint(min(lo, len(pool)), len(pool)))

    if "build" in has and not re.search(r"^build:[^\n]*\n  (script_env|rpaths|skip_compile_pyc|entry_points)", t, re.M):
        lists = ["ignore_prefix_files", "rpaths", "missing_dso_whitelist", "runpath_whitelist", "no_link", "entry_points", "msvc_compiler", "disable_pip", "pre-link"]
        extra = "".join(f"  {k}:\n" + "".join(f"    - {k}{j}\n" for j in range(2)) for k in some(lists) if f"  {k}:" not in t)
        if "script_env" not in t:
            extra += "  script_env:\n" + "".join(f"    - {v}\n" for v in some(["A=1", "B=2", "C", "D", "E=x=y", "F  # [osx]", "G: h"]))
        t = re.sub(r"^build:[^\n]*\n", lambda m: m.group(0) + extra, t, count=1, flags=re.M)
    if "build" in has and rng.random() < 0.6:
        extra = some(["  run_exports:\n    - libx\n    - liby  # [linux]\n", "  ignore_run_exports:\n    - libz\n", "  skipt: true  # [win]\n", "  merge_build_host: true  # [osx]\n",
                      "  detect_binary_files_with_prefix: true\n", "  binary_relocation: false  # [linux and py<38]\n", "  features:\n    - f1\n", "  script: make  # [unix]\n"], 1)
        extra = [x for x in extra if x.split(":")[0].strip() not in t]
        t = re.sub(r"^build:[^\n]*\n", lambda m: m.group(0) + "".join(extra), t, count=1, flags=re.M)
    if "source" not in has and rng.random() < 0.6:
        srcs = some(["    svn_url: https://svn.example.org/x\n", "    hg_url: https://hg.example.org/x\n", "    url: https://e.org/a.tar.gz\n    fn: a.tgz\n    folder: sub\n    sha256: abc\n",
                     "    git_url: https://e.org/r.git\n    git_tag: v1\n    git_depth: 1\n    patches:\n      - a.patch\n      - b.patch  # [win]\n",
                     "    git_url: https://e.org/r.git  # [linux]\n    git_rev: abc123\n", "    path: ../src\n    folder: here\n"], 1)
        if len(srcs) == 1:
            t += "\nsource:\n" + srcs[0].replace("\n  ", "\n")[2:]
        else:
            t += "\nsource:\n" + "".join("  - " + x[4:] for x in srcs)
    if "extras" not in has and "extra" not in has and rng.random() < 0.4:
        t += f"\n{rng.choice(['extras', 'extra'])}:\n  recipe-maintainers:\n    - one\n    - two\n"
    if rng.random() < 0.3:
        t = "".join(some([f"{{% set lst{n} = [1, 2] %}}\n", "{% set tbl = {'a': 1} %}\n", "{% set up = name|upper %}\n", "{% set cc = compiler('c') %}\n", "{% set flag = True %}\n"], 1)) + t
    if "requirements" not in has:
        t += "\nrequirements:\n  host:\n    - python\n    - pip\n" + "".join(f"    - {d}\n" for d in some(["libz  # [linux]", "liba  # [win]", "libb  # [py<38]", "libc  # [linux]", "libd  # [py2k]"]))
        t += "  run:\n    - python\n" + "".join(f"    - {d}\n" for d in some(["libe  # [osx]", "{{ pin_compatible('numpy') }}", "{{ compiler('c') }}", "libf {{ version }}"]))
        t += "  run_constrained:\n    - libq >1\n"
    if "test" not in has:
        t += "\ntest:\n  commands:\n" + "".join(f"    - {c}\n" for c in some([*PIP, *PIP, "mod --help", "mod -V  # [unix]"]))
        t += "".join(some(["  imports:\n    - mod\n    - mod.sub\n", "  requires:\n    - pip\n    - pytest\n", "  files:\n    - a.txt\n    - b.txt\n",
                           "  source_files:\n    - tests\n    - conf\n", "  downstreams:\n    - other\n"]))
    if "about" not in has:
        fields = ["home: https://example.org", "dev_url: https://example.org/dev", "doc_url: https://example.org/doc", "license: apache 2", "license: Nope",
                  "prelink_message: m.txt", "license_family: MIT", "doc_source_url: https://example.org/src"]
        chosen = {f.split(":")[0]: f for f in some(fields, 4)}
        t += "\nabout:\n" + "".join(f"  {f}\n" for f in chosen.values())
        t += "".join(some(["  tags:\n    - a\n    - b\n", "  keywords:\n    - c\n", "  identifiers:\n    - x:1\n"], 1))
    return t


def twist(text: str, name: str, n: int) -> str:
    """A change that keeps the recipe convertible but adds content, messages or variety."""
    t = text if text.endswith("\n") else text + "\n"
    has = {m.group(1) for m in re.finditer(r"^(\w+):", t, re.M)}
    if name == "rich":
        return rich(t, has, n)
    if name == "env-error" and "build" in has and "script_env" not in t:
        return re.sub(r"^build:[^\n]*\n", lambda m: m.group(0) + f"  script_env:\n    - SECRET{n}=X  # [osx]\n    - OTHER\n", t, count=1, flags=re.M)
    if name == "doc-warning" and "about" not in has:
        return t + f"\nabout:\n  home: https://example.org/{n}\n  license: MIT\n  doc_source_url: https://example.org/src{n}\n"
    if name == "license-warning" and "about" not in has:
        return t + f"\nabout:\n  license: Some License {n}\n  license_family: OTHER{n}\n"
    if name == "repeat" and "outputs" not in has:
        outs = "".join(f"  - name: out{n}-{k}\n    about:\n      license: NOT-A-LICENSE\n" for k in range(2 + n % 3))
        return t + f"\noutputs:\n{outs}"
    if name == "dep" and "requirements" not in has:
        return t + f"\nrequirements:\n  host:\n    - python >=3.{n % 10}\n    - lib{n}  # [linux]\n  run:\n    - python\n    - numpy >=1.{n}  # [not win]\n"
    if name == "pin" and "requirements" not in has:
        return t + f"\nrequirements:\n  build:\n    - {{{{ compiler('c') }}}}\n  run:\n    - {{{{ pin_compatible('numpy', max_pin='x.{'x' * (n % 3)}') }}}}\n"
    if name == "test" and "test" not in has:
        return t + f"\ntest:\n  imports:\n    - mod{n}\n  commands:\n    - pip check\n    - mod{n} --help  # [unix]\n  requires:\n    - pip\n"
    if name == "comment":
        return f"# comment {n}\n" + t
    return t


BROKEN = ["foo: [unclosed\n", "a: b: c\n", "build:\n  number: *missing\n", "package:\n  name: @x\n", "\tfoo: bar\n"]


def content(spec: dict) -> str | bytes:
    k = spec["kind"]
    if k == "ok":
        t = base_text(spec["base"])
        for tw, n in spec.get("twists", []):
            t = twist(t, tw, n)
        return t
    if k == "broken":
        return BROKEN[spec["n"] % len(BROKEN)]
    if k == "v1":
        return "schema_version: 1\n\npackage:\n  name: x\n  version: 1.0.0\n"
    if k == "undecodable":
        return b"package:\n  name: caf\xe9\n"
    if k == "empty":
        return ["", "\n", "# only a comment\n"][spec["n"] % 3]
    return base_text("gen:1")


class Single:
    """What `crm convert FILE` said about one recipe."""

    def __init__(self, res):
        self.code = res.code
        self.out = res.out
        self.errors = [ln[len("[ERROR]: "):] for ln in res.err.splitlines() if ln.startswith("[ERROR]: ")]
        self.warnings = [ln[len("[WARNING]: "):] for ln in res.err.splitlines() if ln.startswith("[WARNING]: ")]
        self.exception = next((ln for ln in res.err.splitlines() if ln.startswith(("EXCEPTION: ", "ILLEGAL OPERATION: "))), None)
