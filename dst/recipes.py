"""
Recipe texts for the bump scenarios. A recipe is described by a JSON spec; `text(spec, state)` gives its exact canonical
text for a given state (version, build number, checksums), computed without the code under test. The expected effect of
a bump is a change of state, so the expected file is `text(spec, new_state)`.

state = {"version": str, "number": int|None, "shas": [str|None per source], "var_sha": str|None}
"""

from __future__ import annotations

import random

VERSIONS = [
    "1.2.3", "2.0", "2.0.0rc1", "10.4.12", "2024.1", "2024.01.15", "0.0.1", "7", "1.10", "3.0", "0123", "1:30",
    "2024-01-01", "1e5", "1.2.3+local.1", "1!2.0", "0x1f", "1_000", "v1.2", "4.10.0", "12.20", "1.0", "9e", "1.2.3.dev4",
    "00", "1.00", "2024-13-45", "12:30:45", "0o17", "3.1e2",
]
HASH_VARS = ["sha256", "hash", "hash_val", "hash_value"]
NAMES = ["foo", "py-lib", "Foo_Bar", "libx11", "r-base", "a"]
HOSTS = ["example.org", "dl.example.net", "mirror.test", "files.example.com:8443"]


def hexsha(rng: random.Random) -> str:
    return "%064x" % rng.getrandbits(256)


def version(rng: random.Random, not_this: str = "") -> str:
    while True:
        v = rng.choice(VERSIONS) if rng.random() < 0.6 else ".".join(
            str(rng.randrange(0, 30)) for _ in range(rng.randrange(2, 5))
        )
        if v != not_this:
            return v


def gen(rng: random.Random, n_sources: int | None = None, allow_nonhttp: bool = True, plain: bool = False) -> dict:
    """A random spec."""
    schema = rng.choice([0, 0, 1])
    ver_in = rng.choices(["var", "pkg", "none"], [8, 3, 0 if plain else 1])[0]
    n = n_sources if n_sources is not None else rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])
    name = rng.choice(NAMES)
    single = n == 1 and rng.random() < 0.7
    sources = []
    # Sources are told apart by the file name, or only by the directory or host (mirrors, per-platform builds).
    by_dir = rng.random() < 0.4
    same_ext = rng.choice(["tar.gz", "zip", "tgz"])
    same_stem = rng.choice(["@L", "pkg"])
    for i in range(n):
        t = "http"
        if allow_nonhttp and n > 1 and rng.random() < 0.25:
            t = rng.choice(["git", "path"])
        elif allow_nonhttp and n == 1 and rng.random() < 0.08:
            t = rng.choice(["git", "path"])
        s: dict = {"t": t}
        if t == "http":
            ext = rng.choice(["tar.gz", "tar.gz", "zip", "tar.bz2", "tar.xz", "tgz", "tar"])
            parts = [rng.choice(["https://", "https://", "http://"]), rng.choice(HOSTS), "/"]
            if rng.random() < 0.5:
                # (the first form is how PyPI lays out its archives)
                parts += rng.choice([["@N0", "/", "@N", "/"], ["@N0L", "/", "@U", "/"], ["@N~", "/"], ["@N", "/"], ["@N", "/"]])
            if rng.random() < 0.4:
                parts += rng.choice([["releases/v", "@V", "/"], ["releases/v", "@V", "/"], ["v", "@V0", ".x/"], ["@V~", "/"]])
            if rng.random() < 0.85:
                parts += [rng.choice(["@L", "@N", "@U", "pkg"]), "-", rng.choice(["@V", "@V", "@V~"])]
            else:
                parts += ["latest"]
            if n > 1 and by_dir:
                parts = [parts[0], HOSTS[0], f"/{'abcdefgh'[i]}/", *rng.choice([[], ["releases/v", "@V", "/"]]),
                         same_stem, "-", "@V", "." + same_ext]
            else:
                if n > 1:
                    parts.append(f"-{'abcdefgh'[i]}")
                parts.append("." + ext)
            s["url"] = parts
            s["sha"] = rng.choices(["have", "none"], [6, 1])[0]
            s["pre"] = rng.choice([[], [], ["fn: x.tar.gz"] if schema == 0 else ["file_name: x.tar.gz"]])
            s["mid"] = rng.choice([[], [], [["patches", ["p1.patch", "p2.patch"]]], ["folder: sub", ]])
            if schema == 1 and s["mid"] == ["folder: sub"]:
                s["mid"] = ["target_directory: sub"]
            s["sel"] = rng.choice(["", "", "  # [linux]", "  # [win and x86_64]", "  # mirror"]) if schema == 0 else ""
        elif t == "git":
            s["url"] = ["https://git.example.org/", "@N", ".git"]
            s["tag"] = rng.choice([["v", "@V"], ["main"]])
        sources.append(s)
    if ver_in != "var":
        for s in sources:
            if "url" in s:
                s["url"] = [p if p not in VER_TOKENS else "9.9" for p in s["url"]]
            if "tag" in s:
                s["tag"] = [p if p not in VER_TOKENS else "9.9" for p in s["tag"]]
    spec = {
        "schema": schema,
        "name": name,
        "ver_in": ver_in,
        "sources": sources,
        "single": single,
        "shavar": None,
        "decoy": None,
        "set_expr": None,
        "build": rng.sample(["skip", "noarch", "script", "whitelist", "comment"], rng.randrange(0, 4)),
        "number_first": rng.random() < 0.6,
        "tail": sorted(rng.sample(range(7), rng.randrange(0, 6))),
        "head_comment": rng.random() < 0.3,
        "vars": rng.choice([[], [], [["build_extra", 7]], [["other", "text"], ["flag", 3]]]),
        "name_var": rng.random() < 0.7,
        "variant": rng.randrange(1000),
    }
    if single and sources[0]["t"] == "http" and rng.random() < 0.35:
        spec["shavar"] = rng.choice(HASH_VARS)
        sources[0]["sha"] = "var"
    elif n and rng.random() < 0.12:
        # A hash-like variable no checksum refers to: it must be left alone.
        spec["decoy"] = [rng.choice(HASH_VARS), hexsha(rng)]
        http = [s for s in sources if s["t"] == "http"]
        if http and not single and rng.random() < 0.4:
            # A checksum in a list of sources that is given by a variable: it is replaced in place.
            rng.choice(http)["sha"] = "litvar"
        elif http and single and rng.random() < 0.3:
            # Two hash variables: it is unclear which to change, so the checksum is replaced in place.
            sources[0]["sha"] = "litvar"
            spec["vars"] = spec["vars"] + [[next(v for v in HASH_VARS if v != spec["decoy"][0]), hexsha(rng)]]
        spec["decoy_used"] = rng.random() < 0.5
    return spec


def add_hashkey(rng: random.Random, spec: dict) -> dict:
    """Perhaps spells the checksum keys with a variable (`{{ hash_type }}: ...`), which a bump writes out."""
    names = {spec["shavar"], *(v[0] for v in spec["vars"]), *(spec["decoy"] or [])[:1]}
    if spec["schema"] == 0 and (spec["name_var"] or spec["ver_in"] == "var") and rng.random() < 0.12:
        var = rng.choice([v for v in ("hash_type", "hashtype", "hash") if v not in names])
        spec["hashkey"] = [var, rng.choice(["", "", "'"]), rng.choice([0, 1, 99])]
    return spec


def initial_state(rng: random.Random, spec: dict) -> dict:
    return {
        "version": version(rng),
        "number": rng.choice([0, 0, 1, 2, 9, 99, None]),
        "shas": [hexsha(rng) if s.get("sha") == "have" else None for s in spec["sources"]],
        "var_sha": hexsha(rng) if spec["shavar"] else None,
    }


VER_TOKENS = ("@V", "@V~", "@V0")
# how each token is written, and what it reads as
TOKENS = {
    "@V": (" version ", lambda v: v), "@V~": ("version", lambda v: v), "@V0": (" version[0] ", lambda v: v[:1]),
    "@N": (" name ", lambda v: v), "@N~": ("name", lambda v: v), "@L": (" name|lower ", str.lower), "@U": (" name | upper ", str.upper),
    "@N0": (" name[0] ", lambda v: v[:1]), "@N0L": (" name[0]|lower ", lambda v: v[:1].lower()),
}


def _sub(spec: dict, token: str) -> str:
    if token not in TOKENS:
        return token
    o, c = ("{{", "}}") if spec["schema"] == 0 else ("${{", "}}")
    if token in VER_TOKENS or spec["name_var"]:
        return f"{o}{TOKENS[token][0]}{c}"
    return spec["name"]


def resolve(spec: dict, parts: list[str], version_: str) -> str:
    """The URL as it reads with the variables substituted."""
    out = []
    for p in parts:
        if p in VER_TOKENS:
            out.append(TOKENS[p][1](version_))
        elif p in TOKENS:
            out.append(TOKENS[p][1](spec["name"]) if spec["name_var"] else spec["name"])
        else:
            out.append(p)
    return "".join(out)


def urls(spec: dict, version_: str) -> list[str | None]:
    return [resolve(spec, s["url"], version_) if s["t"] == "http" else None for s in spec["sources"]]


def text(spec: dict, state: dict) -> str:
    v0 = spec["schema"] == 0
    L: list[str] = []
    variables: list[list] = []
    if spec["name_var"]:
        variables.append(["name", spec["name"]])
    if spec["ver_in"] == "var":
        variables.append(["version", state["version"]])
    if spec["shavar"]:
        variables.append([spec["shavar"], state["var_sha"]])
    if spec["decoy"]:
        variables.append(spec["decoy"])
    variables += spec["vars"]
    hk = None if state.get("cleaned") else spec.get("hashkey")
    sha_key = f"{hk[1]}{{{{ {hk[0]} }}}}{hk[1]}" if hk else "sha256"
    if hk:
        variables.insert(hk[2], [hk[0], "sha256"])
    if v0:
        for k, v in variables:
            L.append(f"{{% set {k} = {v} %}}" if isinstance(v, int) else f'{{% set {k} = "{v}" %}}')
        if spec["set_expr"]:
            L.append(f"{{% set major = {spec['set_expr']} %}}")
        if L:
            L.append("")
    else:
        L += ["schema_version: 1", ""]
        if variables:
            L.append("context:")
            L += [f"  {k}: {v}" for k, v in variables]
            L.append("")
    if spec["head_comment"]:
        L.append("# Maintained by hand; see the notes below")
    L.append("package:")
    L.append(f"  name: {_sub(spec, '@L') if spec['variant'] % 2 else _sub(spec, '@N')}")
    if spec["ver_in"] == "var":
        L.append(f"  version: {_sub(spec, '@V')}")
    elif spec["ver_in"] == "pkg" or state.get("added_version"):
        L.append(f"  version: {state['version']}")
    L.append("")
    if spec["sources"]:
        L.append("source:")
        if spec["variant"] % 5 == 0:
            L.append("  # upstream archives")
        for i, s in enumerate(spec["sources"]):
            body: list[str] = []
            if s["t"] == "path":
                body.append(f"path: ../local{i}")
            elif s["t"] == "git":
                u = "".join(_sub(spec, p) for p in s["url"])
                tag = "".join(_sub(spec, p) for p in s["tag"])
                body.append(f"{'git_url' if v0 else 'git'}: {u}")
                body.append(f"{'git_tag' if v0 else 'tag'}: {tag}")
            else:
                body += s["pre"]
                body.append("url: " + "".join(_sub(spec, p) for p in s["url"]) + s["sel"])
                if s["sha"] == "var":
                    o, c = ("{{ ", " }}") if v0 else ("${{ ", " }}")
                    body.append(f"{sha_key}: {o}{spec['shavar']}{c}")
                elif s["sha"] == "litvar" and not state["shas"][i]:
                    o, c = ("{{ ", " }}") if v0 else ("${{ ", " }}")
                    body.append(f"{sha_key}: {o}{spec['decoy'][0]}{c}")
                elif s["sha"] in ("have", "litvar"):
                    body.append(f"{sha_key}: {state['shas'][i]}")
                for m in s["mid"]:
                    if isinstance(m, list):
                        body.append(f"{m[0]}:")
                        body += [f"  - {x}" for x in m[1]]
                    else:
                        body.append(m)
                if s["sha"] == "none" and state["shas"][i]:
                    body.append(f"{sha_key}: {state['shas'][i]}")
            if spec["single"]:
                L += ["  " + b for b in body]
            else:
                L.append("  - " + body[0])
                L += ["    " + b for b in body[1:]]
        L.append("")
    L.append("build:")
    num = [] if state["number"] is None else [f"  number: {state['number']}"]
    had = state.get("number_was_absent") is not True
    if spec["number_first"] and had:
        L += num
    for b in spec["build"]:
        if b == "skip":
            L += ["  skip: true  # [py<38]"] if v0 else ["  skip:", "    - py<38"]
        elif b == "noarch":
            L.append("  noarch: python")
        elif b == "script":
            if v0:
                L.append("  script: {{ PYTHON }} -m pip install . -vv --no-deps")
            else:
                L += ["  script:", "    - ${{ PYTHON }} -m pip install . -vv", "    - echo done"]
        elif b == "whitelist":
            if v0:
                L += ["  missing_dso_whitelist:", '    - "**/lib.so"', "    - /usr/lib/x.so  # [osx]"]
            else:
                L += ["  dynamic_linking:", "    missing_dso_allowlist:", '      - "**/lib.so"']
        elif b == "comment":
            L.append("  # keep this remark")
    if not spec["number_first"] or not had:
        L += num
    L.append("")
    if spec.get("decoy_used"):
        o, c = ("{{ ", " }}") if v0 else ("${{ ", " }}")
        L += ["notes:", f"  checksum: {o}{spec['decoy'][0]}{c}", ""]
    for t in spec["tail"]:
        L += _tail(t, v0)
    return "\n".join(L[:-1]) + "\n"


def _tail(t: int, v0: bool) -> list[str]:
    o, c = ("{{ ", " }}") if v0 else ("${{ ", " }}")
    if t == 0:
        L = ["requirements:", "  build:", f"    - {o}compiler('c'){c}", "  host:", "    - python", "    - numpy >=1.10,<2"]
        if v0:
            L[-1] += "  # [py>37]"
        return L + ["  run:", "    - python", "    - version-helper 1.2.3", "    # the next one is odd", "    - number", ""]
    if t == 1:
        if v0:
            return ["test:", "  imports:", "    - foo", "  commands:", "    - foo --version  # [unix]", ""]
        return ["tests:", "  - python:", "      imports:", "        - foo", "  - script:", "      - foo --version", ""]
    if t == 2:
        return ["about:", "  home: https://example.org/version", "  license: MIT", "  summary: number 3 of version 1.2.3", ""]
    if t == 3:
        if v0:
            return ["outputs:", "  - name: foo-lib", f"    version: {o}version{c}", "    build:", "      number: 3",
                    "    requirements:", "      run:", "        - bar", "  - name: foo-extra", "    files:",
                    "      - lib/x", ""]
        return []
    if t == 4:
        return ["extra:", "  recipe-maintainers:", "    - someone", "    - someone-else  # sha256: 0000", ""]
    if t == 5:
        return ["# A closing remark about version 1.2.3"] + ["app:", "  entry: foo", ""]
    if t == 6:
        return ["misc:", "  description: |", "    First line  # not a comment", "", "    number: 12", "  sha256: cafe", ""]
    return []


def apply_bump(spec: dict, state: dict, build: bool, target: str | None, shas: dict[int, str]) -> dict:
    """The state after a successful bump. `shas[i]`: checksum served for source i."""
    st = {**state, "shas": list(state["shas"]), "cleaned": True}
    if build and state["number"] is not None:
        st["number"] = state["number"] + 1
    else:
        if state["number"] is None:
            st["number_was_absent"] = True
        st["number"] = 0
    if target is not None:
        st["version"] = target
        if spec["ver_in"] == "none":
            st["added_version"] = True
        for i, s in enumerate(spec["sources"]):
            if s["t"] == "http":
                if s["sha"] == "var":
                    st["var_sha"] = shas[i]
                else:
                    st["shas"][i] = shas[i]
    return st
