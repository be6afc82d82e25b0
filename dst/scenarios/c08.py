"""C08: a git artifact holds exactly the tree of the requested target, or the documented error; the origin is never changed."""

import json
import os
import random
import shutil
import subprocess
import traceback

COUNTS = {"quick": 2500, "thorough": 12000}
RULE = (
    "One run = one git artifact object (or two threads with one each) over an origin repository (remote over file://, "
    "local work tree, or initially missing) that changes between fetches, with git-command failures at clone/checkout, "
    "failed spawns and disk faults inside some fetches. Distinct by (interleaving, outcomes)."
)
REAL = ["GitArtifactFetcher", "GitPython", "git (binary)"]
STUB = ["remote transport (file://)", "failing git commands (replaced by a failing program or a failed spawn)", "disk faults", "clock", "thread scheduler"]

N_ORIGINS = 8


def _git(d, *args, **env):
    e = {**os.environ, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1", "HOME": d, "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x",
         "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x", "GIT_AUTHOR_DATE": "2020-01-01T00:00:00Z",
         "GIT_COMMITTER_DATE": "2020-01-01T00:00:00Z", **env}
    return subprocess.run(["git", "-C", d, *args], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e).stdout.decode()


def _write_tree(d: str, rng: random.Random, n: int) -> None:
    """Makes the work tree random but related to what it was."""
    for name in ["README", "docs", "src/main.py", "src/deep/er/x.c", "data.bin", "v9", "run.sh", "ünï.txt"]:
        p = os.path.join(d, name)
        r = rng.random()
        if r < 0.55:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"" if rng.random() < 0.1 else f"{name} {n} {rng.random()}\n".encode() * rng.choice([1, 3]))
            os.chmod(p, 0o755 if name == "run.sh" else 0o644)
        elif r < 0.7 and os.path.exists(p):
            os.unlink(p)
    p = os.path.join(d, "id.txt")
    with open(p, "w") as f:
        f.write(f"commit {n}\n")
    lk = os.path.join(d, "link")
    if rng.random() < 0.4:
        if os.path.lexists(lk):
            os.unlink(lk)
        os.symlink(rng.choice(["README", "src", "missing"]), lk)


def setup(fixtures: str) -> None:
    meta = {}
    for k in range(N_ORIGINS):
        rng = random.Random(f"origin:{k}")
        d = os.path.join(fixtures, f"o{k}")
        os.mkdir(d)
        default = rng.choice(["main", "master", "trunk"])
        _git(d, "init", "-q", "-b", default, ".")
        _git(d, "config", "gc.auto", "0")
        info = {"default": default, "branches": {}, "tags": {}, "trees": {}, "commits": []}
        branches = [default]
        n = 0
        for step in range(rng.choice([4, 6, 8])):
            n += 1
            if step and rng.random() < 0.45:
                b = rng.choice(["dev", "feature/x", "v1.x", "both", "1.0"])
                if b in branches:
                    _git(d, "checkout", "-q", f"refs/heads/{b}".split("refs/heads/")[1], "--")
                else:
                    _git(d, "checkout", "-q", "-b", b)
                    branches.append(b)
            elif step:
                _git(d, "checkout", "-q", rng.choice(branches), "--")
            _write_tree(d, rng, n)
            _git(d, "add", "-A")
            _git(d, "commit", "-q", "-m", f"c{n}")
            head = _git(d, "rev-parse", "HEAD").strip()
            info["commits"].append(head)
            if rng.random() < 0.6:
                t = rng.choice(["v1.0", "v2", "both", "rel/1.1", "2020"])
                if t not in info["tags"]:
                    if rng.random() < 0.5:
                        _git(d, "tag", "-a", t, "-m", "annotated")
                    else:
                        _git(d, "tag", t)
                    info["tags"][t] = head
        if "both" not in info["tags"]:
            _git(d, "tag", "both", info["commits"][0])
            info["tags"]["both"] = info["commits"][0]
        if "both" not in branches:
            _git(d, "branch", "both", info["commits"][-1])
            branches.append("both")
        _git(d, "checkout", "-q", default, "--")
        for b in branches:
            info["branches"][b] = _git(d, "rev-parse", f"refs/heads/{b}").strip()
        for c in info["commits"]:
            tree = {}
            for rec in _git(d, "ls-tree", "-r", "-z", c).split("\0"):
                if not rec:
                    continue
                mode, _typ, sha, name = rec.replace("\t", " ", 1).split(" ", 3)
                raw = subprocess.run(["git", "-C", d, "cat-file", "blob", sha], check=True, stdout=subprocess.PIPE).stdout
                tree[name] = [mode, raw.hex()]
            info["trees"][c] = tree
        _git(d, "repack", "-q", "-a", "-d")
        _git(d, "pack-refs", "--all")
        for hook in os.listdir(os.path.join(d, ".git/hooks")):
            os.unlink(os.path.join(d, ".git/hooks", hook))
        meta[f"o{k}"] = info
    with open(os.path.join(fixtures, "meta.json"), "w") as f:
        json.dump(meta, f)


TAGS = ["v1.0", "v2", "both", "rel/1.1", "2020", "no-such-tag"]
BRANCHES = ["main", "master", "trunk", "dev", "feature/x", "v1.x", "both", "1.0", "no-such-branch", "docs", "README", "v9"]
REVS = ["c0", "c1", "c2", "c-1", "short0", "short-1", "deadbeef" * 5, "abcdef1", "README", "HEAD"]


def gen(rng: random.Random, tier: str, i: int) -> dict:
    arts = []
    for _ in range(1 if rng.random() < 0.85 else 2):
        a = {"recipe": rng.choice([None, None, 0, 1]), "via": rng.choices(["remote", "local", "late", "never"], [6, 4, 1, 1])[0], "name": rng.choice(["pkg", "libx", "a b"])}
        kinds = rng.choice([[], ["tag"], ["rev"], ["branch"], ["tag"], ["rev"], ["branch"], ["tag", "rev"], ["rev", "branch"], ["tag", "branch"],
                            ["tag", "rev", "branch"]])
        good = rng.random() < 0.75
        for k in kinds:
            pool = {"tag": TAGS, "rev": REVS, "branch": BRANCHES}[k]
            a[k] = ("@" if good else "") + rng.choice(pool)  # '@': pick an existing one at run time
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            op = {"op": "fetch"}
            r = rng.random()
            if r < 0.25:
                op["git"] = {"cmd": rng.choice(["clone", "checkout", "any"]), "nth": rng.choice([1, 1, 1, 2]),
                             "how": rng.choice(["fail", "killed", "spawn", "missing"])}
            elif r < 0.4:
                op["disk"] = {"op": rng.choice(["open-w", "write", "mkdir", "open-r", "read", "rmdir", "unlink", "*mut", "*read", "symlink", "scandir", "chmod", "utime"]),
                              "glob": "tmp/crm*", "nth": rng.choice([1, 1, 2, 3, 6, 10]), "kind": rng.choice(["enospc", "eio", "eacces", "emfile"]),
                              "sticky": rng.random() < 0.5}
                if op["disk"]["op"] in ("open-r", "read", "scandir", "*read"):
                    # reads of the repository being copied (GitPython itself ignores some read errors of a clone's .git)
                    op["disk"]["glob"] = "origin*"
            ops.append(op)
            if rng.random() < 0.3:
                ops.append({"op": rng.choice(["evolve", "gone", "back", "junk"]), "to": rng.randrange(N_ORIGINS)})
            if rng.random() < 0.5:
                ops.append({"op": "path"})
        a["ops"] = ops
        arts.append(a)
    return {"arts": arts, "origin": rng.randrange(N_ORIGINS), "pick": rng.randrange(1 << 20)}


def shrink(plan):
    if len(plan["arts"]) > 1:
        for j in range(len(plan["arts"])):
            yield {**plan, "arts": plan["arts"][:j] + plan["arts"][j + 1:]}
    for k, a in enumerate(plan["arts"]):
        for j in range(len(a["ops"])):
            yield {**plan, "arts": plan["arts"][:k] + [{**a, "ops": a["ops"][:j] + a["ops"][j + 1:]}] + plan["arts"][k + 1:]}


def _tree(env, rel):
    out = {}
    base = os.path.join(env.root, rel)
    for name, v in env.tree(rel).items():
        if name == ".git/" or name.startswith(".git/") or name.endswith("/"):
            continue
        if isinstance(v, str):
            out[name] = ["120000", v[3:].encode().hex()]
        else:
            out[name] = ["100755" if os.lstat(os.path.join(base, name)).st_mode & 0o100 else "100644", v.hex()]
    return out


def _snapshot(env, rel):
    return {k: v for k, v in env.tree(rel).items() if not k.startswith(".git/index")}


def _from_recipe(art, url, target):
    """The artifact as `crm` gets it: from a recipe's source section."""
    from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    v1 = art["recipe"] == 1
    fields = {"git" if v1 else "git_url": url, **{k if v1 else f"git_{k}": v for k, v in target.items()}}
    text = "schema_version: 1\n\n" if v1 else ""
    text += "package:\n  name: pkg\n  version: 1.0.0\n\nsource:\n" + "".join(f'  {k}: "{v}"\n' for k, v in fields.items())
    got = from_recipe(RecipeReader(text))
    assert list(got) == ["/source"], (got, text)
    return got["/source"]


def run(plan, sim, env):
    from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
    from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher
    from dst import proc

    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0")
    with open(os.path.join(env.fixtures, "meta.json")) as f:
        meta = json.load(f)
    fs = env.disk()
    sim.git = proc.GitFaults(sim)
    problems = []

    def place(where: str, k: int) -> dict:
        fs.enabled = False
        try:
            d = os.path.join(env.root, where)
            if os.path.lexists(d):
                shutil.rmtree(d)
            shutil.copytree(os.path.join(env.fixtures, f"o{k}"), d, symlinks=True)
        finally:
            fs.enabled = True
        return meta[f"o{k}"]

    def session(idx: int, art: dict) -> None:
        pick = random.Random(f"pick:{plan['pick']}:{idx}")
        where = f"origin{idx}"
        info = place(where, plan["origin"])
        path = os.path.join(env.root, where)
        if art["via"] in ("late", "never"):
            os.rename(path, path + ".away")
            present = False
        else:
            present = True
        first = info
        target = {}
        for k in ("tag", "rev", "branch"):
            v = art.get(k)
            if v is None:
                continue
            if k == "rev":
                cs = first["commits"]
                v2 = v.lstrip("@")
                target[k] = {"c0": cs[0], "c1": cs[1], "c2": cs[2], "c-1": cs[-1], "short0": cs[0][:10], "short-1": cs[-1][:8]}.get(
                    v2, v2 if not v.startswith("@") else cs[pick.randrange(len(cs))])
            else:
                pool = first["tags" if k == "tag" else "branches"]
                target[k] = v if not v.startswith("@") else (v[1:] if v[1:] in pool else sorted(pool)[pick.randrange(len(pool))])
        url = f"file://{path}" if art["via"] == "remote" else path
        if art.get("recipe") is None:
            gf = GitArtifactFetcher(art["name"], url, **target)
        else:
            gf = _from_recipe(art, url, target)
            env.check(type(gf) is GitArtifactFetcher, "not-git", f"the source {url} with {target} yields {gf!r}")
        junk = {}
        fetched = None
        n = 0
        for op in art["ops"]:
            if op["op"] in ("evolve", "back"):
                if art["via"] == "never":
                    continue
                fs.enabled = False
                if os.path.lexists(path + ".away"):
                    shutil.rmtree(path + ".away")
                fs.enabled = True
                info = place(where, op["to"] if op["op"] == "evolve" else plan["origin"])
                present = True
                continue
            if op["op"] == "gone":
                if present:
                    os.rename(path, path + ".away") if not os.path.lexists(path + ".away") else None
                    present = not os.path.lexists(path + ".away") or os.path.lexists(path)
                continue
            if op["op"] == "junk":
                # the user's tool leaves something in the fetched tree; the next fetch must not keep it
                if fetched is not None:
                    with open(os.path.join(str(gf.get_path_to_source_code()), "left-over.txt"), "w") as f:
                        f.write("x")
                    junk["left-over.txt"] = 1
                continue
            if op["op"] == "path":
                _guard(gf, fetched, f"artifact {idx}")
                continue
            n += 1
            before = _snapshot(env, where) if present else None
            fault = None
            if op.get("disk"):
                fault = {**op["disk"], "seen": 0, "fired": 0, "only": sim.me().tid}
                fs.faults.append(fault)
            if op.get("git"):
                sim.git.faults = [{**op["git"], "tid": sim.me().tid}]
            mark = sim.git.fired
            err = None
            try:
                gf.fetch()
            except FetchError as e:
                err = e
            except Exception as e:  # noqa: BLE001
                env.check(False, "wrong-exception", f"fetch #{n} of {art} raised {type(e).__name__}: {e} {traceback.format_exc()[-900:]}")
            finally:
                if fault is not None:
                    fs.faults.remove(fault)
                sim.git.faults = []
            fired = bool(fault and fault["fired"]) or (sim.git.fired > mark)
            sha = _resolve(info, target) if present else None
            what = f"fetch #{n} of {target or 'the default branch'} from {art['via']} origin o{op.get('to', plan['origin'])}"
            if before is not None:
                env.check(_snapshot(env, where) == before, "origin-changed", f"{what} modified the origin repository")
            if err is None:
                env.check(sha is not None, "accepted-missing", f"{what} succeeded although the target or origin does not exist")
                got = _tree(env, os.path.relpath(str(gf.get_path_to_source_code()), env.root))
                want = info["trees"][sha]
                env.check(got == want, "wrong-tree", f"{what}: differs from commit {sha[:8]} in "
                          f"{[k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)][:5]} (id.txt {bytes.fromhex(got.get('id.txt', ['', ''])[1])!r})")
                fetched = sha
            else:
                env.check(sha is None or fired, "refused-good", f"{what} failed: {err} (cause {err.__cause__!r})")
                fetched = None
            env.note(idx, "ok" if err is None else "err", fired, sha is not None)
            _guard(gf, fetched, what)

    def _guard(gf, fetched, what):
        if fetched is None:
            try:
                p = gf.get_path_to_source_code()
            except FetchRequiredError:
                return
            env.check(False, "stale-or-partial", f"{what}: source path {p} handed out although the last fetch did not succeed")
        env.check(os.path.isdir(str(gf.get_path_to_source_code())), "no-source", f"{what}: the source directory is missing")

    if len(plan["arts"]) == 1:
        session(0, plan["arts"][0])
    else:
        import threading

        def body(k, a):
            try:
                session(k, a)
            except BaseException as e:  # noqa: BLE001
                problems.append(e)

        ts = [threading.Thread(target=body, args=(k, {**a, "ops": [{x: y for x, y in o.items() if x != "git"} for o in a["ops"]]}))
              for k, a in enumerate(plan["arts"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if problems:
            raise problems[0]
    env.check(not fs.escapes, "escape", f"{fs.escapes[:3]}")
    env.sample = f"{[(a['via'], a.get('tag'), a.get('rev'), a.get('branch'), len(a['ops'])) for a in plan['arts']]}"


def _resolve(info: dict, target: dict):
    """The commit the artifact must hold, or None if the target does not exist."""
    if "tag" in target:
        t = target["tag"]
        return info["tags"].get(t)
    if "rev" in target:
        r = target["rev"]
        if r == "HEAD":
            return info["branches"][info["default"]]
        hits = [c for c in info["commits"] if c.startswith(r)]
        return hits[0] if len(set(hits)) == 1 else None
    if "branch" in target:
        b = target["branch"]
        return info["branches"].get(b)
    return info["branches"][info["default"]]
