"""C06: a fetched HTTP artifact is exactly what the server sent, or the documented error, at any point of any history."""

import random

from dst import archives as A

COUNTS = {"quick": 4000, "thorough": 60000}
RULE = (
    "One run = 1..3 HTTP artifact objects (threads of one simulated process), each going through a seeded history of 1..5 "
    "fetches against servers that serve good, damaged, cut-off, failing or no archives, with disk faults inside some of "
    "the fetches and every accessor called between them. Distinct by (interleaving, outcomes)."
)
REAL = ["HttpArtifactFetcher", "BaseArtifactFetcher", "hash_file", "requests/urllib3 response handling", "tarfile/zipfile/zlib/lzma/bz2"]
STUB = ["HTTPAdapter.send (servers)", "clock", "thread scheduler", "disk faults"]

NAMES = ["src.tar.gz", "pkg-1.2.3.zip", "archive", "v1.0.tar.xz", "download.php", "a b.tar", "x.tar.bz2", "index.html"]
FAILS = ["refuse", "dns", "tls", "proxy", "connect-timeout", "stall-headers", "reset", "truncated", "reset-body", "stall",
         "loop", "badgzip"]


def _members(rng: random.Random, kind: str) -> list[dict]:
    top = rng.choice(["src/", "pkg-1.0/", "", "a/b/", "ünï/"])
    out: list[dict] = []
    if top and rng.random() < 0.7:
        out.append({"n": top, "t": "d"})
    big = rng.random() < 0.15
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        sub = rng.choice(["", "lib/", "lib/deep/er/", "doc/"])
        out.append({"n": f"{top}{sub}f{i}.txt", "k": rng.randrange(1 << 30),
                    "z": rng.choice([0, 1, 511, 512, 513, 1023, 1024, 1025, 3000]) if not big else rng.choice([20000, 70000]),
                    "m": rng.choice([0o644, 0o755, 0o600, 0o444])})
    if rng.random() < 0.3:
        out.append({"n": f"{top}{rng.choice(['empty', 'lib/void', 'x y/z'])}/", "t": "d"})
    files = [m["n"] for m in out if m.get("t", "f") == "f"]
    if not kind.startswith("zip") and rng.random() < 0.3:
        tgt = rng.choice(files)
        if rng.random() < 0.5:
            out.append({"n": tgt + ".lnk", "t": "s", "l": tgt.rsplit("/", 1)[-1]})
        else:
            out.append({"n": tgt + ".hard", "t": "h", "l": tgt})
    elif not kind.startswith("zip") and rng.random() < 0.06:
        out.append({"n": "odd", "t": rng.choice("hsf"), "l": "no/such/member", "k": 1, "z": 5,
                    "mt": rng.choice([0, -1, 10**9, 10**22])})
    elif rng.random() < 0.1:  # the same member twice: the later one counts
        out.append({"n": rng.choice(files), "k": rng.randrange(1 << 30), "z": rng.choice([5, 600])})
    return out


def _blob(rng: random.Random) -> dict:
    kind = rng.choice(A.KINDS)
    b = {"kind": kind, "members": _members(rng, kind)}
    if any(m["n"] == "odd" for m in b["members"]):
        b["damage"] = {"k": "keep"}  # served as it is, but extraction may fail
    elif rng.random() < 0.25:
        b["damage"] = {"k": rng.choice(["cut", "flip", "zero", "garbage", "text", "head", "append", "none", "cut"] if not kind.startswith("zip") else ["cut", "flip", "zero", "head", "append", "locked", "method"]),
                       "x": round(rng.random(), 3), "s": rng.randrange(1 << 30), "n": rng.choice([1, 1, 3, 30])}
    return b


def gen(rng: random.Random, tier: str, i: int) -> dict:
    arts, blobs, net, disk = [], {}, {}, []
    for a in range(rng.choices([1, 2, 3], [6, 3, 1])[0]):
        name = rng.choice(NAMES)
        url = f"https://h{a}.example.org/dl/{rng.randrange(100)}/{name}".replace(" ", "%20")
        if arts and rng.random() < 0.2:
            url = arts[0]["url"]  # two objects for one URL
        steps = []
        beh = net.setdefault(url, [])
        for s in range(rng.choice([1, 2, 2, 3, 4, 5])):
            bid = f"b{len(blobs)}"
            blobs[bid] = _blob(rng)
            b = {"kind": "ok", "blob": bid, "latency": rng.choice([0, 0, 0.1, 2]), "slow": rng.choice([0, 0, 0.01]),
                 "piece": rng.choice([0, 0, 0, 100, 700, 1024, 4096])}
            r = rng.random()
            if r < 0.25:
                b["kind"] = rng.choice(FAILS)
                if b["kind"] in ("truncated", "reset-body", "stall"):
                    b["frac"] = round(rng.random(), 3)
            elif r < 0.36:
                b["kind"], b["status"] = "status", rng.choice([400, 401, 403, 404, 410, 429, 500, 502, 503, 599] + [rng.randrange(400, 600) for _ in range(10)])
                if rng.random() < 0.4:
                    b["text"], b["blob"] = "<html>error</html>", None
            elif r < 0.40:
                b["kind"] = "empty"
            elif r < 0.46 and not url.endswith("-r"):
                to = url + "-r"
                net.setdefault(to, []).append(dict(b))
                b = {"kind": "redirect", "to": to}
            if rng.random() < 0.2:
                b["no_length"] = True
            beh.append(b)
            st = {"op": "fetch"}
            if rng.random() < 0.22:
                st["disk"] = {"op": rng.choice(["open-w", "write", "write", "close-w", "mkdir", "unlink", "rmdir", "open-r", "read",
                                                "scandir", "*mut", "*mut", "*read", "symlink", "chmod", "utime", "link"]),
                              "glob": "tmp/crm_artifact_fetcher*", "nth": rng.choice([1, 1, 2, 3, 5, 9]),
                              "kind": rng.choice(["enospc", "eio", "eacces", "emfile", "erofs", "edquot", "eperm", "short"]),
                              "sticky": rng.random() < 0.5, "frac": rng.choice([0, 0.3, 0.9])}
            steps.append(st)
            for _ in range(rng.choice([0, 1, 1, 2])):
                steps.append({"op": rng.choice(["sha", "path", "type", "all"])})
        if rng.random() < 0.3:
            steps.insert(0, {"op": "all"})
        arts.append({"url": url, "name": rng.choice(["pkg", "pkg", "libfoo", "py-x"]), "ops": steps})
    return {"arts": arts, "blobs": blobs, "net": net, "short_io": rng.randrange(1 << 30) if rng.random() < 0.1 else None}


def shrink(plan: dict):
    """Smaller plans to try."""
    for k in range(len(plan["arts"])):
        if len(plan["arts"]) > 1:
            yield {**plan, "arts": plan["arts"][:k] + plan["arts"][k + 1:]}
    for k, a in enumerate(plan["arts"]):
        for j in range(len(a["ops"])):
            b = {**a, "ops": a["ops"][:j] + a["ops"][j + 1:]}
            yield {**plan, "arts": plan["arts"][:k] + [b] + plan["arts"][k + 1:]}


def _body(beh: dict, blobs: dict) -> bytes:
    return blobs.get(beh.get("blob"), b"") if beh.get("blob") else beh.get("text", "").encode()


def _target(tree: dict, k: str):
    base = k.rsplit("/", 1)[0] + "/" if "/" in k else ""
    return tree.get(base + tree[k][3:])


def run(plan, sim, env):
    from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
    from conda_recipe_manager.fetcher.http_artifact_fetcher import ArtifactArchiveType, HttpArtifactFetcher

    blobs, trees, types, broken = {}, {}, {}, {}
    for bid, b in plan["blobs"].items():
        data = A.raw(b["kind"], b["members"])
        if b.get("damage"):
            data = A.damage(data, b["damage"])
            broken[bid] = A.unreadable(data)
        else:
            trees[bid] = A.expected_tree(b["kind"], b["members"])
            types[bid] = ArtifactArchiveType.ZIP if b["kind"].startswith("zip") else ArtifactArchiveType.TARBALL
        blobs[bid] = data
    fs = env.disk()
    net = env.network(plan["net"], blobs)
    problems = []
    fired_ever = False

    def session(idx: int, art: dict) -> None:
        me = sim.me()
        nonlocal fired_ever
        f = HttpArtifactFetcher(art["name"], art["url"])
        last = None  # None: nothing usable; else (set of acceptable (bytes, tree|None, type|None))
        nfetch = 0
        for st in art["ops"]:
            what = f"artifact {idx} after {nfetch} fetches"
            if st["op"] == "fetch":
                nfetch += 1
                fault = None
                if st.get("disk"):
                    fault = {**st["disk"], "seen": 0, "fired": 0, "only": me.tid}
                    fs.faults.append(fault)
                mark = len(net.log)
                err = None
                try:
                    f.fetch()
                except FetchError as e:
                    err = e
                except (FetchRequiredError, Exception) as e:  # noqa: BLE001
                    env.check(False, "wrong-exception", f"{what}: fetch raised {type(e).__name__}: {e} instead of FetchError")
                finally:
                    if fault is not None:
                        fs.faults.remove(fault)
                mine = [e for e in net.log[mark:] if e["tid"] == me.tid]
                fired = bool(fault and fault["fired"]) and fault["kind"] != "short"
                beh = mine[-1]["beh"] if mine else None
                # a body cut off where its length was not announced is indistinguishable from a whole one
                unseen = beh is not None and beh["kind"] == "truncated" and beh.get("no_length")
                good = beh is not None and beh["kind"] == "ok" or unseen
                intact = good and not unseen and beh.get("blob") in trees
                if err is None:
                    env.check(good, "accepted-failure", f"{what}: fetch succeeded although the server answered {mine and mine[-1]['kind']}"
                              f" {beh and beh.get('status', '')}")
                    served = blobs[beh["blob"]]
                    env.check(unseen or not broken.get(beh["blob"]), "accepted-broken", f"{what}: fetch succeeded although the archive cannot be read ({broken.get(beh['blob'])})")
                    if unseen:
                        cut = max(0, min(int(len(served) * float(beh.get("frac", 0.5))), len(served) - 1))
                        served = served[:cut]
                    last = (served, trees.get(beh["blob"]) if intact else None, types.get(beh["blob"]) if intact else None, beh["blob"])
                else:
                    if intact and not fired:
                        env.check(False, "refused-good", f"{what}: {type(err).__name__} {err} (cause {err.__cause__!r}) for an intact archive")
                    if fired:
                        pass
                    last = None
                fired_ever = fired_ever or fired
                env.note(idx, "fetch", mine and mine[-1]["kind"], "ok" if err is None else "err", fired)
                if err is None or nfetch % 2:
                    _access(f, last, "all", what)
            else:
                _access(f, last, st["op"], what)
        del f

    def _access(f, last, op, what):
        want = ["path", "sha", "type"] if op == "all" else [op]
        for w in want:
            fn = {"path": f.get_path_to_source_code, "sha": f.get_archive_sha256, "type": f.get_archive_type}[w]
            if last is None:
                try:
                    r = fn()
                except FetchRequiredError:
                    continue
                except Exception as e:  # noqa: BLE001
                    env.check(False, "guard-exception", f"{what}: {w} raised {type(e).__name__} instead of FetchRequiredError")
                env.check(False, "stale-or-partial", f"{what}: {w} returned {r!s} although the last fetch did not succeed")
            body, tree, typ, bid = last
            r = fn()
            if w == "sha":
                env.check(r == A.sha256(body), "wrong-sha", f"{what}: reported {r} for a body with SHA-256 {A.sha256(body)} ({bid})")
            elif w == "type" and typ is not None:
                env.check(r == typ, "wrong-type", f"{what}: reported {r}, content is {typ} ({bid})")
            elif w == "path" and tree is not None:
                import os

                got = env.tree(os.path.relpath(str(r), env.root))
                lost = [m["n"] for m in plan["blobs"][bid]["members"] if m.get("t") == "d" and m["n"] not in got]
                env.check(not lost, "wrong-tree", f"{what}: directories {lost} of archive {bid} are missing")
                got = {k: v for k, v in got.items() if not k.endswith("/")}
                if fired_ever:  # where a link cannot be made, tarfile stores a copy of its target
                    got = {k: (tree[k] if isinstance(tree.get(k), str) and v == _target(tree, k) else v) for k, v in got.items()}
                env.check(got == tree, "wrong-tree", f"{what}: extracted tree differs from archive {bid}: "
                          f"{[k for k in sorted(set(got) | set(tree)) if got.get(k) != tree.get(k)][:5]} (got {sorted(got)[:8]})")

    if len(plan["arts"]) == 1:
        session(0, plan["arts"][0])
    else:
        import threading

        ts = []
        for k, a in enumerate(plan["arts"]):
            def body(k=k, a=a):
                try:
                    session(k, a)
                except BaseException as e:  # noqa: BLE001
                    problems.append(e)

            ts.append(threading.Thread(target=body))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if problems:
            raise problems[0]
    env.check(not fs.escapes, "escape", f"disk access outside the scratch area: {fs.escapes[:3]}")
    env.nontrivial = any(s["op"] == "fetch" for a in plan["arts"] for s in a["ops"])
    env.sample = f"artifacts={len(plan['arts'])} requests={[e['kind'] for e in net.log]}"
