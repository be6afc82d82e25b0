"""C22: the recipe corpus script saves every recipe it can get, byte for byte, and nothing else."""

import io
import os
import random
import re
import sys

COUNTS = {"quick": 4000, "thorough": 80000}
RULE = (
    "One run = one run of scripts/randomly_select_recipes.py over a seeded repository list (with exclusions, blank and malformed rows, more or "
    "fewer repositories than requested) against simulated servers: main or master branch present, missing, failing in every way, slow, "
    "redirecting; seeded schedule of the worker pool; sometimes run again into the same directory. Distinct by (interleaving, output tree)."
)
REAL = ["scripts/randomly_select_recipes.py", "requests", "urllib3 response"]
STUB = ["HTTPAdapter.send (servers)", "multiprocessing.Pool (in-process workers)", "clock", "disk (seeded pass-through)"]

BAD = ["refuse", "dns", "tls", "connect-timeout", "stall-headers", "reset", "truncated", "reset-body", "stall", "loop", "badgzip", "404", "500", "403", "204", "301"]


def body(rng: random.Random) -> bytes:
    k = rng.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return "package:\r\n  name: crlf\r\n".encode()
    if k == 2:
        return "about:\n  summary: “smart” – ünïcode ✓\n".encode()
    if k == 3:
        return b"about:\n  summary: caf\xe9 latin-1\n"
    if k == 4:
        return b"\xef\xbb\xbfpackage:\n  name: bom\n"
    if k == 5:
        return b"no newline at end"
    if k == 6:
        return b"x: \x00\x85\xe2\x80\xa8 odd\r\r\n\n"
    return (f"package:\n  name: p{rng.randrange(1000)}\n" * rng.randrange(1, 400)).encode()


def branch(rng, p_ok):
    if rng.random() < p_ok:
        b = {"kind": "ok", "body": body(rng).hex(), "ctype": rng.choice(["text/plain; charset=utf-8"] * 3 + ["text/plain", "application/octet-stream"])}
        if rng.random() < 0.3:
            b["slow"] = rng.choice([0.001, 0.5])
            b["piece"] = rng.choice([7, 1000, 0])
        if rng.random() < 0.2:
            b["no_length"] = True
        if rng.random() < 0.12:
            b["via"] = True
    else:
        b = {"kind": rng.choice(BAD), "body": (b"# a body that is cut off\n" + body(rng)).hex()}
    if rng.random() < 0.5:
        b["latency"] = rng.choice([0.01, 0.3, 3, 14])
    return b


def gen(rng: random.Random, tier, i):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
    repos = []
    for k in range(n):
        org = rng.choice(["conda-forge", "conda-forge", "AnacondaRecipes"])
        repos.append({"id": f"{org}/{rng.choice(['a', 'py-b', 'C_c', 'r-d.x', 'é'])}{k}{rng.choice(['-feedstock'] * 6 + ['', '-feedstock-old'])}", "main": branch(rng, 0.55), "master": branch(rng, 0.5),
                      "excluded": rng.random() < 0.15})
    return {"repos": repos, "n": rng.choice([n, n, n, n + 3, max(0, n - 1), max(0, n // 2), 0, 1]), "blank": rng.random() < 0.3, "cols": rng.randrange(0, 4), "dups": rng.random() < 0.2,
            "noslash": rng.random() < 0.2, "exclude_file": rng.random() < 0.6, "cpus": rng.choice([1, 2, 4, 8]), "again": rng.random() < 0.2, "old": rng.random() < 0.2,
            "short_io": rng.choice([None, rng.randrange(1 << 30)])}


def shrink(plan):
    for j in range(len(plan["repos"])):
        yield {**plan, "repos": plan["repos"][:j] + plan["repos"][j + 1:]}
    for k, v in (("blank", False), ("dups", False), ("noslash", False), ("again", False), ("old", False)):
        if plan[k] != v:
            yield {**plan, k: v}


def load():
    from dst import target

    import importlib.util

    if "randomly_select_recipes" not in sys.modules:
        spec = importlib.util.spec_from_file_location("randomly_select_recipes", os.path.join(target.REPO, "scripts/randomly_select_recipes.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["randomly_select_recipes"] = m
        spec.loader.exec_module(m)
    return sys.modules["randomly_select_recipes"]


def url(rid, br):
    from requests.utils import requote_uri

    return requote_uri(f"https://raw.githubusercontent.com/{rid}/{br}/recipe/meta.yaml")


def run(plan, sim, env):
    mod = load()
    repos = plan["repos"]
    rows = []
    for r in repos:
        row = "\t".join([r["id"], "a description with \"quotes\" inside".replace('"', ""), "public", "2024-01-01"][: plan["cols"] + 1])
        rows.append(row)
        if plan["dups"] and sim.rng.random() < 0.5:
            rows.append(row)
        if plan["blank"]:
            rows.append("")
    if plan["noslash"]:
        rows.append("not-a-repository")
    env.put("work/list.tsv", "\n".join(rows) + ("\n" if rows else ""))
    excluded = {r["id"] for r in repos if r["excluded"]} if plan["exclude_file"] else set()
    env.put("work/exclude.txt", "\n".join([*sorted(excluded), "conda-forge/unrelated-feedstock", ""]))
    env.mkdir("work/out")
    want_old = {}
    if plan["old"]:
        for r in repos[::2]:
            rel = f"{r['id'].split('/')[1]}/recipe/meta.yaml"
            want_old[rel] = b"an older copy that is longer than anything new " * 9
            env.put(f"work/out/{rel}", want_old[rel])
        want_old["kept-feedstock/recipe/meta.yaml"] = b"old"
        env.put("work/out/kept-feedstock/recipe/meta.yaml", b"old")
    table, blobs, urls = {}, {}, {}
    for r in repos:
        for br in ("main", "master"):
            u = url(r["id"], br)
            b = dict(r[br])
            blobs[u] = bytes.fromhex(b.pop("body"))
            b["blob"] = u
            if b["kind"].isdigit():
                b["status"] = int(b["kind"])
                b["kind"] = "status"
            if b.pop("via", False):
                table[u + "?moved"] = [b]
                table[u] = [{"kind": "redirect", "to": u + "?moved"}]
            else:
                table[u] = [b]
            urls[u] = (r["id"], br)
    env.disk()
    net = env.network(table, blobs)
    ids = {r["id"] for r in repos} | ({"not-a-repository"} if plan["noslash"] else set())
    allowed = ids - excluded
    out = os.path.join(env.root, "work/out")
    expected = dict(want_old)
    sizes = []
    for rnd in range(2 if plan["again"] else 1):
        net.log.clear()
        args = [os.path.join(env.root, "work/list.tsv"), str(plan["n"]), out]
        if plan["exclude_file"]:
            args += ["--exclude", os.path.join(env.root, "work/exclude.txt")]
        saved = sys.argv, sys.stdout
        sys.argv, sys.stdout = ["randomly_select_recipes.py", *args], io.StringIO()
        try:
            mod.main()
            text = sys.stdout.getvalue()
        except Exception as e:  # noqa: BLE001
            env.check(False, "script-failed", f"the script ended with {type(e).__name__}: {e}")
        finally:
            sys.argv, sys.stdout = saved
        asked = {urls[e["url"]] for e in net.log if e["url"] in urls}
        env.check(not net.unknown, "unknown-url", f"requested {net.unknown[:2]}")
        picked = {rid for rid, br in asked if br == "main"}
        env.check({rid for rid, _ in asked} == picked, "main-first", f"the fallback branch was asked without the main one: {sorted(asked)[:4]}")
        n_want = min(plan["n"], len(allowed))
        hidden = 1 if plan["noslash"] else 0
        env.check(n_want - hidden <= len(picked) <= n_want, "selection", f"{len(picked)} repositories were asked for, {n_want} requested out of {len(allowed)}")
        env.check(picked <= allowed, "excluded", f"excluded repositories were asked for: {sorted(picked - allowed)[:3]}")
        got_now = 0
        for r in repos:
            if r["id"] not in picked:
                continue
            for br in ("main", "master"):
                if r[br]["kind"] == "ok":
                    expected[f"{r['id'].split('/')[1]}/recipe/meta.yaml"] = bytes.fromhex(r[br]["body"])
                    got_now += 1
                    break
        tree = {k: v for k, v in env.tree("work/out").items() if v != "/"}
        missing = sorted(set(expected) - set(tree))
        env.check(not missing, "recipe-lost", f"a recipe that could be fetched was not saved: {missing[:3]}")
        extra = sorted(set(tree) - set(expected))
        env.check(not extra, "recipe-extra", f"a recipe that could not be fetched was saved: {extra[:3]}")
        for k, v in expected.items():
            env.check(tree[k] == v, "recipe-bytes", f"{k}: saved {tree[k][:60]!r} ({len(tree[k])} bytes), served {v[:60]!r} ({len(v)} bytes)")
        m = re.search(r"Fetched (\d+) out of (\d+)", text)
        env.check(not m or int(m.group(1)) == got_now, "report", f"reported {m and m.group(0)!r}, {got_now} were saved")
        sizes.append((len(picked), got_now))
    env.nontrivial = bool(repos)
    env.note(sizes, sorted(expected)[:6], [(r["main"]["kind"], r["master"]["kind"]) for r in repos])
    env.sample = f"{len(repos)} repositories: (asked, saved) {sizes}, {sim.now_us / 1e6:.1f} simulated s"
