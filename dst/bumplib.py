"""Shared by the bump scenarios: plans the simulated servers and drives `crm bump-recipe`."""

from __future__ import annotations

import random

from dst import archives, recipes

TRANSIENT = [
    "refuse", "dns", "tls", "proxy", "connect-timeout", "stall-headers", "reset", "truncated", "reset-body", "stall",
    "status", "badgzip", "corrupt", "loop", "empty",
]
RECIPE = "work/recipe.yaml"


def kind_of(url: str) -> str:
    if url.endswith(".zip"):
        return "zip"
    for k in ("tar.gz", "tar.bz2", "tar.xz"):
        if url.endswith(k):
            return k
    return "tar.gz" if url.endswith("tgz") else "tar"


def behaviour(rng: random.Random, kind: str, url: str) -> dict:
    b: dict = {"kind": kind}
    if rng.random() < 0.6:
        b["latency"] = round(rng.choice([0.001, 0.05, 0.5, 3.0, 20.0, 120.0]) * rng.random(), 4)
    if kind in ("truncated", "reset-body", "stall"):
        b["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.999])
        b["blob"] = url
    elif kind == "status":
        b["status"] = rng.choice([400, 401, 403, 404, 408, 410, 429, 500, 502, 503, 504])
        b["blob"] = rng.choice([None, url])  # an error page may even be an archive
    elif kind == "corrupt":
        b["kind"] = "ok"
        b["blob"] = rng.choice(["#html", "#cut:" + url, "#garbage"])
    elif kind == "ok":
        b["blob"] = url
        if rng.random() < 0.3:
            b["slow"] = round(rng.random() * 0.5, 4)
            b["piece"] = rng.choice([100, 512, 1024, 4000])
        if rng.random() < 0.15:
            b["no_length"] = True
    return b


def attempts(rng: random.Random, url: str, fails: int) -> list[dict]:
    """`fails` failing attempts, then success for ever (fails >= 5: failure for ever)."""
    out = [behaviour(rng, rng.choice(TRANSIENT), url) for _ in range(fails)]
    if fails < 5:
        out.append(behaviour(rng, "ok", url))
    return out


def is_corrupt(b: dict) -> bool:
    return b["kind"] == "ok" and str(b.get("blob", "")).startswith("#")


def blobs_for(net: dict) -> dict[str, bytes]:
    """Bytes of everything a plan's servers can serve."""
    out: dict[str, bytes] = {"#html": b"<html><body>Please log in</body></html>\n" * 20, "#garbage": bytes(range(256)) * 4}
    for url, lst in net.items():
        for b in lst:
            k = b.get("blob")
            if not k or k in out:
                continue
            base = k[5:] if k.startswith("#cut:") else k
            data = archives.blob(b.get("key", base), kind_of(base))
            if k.startswith("#cut:"):
                # cut inside the compressed stream, with a consistent Content-Length
                data = data[: max(1, len(data) * 2 // 3)]
                if kind_of(base) == "tar":
                    data = data[:300]
            out[k] = data
    return out


def add_urls(rng: random.Random, net: dict, urls: list[str | None], fails, redirects: bool = True) -> None:
    """Fills `net` for the given URLs. `fails(rng)` -> number of failing attempts."""
    for u in urls:
        if u is None or u in net:
            continue
        net[u] = attempts(rng, u, fails(rng))
        for b in net[u]:
            if b["kind"] == "loop":
                b["to"] = u + "?again"
                net[b["to"]] = [{"kind": "loop"}]
        last = net[u][-1]
        if redirects and last["kind"] == "ok" and not is_corrupt(last) and rng.random() < 0.15:
            to = u.replace("://", "://cdn.", 1) + "?sig=1"
            net[u][-1] = {"kind": "redirect", "to": to, "latency": last.get("latency", 0)}
            net[to] = [dict(last, blob=u)]


def serve(env, net: dict, versions=()):
    """Installs the network."""
    blobs = blobs_for(net)
    return env.network(net, blobs), blobs


def served_sha(net: dict, blobs: dict, url: str) -> str | None:
    """SHA-256 of what the URL finally serves (None: it never serves an archive)."""
    b = net[url][-1]
    if b["kind"] == "redirect":
        b = net[b["to"]][-1]
    if b["kind"] != "ok" or is_corrupt(b):
        return None
    return archives.sha256(blobs[b["blob"]])


def fail_count(net: dict, url: str) -> int:
    n = 0
    for b in net[url]:
        if b["kind"] == "redirect" or (b["kind"] == "ok" and not is_corrupt(b)):
            return n
        n += 1
    return 99


def first_diff(a: str, b: str) -> str:
    la, lb = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f"line {i + 1}: expected {x!r}, found {y!r}"
    return f"expected {len(la)} lines, found {len(lb)}"


def sha_lines(text: str) -> list[str]:
    return [ln.strip() for ln in text.split("\n") if "sha256:" in ln or "{% set" in ln]
