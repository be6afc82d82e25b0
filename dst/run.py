"""
Campaign runner.

  python -m dst.run check <ID> [--tier quick|thorough] [--runs N]
  python -m dst.run replay <file> [--trace]
  python -m dst.run determinism <ID> [--runs N]
"""

from __future__ import annotations

import argparse
import copy
import hashlib
import importlib
import json
import os
import queue
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HASHSEEDS = [0, 1, 2, 3, 5, 7, 11, 13]
SCEN = {}


def scenario(pid: str):
    return importlib.import_module(f"dst.scenarios.{pid.lower()}")


class Worker:
    def __init__(self, base: str, idx: int, hashseed: int, fixtures: str | None):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8",
            PYTHONPATH=VERIF, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", TZ="UTC", PYTHONWARNINGS="ignore",
            http_proxy="", https_proxy="", no_proxy="*",
        )
        for k in list(env):
            if k.lower().endswith("_proxy") and k.lower() != "no_proxy":
                env.pop(k)
        cmd = [sys.executable, "-B", "-m", "dst.worker", base, str(idx), fixtures or "-"]
        self.hashseed = hashseed
        self.err = open(os.path.join(base, f"w{idx}.err"), "wb")
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=VERIF)
        self.hello = None
        self.base = base
        self.idx = idx

    def _recv(self):
        h = self.p.stdout.read(4)
        if len(h) < 4:
            return None
        n = struct.unpack(">I", h)[0]
        return json.loads(self.p.stdout.read(n))

    def wait_hello(self):
        if self.hello is None:
            self.hello = self._recv()
            if not self.hello or not self.hello.get("hello"):
                raise RuntimeError(f"worker failed to start: {self.hello} {self.stderr_tail()}")
        return self.hello

    def stderr_tail(self):
        try:
            with open(os.path.join(self.base, f"w{self.idx}.err"), "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def run(self, req: dict) -> dict:
        self.wait_hello()
        data = json.dumps(req).encode()
        self.p.stdin.write(struct.pack(">I", len(data)) + data)
        self.p.stdin.flush()
        r = self._recv()
        if r is None:
            raise RuntimeError("worker died: " + self.stderr_tail())
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            self.p.kill()
        self.err.close()


def make_base() -> str:
    for cand in ("/dev/shm", "/tmp"):
        if os.path.isdir(cand) and os.access(cand, os.W_OK):
            d = tempfile.mkdtemp(prefix="crm-dst-", dir=cand)
            os.chmod(d, 0o755)
            os.mkdir(os.path.join(d, "mpl"), 0o777)
            return d
    raise RuntimeError("no scratch space")


class Pool:
    """One zygote per hash seed, all fed from per-seed queues."""

    def __init__(self, scen, width: int, hashseeds=None):
        self.base = make_base()
        self.scen = scen
        self.fixtures = None
        if hasattr(scen, "setup"):
            self.fixtures = os.path.join(self.base, "fixtures")
            os.mkdir(self.fixtures, 0o755)
            scen.setup(self.fixtures)
        hs = hashseeds or HASHSEEDS[:width]
        self.workers = [Worker(self.base, i, h, self.fixtures) for i, h in enumerate(hs)]
        self.by_seed: dict[int, Worker] = {w.hashseed: w for w in self.workers}

    def one(self, name: str, plan: dict, trace=False) -> dict:
        w = self.by_seed.get(plan.get("hashseed", 0), self.workers[0])
        return w.run({"scenario": name, "plan": plan, "trace": trace, "id": 0})

    def map(self, name: str, plans, stop=None, deadline=None, on_result=None):
        """Runs plans; results are delivered through on_result(i, plan, res) from the calling thread."""
        qs: dict[int, queue.Queue] = {w.hashseed: queue.Queue() for w in self.workers}
        out: queue.Queue = queue.Queue()
        n = 0
        for i, p in enumerate(plans):
            qs[p["hashseed"]].put((i, p))
            n += 1
        halt = threading.Event()

        def feed(w: Worker):
            q = qs[w.hashseed]
            try:
                w.wait_hello()
                while not halt.is_set():
                    try:
                        i, p = q.get_nowait()
                    except queue.Empty:
                        break
                    out.put((i, p, w.run({"scenario": name, "plan": p, "id": i})))
            except BaseException as e:  # noqa: BLE001
                out.put((-1, None, {"status": "error", "key": "worker", "msg": f"{e}"}))
            out.put(None)

        ths = [threading.Thread(target=feed, args=(w,), daemon=True) for w in self.workers]
        for t in ths:
            t.start()
        live = len(ths)
        while live:
            r = out.get()
            if r is None:
                live -= 1
                continue
            on_result(*r)
            if (stop and stop()) or (deadline and time.monotonic() > deadline):
                halt.set()
        return n

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.base, ignore_errors=True)


def gen_plans(scen, pid: str, seed: int, tier: str, runs: int):
    for i in range(runs):
        rng = random.Random(f"{pid}:{seed}:{i}")
        plan = scen.gen(rng, tier, i)
        plan.setdefault("seed", rng.getrandbits(40))
        plan.setdefault("sched", {"seed": rng.getrandbits(40), "mode": rng.choice(["random", "random", "prio", "lifo", "fifo"])})
        plan["hashseed"] = HASHSEEDS[i % len(HASHSEEDS)]
        plan["i"] = i
        yield plan


# ---- known findings --------------------------------------------------------------------------------------------------


def load_known(pid: str) -> list[dict]:
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid and k.get("status", "known") == "known"]


def match_known(known: list[dict], key: str, msg: str, plan: dict) -> dict | None:
    for k in known:
        if key == k["key"] and all(s in msg for s in k.get("msg_contains", [])):
            return k
    return None


# ---- minimisation ----------------------------------------------------------------------------------------------------


def generic_shrinks(plan: dict):
    """Candidate smaller plans, most aggressive first."""
    tape = plan.get("sched", {}).get("tape")
    if tape:
        p = copy.deepcopy(plan)
        p["sched"]["tape"] = []
        yield p
        for frac in (2, 4):
            p = copy.deepcopy(plan)
            p["sched"]["tape"] = tape[: len(tape) // frac]
            yield p
        nz = [i for i, c in enumerate(tape) if c]
        for i in nz[:40]:
            p = copy.deepcopy(plan)
            p["sched"]["tape"][i] = 0
            yield p
    for k in ("disk", "clock_jumps", "ops", "script", "patches"):
        lst = plan.get(k)
        if isinstance(lst, list) and lst:
            n = len(lst)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    p = copy.deepcopy(plan)
                    del p[k][i : i + size]
                    yield p
                size //= 2
    for k in ("short_io", "dirorder"):
        if plan.get(k) is not None:
            p = copy.deepcopy(plan)
            p[k] = None
            yield p
    net = plan.get("net")
    if isinstance(net, dict):
        for url, lst in net.items():
            if isinstance(lst, list) and len(lst) > 1:
                for i in range(len(lst) - 1):
                    p = copy.deepcopy(plan)
                    del p["net"][url][i]
                    yield p
            for i, b in enumerate(lst if isinstance(lst, list) else []):
                for f in ("latency", "slow", "piece"):
                    if b.get(f):
                        p = copy.deepcopy(plan)
                        p["net"][url][i][f] = 0
                        yield p


def minimise(run_one, scen, plan: dict, res: dict, budget_s: float = float(os.environ.get("VERIF_MINIMISE_S", 45))):
    """Greedy shrinking while the same violation class persists. :returns: (plan, result, attempts)"""
    t_end = time.monotonic() + budget_s
    best = copy.deepcopy(plan)
    best["sched"] = dict(best.get("sched", {}))
    best["sched"]["tape"] = res.get("tape", [])
    r = run_one(best)
    attempts = 1
    if r.get("status") != "violation" or r.get("key") != res["key"]:
        best, r = copy.deepcopy(plan), res
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        cands = []
        if hasattr(scen, "shrink"):
            cands.append(scen.shrink(best))
        cands.append(generic_shrinks(best))
        for gen in cands:
            for cand in gen:
                if time.monotonic() > t_end:
                    break
                if cand == best:
                    continue
                attempts += 1
                rr = run_one(cand)
                if rr.get("status") == "violation" and rr.get("key") == res["key"]:
                    best, r = cand, rr
                    improved = True
                    break
            if improved:
                break
    return best, r, attempts


# ---- commands --------------------------------------------------------------------------------------------------------


def cmd_check(a) -> int:
    pid = a.id
    scen = scenario(pid)
    name = pid.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = a.runs or scen.COUNTS[tier]
    t0 = time.monotonic()
    print(f"{pid}: seed={seed} tier={tier} runs={runs}", flush=True)
    wall = (480 if tier == "quick" else 3000)
    pool = Pool(scen, len(HASHSEEDS))
    known = load_known(pid)
    agg = {
        "n": 0, "sim_s": 0.0, "events": 0, "steps": 0, "switches": 0, "faults": {}, "probes": {}, "inter": set(),
        "outcomes": set(), "digests": {}, "nontrivial": set(), "samples": [],
    }
    viol: list[tuple] = []
    errors: list[tuple] = []
    hits: dict[str, int] = {}

    def on_result(i, plan, res):
        agg["n"] += 1
        st = res.get("status")
        if st == "error":
            errors.append((i, plan, res))
            return
        agg["sim_s"] += res["sim_s"]
        agg["events"] += res["events"]
        agg["steps"] += res["steps"]
        agg["switches"] += res["switches"]
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["inter"].add(res["inter"])
        oh = hashlib.sha256("\n".join(res["outcome"]).encode()).hexdigest()[:20]
        agg["outcomes"].add(oh)
        agg["digests"][i] = res["digest"]
        if res["nontrivial"]:
            agg["nontrivial"].add((res["inter"], oh))
        if res.get("sample") and len(agg["samples"]) < 400:
            agg["samples"].append((i, res["sample"]))
        if st == "violation":
            k = match_known(known, res["key"], res["msg"], plan)
            if k is not None:
                hits[k["id"]] = hits.get(k["id"], 0) + 1
            else:
                viol.append((i, plan, res))

    rc = 0
    replay_path = None
    min_attempts = 0
    redo = {"checked": 0, "diverged": []}
    try:
        plans = list(gen_plans(scen, pid, seed, tier, runs))
        # (one violation is enough: stop feeding the campaign once one is known)
        pool.map(name, plans, stop=lambda: bool(viol) or len(errors) > 20, deadline=t0 + wall, on_result=on_result)
        if errors and not viol:
            rc = 2
        if not viol and not errors:
            # determinism probe: a sample of the runs again, in whatever order the zygotes reach them
            rr = random.Random(f"redo:{pid}:{seed}")
            sample = rr.sample(plans, min(len(plans), max(8, len(plans) // 40)))

            def on_redo(i, plan, res):
                if res.get("status") == "error":
                    redo["diverged"].append(plan["i"] if plan else -1)
                    return
                redo["checked"] += 1
                if plan["i"] in agg["digests"] and agg["digests"][plan["i"]] != res["digest"]:
                    redo["diverged"].append(plan["i"])

            pool.map(name, sample, on_result=on_redo)
        if viol:
            viol.sort(key=lambda v: v[0])
            confirmed = None
            for i, plan, res in viol[:5]:
                again = pool.one(name, plan)
                if again.get("status") == "violation" and again.get("key") == res["key"]:
                    confirmed = (i, plan, res)
                    break
            if confirmed is None:
                i, plan, res = viol[0]
                errors.append((i, plan, {"key": "not-reproducible", "msg": f"{res['key']}: {res['msg']}"}))
                rc = 2
            else:
                i, plan, res = confirmed
                best, r, min_attempts = minimise(lambda p: pool.one(name, p), scen, plan, res)
                rep = pool.one(name, best, trace=True)
                if rep.get("status") != "violation" or rep.get("key") != res["key"]:
                    best = plan
                    rep = pool.one(name, best, trace=True)
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                body = {
                    "property": pid, "scenario": name, "verif_seed": seed, "run_index": i, "key": rep.get("key"),
                    "violation": rep.get("msg"), "digest": rep.get("digest"), "minimise_attempts": min_attempts,
                    "plan": best, "trace": rep.get("trace", [])[-400:],
                }
                h = hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:12]
                replay_path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
                with open(replay_path, "w", encoding="utf-8") as f:
                    json.dump(body, f, indent=1)
                # replay in a fresh process
                fresh = Pool(scen, 1, [best.get("hashseed", 0)])
                try:
                    fr = fresh.one(name, best)
                finally:
                    fresh.close()
                same = fr.get("status") == "violation" and fr.get("key") == rep.get("key")
                body["fresh_process_replay"] = {"same_violation": same, "same_digest": fr.get("digest") == rep.get("digest")}
                with open(replay_path, "w", encoding="utf-8") as f:
                    json.dump(body, f, indent=1)
                if same:
                    rc = 1
                else:
                    errors.append((i, plan, {"key": "not-reproducible", "msg": f"{res['key']}: {res['msg']}"}))
                    rc = 2
    except BaseException as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        errors.append((-1, None, {"key": "runner", "msg": repr(e)}))
        rc = 2
    finally:
        hello = [w.hello for w in pool.workers if w.hello]
        pool.close()
    wall_s = time.monotonic() - t0
    agg["samples"].sort()
    samples = [s for _, s in agg["samples"][:3]] or ["(none)"]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": scen.RULE,
            "samples": samples,
            "seeds": agg["n"],
            "runs_per_hour": int(agg["n"] / max(wall_s, 1e-9) * 3600),
            "simulated_seconds": round(agg["sim_s"], 3),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "events": agg["events"],
            "scheduling_steps": agg["steps"],
            "context_switches": agg["switches"],
            "distinct_interleavings": len(agg["inter"]),
            "distinct_outcomes": len(agg["outcomes"]),
            "interleaving_measure": "hash of the sequence of (simulated thread, event kind) of a run",
            "determinism_rechecks": redo["checked"],
            "determinism_divergences": len(redo["diverged"]),
            "hash_seeds": HASHSEEDS,
            "components_real": scen.REAL,
            "components_stubbed": scen.STUB,
            "known_findings_seen": hits,
            "minimise_attempts": min_attempts,
        },
        "assumptions": getattr(scen, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        # listed findings are announced on every run; the count says how often this run met it
        print(f"KNOWN-FINDING: property={pid} {k['what']} (met {hits.get(k['id'], 0)} times in this run)")
    print(
        f"{pid}: {agg['n']} runs, {len(agg['inter'])} interleavings, {len(agg['outcomes'])} outcomes, "
        f"{agg['sim_s']:.0f} simulated s, faults={sum(agg['faults'].values())}, "
        f"redo={redo['checked']}/{len(redo['diverged'])} diverged, {wall_s:.1f} s wall"
    )
    if redo["diverged"]:
        print(f"note: runs {redo['diverged'][:10]} did not repeat exactly (harness nondeterminism)")
    if rc == 1:
        print(f"violation: {rep.get('key')}: {rep.get('msg')}")
        print(f"VIOLATION property={pid} replay={replay_path}")
    elif rc == 2:
        for i, plan, res in errors[:3]:
            print(f"ERROR run={i} {res.get('key')}: {res.get('msg')}")
    return rc


def cmd_replay(a) -> int:
    with open(a.file, encoding="utf-8") as f:
        body = json.load(f)
    scen = scenario(body["property"])
    pool = Pool(scen, 1, [body["plan"].get("hashseed", 0)])
    try:
        r = pool.one(body["scenario"], body["plan"], trace=True)
    finally:
        pool.close()
    if a.trace:
        print("\n".join(r.get("trace", [])))
    print(json.dumps({k: v for k, v in r.items() if k not in ("trace", "tape")}, indent=1))
    if r.get("status") == "violation":
        print(f"VIOLATION property={body['property']} replay={a.file}")
        return 1
    return 0 if r.get("status") == "ok" else 2


def cmd_determinism(a) -> int:
    """Every run twice, at two worker layouts; diffs the event digests."""
    scen = scenario(a.id)
    name = a.id.lower()
    runs = a.runs or 64
    plans = list(gen_plans(scen, a.id, int(os.environ.get("VERIF_SEED", "1")), "quick", runs))
    maps = []
    for rev in (False, True):
        pool = Pool(scen, len(HASHSEEDS))
        d = {}

        def on(i, plan, res, d=d):
            d[plan["i"]] = (res.get("status"), res.get("digest"), res.get("outcome"), res.get("key"), res.get("msg"))

        pool.map(name, list(reversed(plans)) if rev else plans, on_result=on)
        pool.close()
        maps.append(d)
    bad = [i for i in maps[0] if maps[0][i] != maps[1].get(i)]
    print(f"{a.id}: {len(maps[0])} runs twice, {len(bad)} differ")
    for i in bad[:5]:
        print(i, maps[0][i], maps[1].get(i))
    return 1 if bad else 0


def main() -> int:
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier")
    c.add_argument("--runs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--trace", action="store_true")
    d = sub.add_parser("determinism")
    d.add_argument("id")
    d.add_argument("--runs", type=int)
    a = ap.parse_args()
    return {"check": cmd_check, "replay": cmd_replay, "determinism": cmd_determinism}[a.cmd](a)


if __name__ == "__main__":
    sys.exit(main())
