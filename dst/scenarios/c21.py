"""C21: a file's hash covers all of its bytes, or the operation raises."""

import hashlib
import os
import random

COUNTS = {"quick": 4000, "thorough": 80000}
RULE = (
    "One run = 1..6 hashings (in one or several threads, several algorithms, by name or by constructor) of files whose sizes lie around the "
    "buffer boundaries, with seeded short reads and read errors at seeded offsets, compared with hashlib over the known bytes; "
    "a failed hashing is repeated on the healthy disk. Distinct by (interleaving, sizes, outcome)."
)
REAL = ["hash_file", "hash_str", "hashlib.file_digest"]
STUB = ["disk: short reads and read errors", "scheduler of the hashing threads"]

ALGOS = ["sha256", "md5", "sha1", "sha512", "sha3_256", "blake2b", "sha384"]
K = [0, 1, 2, 1023, 1024, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 196608, 262143, 262144, 262145, 300000, 524288, 524289]


def gen(rng: random.Random, tier, i):
    files = [{"n": rng.choice(K) if rng.random() < 0.75 else rng.randrange(400000), "seed": rng.randrange(1 << 30), "fill": rng.choice(["rand", "zero", "nl", "eof"]), }
             for _ in range(rng.randrange(1, 4))]
    ops = [{"f": rng.randrange(len(files)), "algo": rng.choice(ALGOS), "how": rng.choice(["name", "name", "ctor"]), "path": rng.random() < 0.5}
           for _ in range(rng.randrange(1, 7))]
    for o in ops:
        if rng.random() < 0.25:  # the file is replaced before it is hashed: same size, perhaps the same time stamp
            o["new"] = [rng.randrange(1 << 30), rng.choice(["same-size", "same-size", "grow", "shrink"]), rng.random() < 0.5]
    disk = []
    if rng.random() < 0.45:
        disk.append({"op": rng.choice(["read", "read", "read", "open-r"]), "glob": f"work/f{rng.randrange(len(files))}", "nth": rng.choice([1, 1, 2, 2, 3, 4, 6, 9]),
                     "kind": rng.choice(["eio", "eio", "eacces", "enoent", "emfile"]), "sticky": rng.random() < 0.3})
    return {"files": files, "ops": ops, "disk": disk, "short_io": rng.randrange(1 << 30) if rng.random() < 0.6 else None, "threads": rng.random() < 0.5,
            "missing": rng.choice([None, None, None, "gone", "dir"]), "text": rng.random() < 0.3}


def data(f):
    n = f["n"]
    if f["fill"] == "zero":
        return b"\0" * n
    if f["fill"] == "nl":
        return (b"\r\n\n\r" * (n // 4 + 1))[:n]
    if f["fill"] == "eof":
        return (b"\x1a\x00\xff" * (n // 3 + 1))[:n]
    return random.Random(f["seed"]).randbytes(n)


def run(plan, sim, env):
    from pathlib import Path

    from conda_recipe_manager.utils.cryptography.hashing import hash_file, hash_str

    blobs = [data(f) for f in plan["files"]]
    for k, b in enumerate(blobs):
        env.put(f"work/f{k}", b)
    fs = env.disk()
    errors, outcomes = [], []

    def do(op, strict=False):
        b = blobs[op["f"]]
        p = os.path.join(env.root, f"work/f{op['f']}")
        algo = op["algo"] if op["how"] == "name" else getattr(hashlib, op["algo"])
        me = sim.me().tid
        fired = [f for f in fs.faults]
        n0 = sum(f["fired"] for f in fired)
        try:
            got = hash_file(Path(p) if op["path"] else p, algo)
        except OSError:
            env.check(not strict and sum(f["fired"] for f in fs.faults) > 0, "spurious-error", f"hashing {len(b)} bytes raised although no read failed")
            outcomes.append("error")
            return False
        want = hashlib.new(op["algo"], b).hexdigest()
        env.check(got == want, "wrong-hash", f"{op['algo']} of a file of {len(b)} bytes is {got}, its bytes hash to {want}")
        if not plan["threads"]:
            env.check(sum(f["fired"] for f in fs.faults) == n0, "error-hidden", f"a read of the file failed but a hash was returned (thread {me})")
        outcomes.append("ok")
        return True

    def change(op):
        k, (seed, how, keep) = op["f"], op["new"]
        n = len(blobs[k]) + {"same-size": 0, "grow": 1, "shrink": -1}[how]
        blobs[k] = random.Random(seed).randbytes(max(0, n))
        p = os.path.join(env.root, f"work/f{k}")
        fs.enabled = False
        st = os.stat(p)
        with open(p, "r+b") as f:
            f.write(blobs[k])
            f.truncate()
        if keep:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        fs.enabled = True
        fs.mut_log.clear()

    def worker(ops):
        try:
            for op in ops:
                if "new" in op and not plan["threads"]:
                    change(op)
                do(op)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    if plan["threads"]:
        ts = [sim.spawn(worker, ([op],), name=f"hash{k}") for k, op in enumerate(plan["ops"])]
        for t in ts:
            sim.join(t)
    else:
        worker(plan["ops"])
    if errors:
        raise errors[0]
    if plan["missing"]:
        p = os.path.join(env.root, "work/nothere")
        if plan["missing"] == "dir":
            env.mkdir("work/nothere")
        try:
            r = hash_file(p, "sha256")
        except OSError:
            r = None
        env.check(r is None, "hash-of-nothing", f"{plan['missing']}: hash_file returned {r}")
    if plan["text"]:
        for b in blobs:
            s = b.decode("latin-1")
            got = hash_str(s, hashlib.sha256)
            env.check(got == hashlib.sha256(s.encode("utf-8")).hexdigest(), "wrong-str-hash", f"hash_str of {len(s)} characters is {got}")
            got = hash_str(s, hashlib.md5, "latin-1")
            env.check(got == hashlib.md5(b).hexdigest(), "wrong-str-hash", f"hash_str of {len(s)} latin-1 characters is {got}")
    fs.faults = []
    for op in plan["ops"]:
        do(op, strict=True)
    env.check(not fs.mut_log, "modified", f"hashing wrote files: {fs.mut_log[:3]}")
    env.note([f["n"] for f in plan["files"]], outcomes, plan["short_io"] is not None, plan["threads"])
    env.sample = f"sizes {[f['n'] for f in plan['files']]} -> {outcomes}"
