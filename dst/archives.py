"""Deterministic archive bytes. Everything is a pure function of its arguments."""

from __future__ import annotations

import bz2
import gzip
import hashlib
import io
import lzma
import random
import tarfile
import zipfile


def compress(kind: str, data: bytes) -> bytes:
    if kind == "gz":
        return gzip.compress(data, 1, mtime=0)
    if kind == "bz2":
        return bz2.compress(data, 1)
    if kind == "xz":
        return lzma.compress(data, preset=0)
    return data


def tar_bytes(members: list[tuple[str, bytes]], comp: str = "gz") -> bytes:
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.PAX_FORMAT) as t:
        for name, data in members:
            ti = tarfile.TarInfo(name)
            if name.endswith("/"):
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
                t.addfile(ti)
                continue
            ti.size = len(data)
            ti.mode = 0o644
            t.addfile(ti, io.BytesIO(data))
    return compress(comp, buf.getvalue())


def zip_bytes(members: list[tuple[str, bytes]], deflate: bool = True) -> bytes:
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED) as z:
        for name, data in members:
            zi = zipfile.ZipInfo(name, (1980, 1, 1, 0, 0, 0))
            zi.external_attr = (0o755 if name.endswith("/") else 0o644) << 16
            zi.compress_type = zipfile.ZIP_DEFLATED if deflate else zipfile.ZIP_STORED
            z.writestr(zi, data)
    return buf.getvalue()


KINDS = ["tar.gz", "tar.bz2", "tar.xz", "tar", "zip", "zip0"]


def pack(kind: str, members: list[tuple[str, bytes]]) -> bytes:
    if kind == "zip":
        return zip_bytes(members)
    if kind == "zip0":
        return zip_bytes(members, False)
    return tar_bytes(members, {"tar.gz": "gz", "tar.bz2": "bz2", "tar.xz": "xz", "tar": ""}[kind])


def members_for(key: str, n: int = 3, size: int = 600) -> list[tuple[str, bytes]]:
    r = random.Random(f"members:{key}")
    top = r.choice(["src", "pkg-1.0", "a", "x_y"])
    out: list[tuple[str, bytes]] = [(top + "/", b"")]
    for i in range(n):
        sub = r.choice(["", "lib/", "lib/deep/", "doc/"])
        out.append((f"{top}/{sub}f{i}.txt", r.randbytes(r.randrange(0, size))))
    return out


def blob(key: str, kind: str = "tar.gz", size: int = 600, n: int = 3) -> bytes:
    """The archive that stands for `key` (usually a URL)."""
    return pack(kind, members_for(key, n, size))


def sha256(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()


_TYPES = {"f": tarfile.REGTYPE, "d": tarfile.DIRTYPE, "s": tarfile.SYMTYPE, "h": tarfile.LNKTYPE, "p": tarfile.FIFOTYPE,
          "c": tarfile.CHRTYPE, "b": tarfile.BLKTYPE}


def content(m: dict) -> bytes:
    """The bytes of a member described by {"n": name, "t": type, "k": content key, "z": size, ...}."""
    return random.Random(f"content:{m.get('k', m['n'])}").randbytes(int(m.get("z", 40)))


def raw(kind: str, members: list[dict]) -> bytes:
    """An archive with exactly these members, hostile ones included. `kind` is one of KINDS."""
    buf = io.BytesIO()
    if kind.startswith("zip"):
        import warnings

        comp = zipfile.ZIP_DEFLATED if kind == "zip" else zipfile.ZIP_STORED
        with warnings.catch_warnings(), zipfile.ZipFile(buf, "w", comp) as z:
            warnings.simplefilter("ignore")
            for m in members:
                zi = zipfile.ZipInfo("x", (1980, 1, 1, 0, 0, 0))
                zi.filename = m["n"]
                t = m.get("t", "f")
                fmt = {"f": 0o100000, "d": 0o040000, "s": 0o120000, "h": 0o100000, "p": 0o010000, "c": 0o020000,
                       "b": 0o060000}[t]
                zi.create_system = 3
                zi.external_attr = (fmt | int(m.get("m", 0o644))) << 16
                zi.compress_type = comp
                if t == "d":
                    data = b""
                elif t in ("s", "h"):
                    data = m.get("l", "").encode()
                else:
                    data = content(m)
                z.writestr(zi, data)
        return buf.getvalue()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.PAX_FORMAT) as t:
        for m in members:
            ti = tarfile.TarInfo(m["n"])
            ti.type = _TYPES[m.get("t", "f")]
            ti.mode = int(m.get("m", 0o755 if ti.type == tarfile.DIRTYPE else 0o644))
            ti.mtime = int(m.get("mt", 1_000_000_000))
            ti.uid, ti.gid = m.get("u", 0), m.get("u", 0)
            if ti.type in (tarfile.SYMTYPE, tarfile.LNKTYPE):
                ti.linkname = m.get("l", "")
                t.addfile(ti)
            elif ti.type == tarfile.REGTYPE:
                data = content(m)
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))
            else:
                t.addfile(ti)
    return compress({"tar.gz": "gz", "tar.bz2": "bz2", "tar.xz": "xz", "tar": ""}[kind], buf.getvalue())


def expected_tree(kind: str, members: list[dict]) -> dict[str, bytes | str]:
    """What extracting benign members must produce, in the notation of `Env.tree` (only files and links)."""
    out: dict[str, bytes | str] = {}
    for m in members:
        t, n = m.get("t", "f"), m["n"].rstrip("/")
        if t == "f":
            out[n] = content(m)
        elif t == "s":
            out[n] = m["l"].encode() if kind.startswith("zip") else "-> " + m["l"]
        elif t == "h":
            out[n] = m["l"].encode() if kind.startswith("zip") else out[m["l"]]
    return out


def damage(data: bytes, how: dict) -> bytes:
    """Seeded damage to the bytes of an archive."""
    k, x = how["k"], float(how.get("x", 0.5))
    at = min(len(data) - 1, int(len(data) * x)) if data else 0
    r = random.Random(f"damage:{how.get('s', 0)}")
    if k == "keep":
        return data
    if k == "cut":
        return data[:at]
    if k == "flip":
        b = bytearray(data)
        for _ in range(int(how.get("n", 1))):
            if b:
                b[min(len(b) - 1, int(len(b) * r.random()))] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == "zero":
        return data[:at] + b"\0" * min(len(data) - at, 700) + data[at + 700:]
    if k == "garbage":
        return r.randbytes(len(data))
    if k == "text":
        return b"<!DOCTYPE html><html><body>Please log in</body></html>\n"
    if k == "head":
        return data[: min(len(data), 6)] + r.randbytes(max(0, len(data) - 6))
    if k == "append":
        return data + r.randbytes(900)
    if k in ("locked", "method"):
        return _zip_heads(data, k)
    return b""


def _zip_heads(data: bytes, k: str) -> bytes:
    """Marks the members of a ZIP archive as encrypted, or as compressed by a method that nobody has."""
    b = bytearray(data)
    try:
        infos = zipfile.ZipFile(io.BytesIO(data)).infolist()
    except zipfile.BadZipFile:
        return data[: len(data) // 2]
    central = data.find(b"PK\1\2")
    for zi in infos:
        for at in (zi.header_offset + 6, central + 8):
            if k == "locked":
                b[at] |= 1
            else:
                b[at + 2] = 97
        central = data.find(b"PK\1\2", central + 4)
    return bytes(b)


def unreadable(data: bytes) -> str:
    """Why nobody can get the members out of an archive, or ''."""
    try:
        try:
            t = tarfile.open(fileobj=io.BytesIO(data), mode="r")
        except tarfile.TarError:
            t = None
        if t is not None:
            for m in t:
                if m.isreg():
                    t.extractfile(m).read()  # type: ignore[union-attr]
            return ""
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            for n in z.namelist():  # of members with one name, the last one counts
                if not z.getinfo(n).is_dir():
                    z.read(n)
        return ""
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"
