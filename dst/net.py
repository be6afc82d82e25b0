"""
Network seam: `requests.adapters.HTTPAdapter.send` talks to simulated servers. Everything above it (requests' redirect
handling, streaming, decoding; urllib3's response object, content-length enforcement and error mapping) is real code.

plan["net"][url] is a list of attempt behaviours, consumed one per request; the last one repeats.
A behaviour is a dict: {"kind": ..., "latency": s, ...}. `BLOBS[key]` gives the bytes served.
"""

from __future__ import annotations

import socket

from dst import core

FAIL_KINDS = [
    "refuse", "dns", "connect-timeout", "stall", "reset", "truncated", "tls", "reset-body", "loop", "badgzip", "proto",
]


def _prepared(url: str) -> str:
    """The URL with the quoting and path normalisation requests applies."""
    import requests

    try:
        r = requests.PreparedRequest()
        r.prepare_url(url, None)
        return r.url or url
    except Exception:  # noqa: BLE001
        return url


class Net:
    def __init__(self, sim: core.Sim, table: dict, blobs: dict[str, bytes]):
        self.sim = sim
        self.table = table
        self.asked = {_prepared(u): u for u in reversed(list(table))}  # as requests spells them
        self.blobs = blobs
        self.hits: dict[str, int] = {}
        self.log: list[dict] = []
        self.unknown: list[str] = []
        self.no_timeout: list[str] = []

    def behaviour(self, url: str):
        url = url if url in self.table else self.asked.get(url, url)
        lst = self.table.get(url)
        n = self.hits.get(url, 0)
        self.hits[url] = n + 1
        if not lst:
            self.unknown.append(url)
            return {"kind": "status", "status": 404, "blob": None}
        return lst[min(n, len(lst) - 1)]


class _Body:
    """File-like body below urllib3.HTTPResponse."""

    def __init__(self, sim, data: bytes, end: str, slow: float, piece: int, timeout, entry):
        self.sim = sim
        self.entry = entry
        self.data = data
        self.pos = 0
        self.end = end  # eof | reset | stall
        self.slow = slow
        self.piece = piece
        self.timeout = timeout
        self.closed = False

    def read(self, amt=None):
        try:
            return self._read(amt)
        finally:
            self.entry["end"] = self.sim.now_us / 1e6

    def _read(self, amt=None):
        if self.pos >= len(self.data):
            if self.end == "reset":
                self.sim.log("net-reset")
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.end == "stall":
                self.sim.log("net-stall")
                if self.timeout is None:
                    self.sim.probe("unbounded-read")
                    self.sim._dead("unbounded-wait", "a network read without a timeout never completes")
                self.sim.advance(self.timeout)
                raise socket.timeout("timed out")
            self.closed = True
            return b""
        n = len(self.data) - self.pos
        if amt is not None and amt >= 0:
            n = min(n, amt)
        if self.piece:
            n = min(n, self.piece)
        self.sim.advance(self.slow, "recv")
        out = self.data[self.pos : self.pos + n]
        self.pos += n
        return out

    def read1(self, amt=None):
        return self.read(amt)

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readable(self):
        return True

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def isclosed(self):
        return self.closed


def _split_timeout(timeout):
    if timeout is None:
        return None, None
    if isinstance(timeout, (int, float)):
        return float(timeout), float(timeout)
    if isinstance(timeout, tuple):
        return timeout
    c, r = getattr(timeout, "connect_timeout", None), getattr(timeout, "read_timeout", None)
    return c, r


def install() -> None:
    import requests
    import requests.adapters as ra
    import urllib3
    from urllib3.exceptions import MaxRetryError, NewConnectionError, ReadTimeoutError  # noqa: F401
    from urllib3.response import HTTPResponse

    real_send = ra.HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        sim = core.ACTIVE
        net = getattr(sim, "net", None) if sim is not None else None
        if net is None:
            raise requests.exceptions.ConnectionError("the simulator has no network here", request=request)
        url = request.url
        b = net.behaviour(url)
        kind = b["kind"]
        sim.log("http", f"{request.method} {url} -> {kind}")
        entry = {"url": url, "kind": kind, "at": sim.now_us / 1e6, "timeout": timeout, "end": sim.now_us / 1e6,
                 "beh": b, "tid": sim.me().tid if sim.me() is not None else -1}
        net.log.append(entry)
        try:
            return _answer(self, request, sim, net, b, kind, url, timeout, entry)
        finally:
            entry["end"] = sim.now_us / 1e6

    def _answer(self, request, sim, net, b, kind, url, timeout, entry):
        connect_to, read_to = _split_timeout(timeout)
        if kind not in ("ok",):
            sim.fault(f"net-{kind}")
        sim.advance(float(b.get("latency", 0.0)), "send")
        exc = requests.exceptions
        if kind == "refuse":
            raise exc.ConnectionError("[Errno 111] Connection refused", request=request)
        if kind == "dns":
            raise exc.ConnectionError("[Errno -2] Name or service not known", request=request)
        if kind == "tls":
            raise exc.SSLError("certificate verify failed", request=request)
        if kind == "proxy":
            raise exc.ProxyError("proxy said no", request=request)
        if kind == "connect-timeout":
            if connect_to is None:
                sim._dead("unbounded-wait", "a connect without a timeout never completes")
            sim.advance(connect_to)
            raise exc.ConnectTimeout("connect timed out", request=request)
        if kind == "stall-headers":
            if read_to is None:
                sim._dead("unbounded-wait", "a network read without a timeout never completes")
            sim.advance(read_to)
            raise exc.ReadTimeout("read timed out", request=request)
        if kind == "reset":
            raise exc.ConnectionError(
                urllib3.exceptions.ProtocolError("Connection aborted.", ConnectionResetError(104, "reset")),
                request=request,
            )
        data = net.blobs.get(b.get("blob"), b"") if b.get("blob") else b.get("text", "").encode()
        status = int(b.get("status", 200))
        headers = {"Content-Type": b.get("ctype", "application/octet-stream")}
        end = "eof"
        declared = len(data)
        if kind in ("truncated", "reset-body", "stall"):
            cut = int(len(data) * float(b.get("frac", 0.5)))
            cut = max(0, min(cut, len(data) - 1)) if data else 0
            data = data[:cut]
            end = {"truncated": "eof", "reset-body": "reset", "stall": "stall"}[kind]
        elif kind in ("loop", "redirect"):
            status = 302
            headers["Location"] = b.get("to", url)
            data = b""
            declared = 0
        elif kind == "badgzip":
            headers["Content-Encoding"] = "gzip"
            data = b"this is not gzip data" * 3
            declared = len(data)
        elif kind == "empty":
            data = b""
            declared = 0
        if not b.get("no_length"):
            headers["Content-Length"] = str(declared)
        body = _Body(sim, data, end, float(b.get("slow", 0.0)), int(b.get("piece", 0)), read_to, entry)
        raw = HTTPResponse(
            body=body,
            headers=headers,
            status=status,
            reason={200: "OK", 302: "Found", 404: "Not Found"}.get(status, "Status"),
            preload_content=False,
            decode_content=False,
            enforce_content_length=True,
            request_method=request.method,
            request_url=url,
        )
        resp = self.build_response(request, raw)
        return resp

    send._real = real_send
    ra.HTTPAdapter.send = send
