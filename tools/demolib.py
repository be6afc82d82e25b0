"""Helpers for a demonstration: conda stand-in, in-process web server, in-process command line. Run with cwd = repository."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import threading
import time
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("GIT_CONFIG_GLOBAL", "/dev/null")

try:
    import conda.models.match_spec  # noqa: F401
except ImportError:
    for n in ("conda", "conda.models", "conda.models.match_spec"):
        sys.modules[n] = types.ModuleType(n)
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "match_spec.py")).read(),
         sys.modules["conda.models.match_spec"].__dict__)
    sys.modules["conda.models"].match_spec = sys.modules["conda.models.match_spec"]
    sys.modules["conda"].models = sys.modules["conda.models"]

real_sleep = time.sleep
sleeps = []


def no_sleep():
    time.sleep = lambda s: sleeps.append(s)


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="demo_"))
    old = tempfile.tempdir
    os.mkdir(os.path.join(d, "tmp"))
    tempfile.tempdir = os.path.join(d, "tmp")
    try:
        yield d
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


def serve(handler):
    """handler(url, n) -> bytes | (status, bytes) | Exception instance; n counts the requests for that URL from 1."""
    import requests
    import requests.adapters
    from urllib3 import HTTPResponse

    lock, hits = threading.Lock(), {}

    def send(self, request, **kw):
        with lock:
            hits[request.url] = n = hits.get(request.url, 0) + 1
        r = handler(request.url, n)
        if isinstance(r, BaseException):
            raise r
        status, body = r if isinstance(r, tuple) else (200, r)
        raw = HTTPResponse(body=io.BytesIO(body), status=status, headers={"Content-Length": str(len(body))},
                           preload_content=False)
        return self.build_response(request, raw)

    requests.adapters.HTTPAdapter.send = send
    return hits


def crm(*args, stdin=""):
    from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as group

    return run_command(group, *args, stdin=stdin)


def run_command(command, *args, stdin=""):
    """-> (exit code, stdout, stderr). An escaping exception gives code 'TRACEBACK ...'."""
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdout, sys.stderr, sys.stdin
    sys.stdout, sys.stderr, sys.stdin = out, err, io.StringIO(stdin)
    try:
        command.main(args=[str(a) for a in args], prog_name="crm", standalone_mode=True)
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else int(e.code)
    except Exception as e:  # noqa: BLE001
        code = f"TRACEBACK {type(e).__name__}: {e}"
    finally:
        sys.stdout, sys.stderr, sys.stdin = saved
    return code, out.getvalue(), err.getvalue()


def tarball(files):
    import tarfile

    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for name, data in files.items():
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
    return b.getvalue()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return path


def read(path):
    with open(path, "rb") as f:
        return f.read()


def expect(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.stdout.flush()
        os._exit(1)
