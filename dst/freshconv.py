"""
`python -B -m dst.freshconv SPECS OUT`: converts every recipe of the JSON list SPECS on its own, each in its own process
that has done nothing else, through the real command line (`crm convert FILE -o OUT`), and stores what it wrote.
Runs before any simulation; no seams.
"""

from __future__ import annotations

import json
import os
import subprocess
import sys


def main() -> None:
    with open(sys.argv[1], encoding="utf-8") as f:
        specs = json.load(f)
    from dst import convlib as C, target

    try:
        import conda.models.match_spec  # noqa: F401
    except ImportError:
        sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"))
    target.load()
    import click  # noqa: F401

    from conda_recipe_manager.commands.convert import convert

    res = {}
    base = os.path.dirname(os.path.abspath(sys.argv[2]))
    for i, spec in enumerate(specs):
        d = os.path.join(base, f"c{os.getpid()}-{i}")
        os.mkdir(d)
        with open(os.path.join(d, "meta.yaml"), "w", encoding="utf-8", newline="") as f:
            f.write(C.content(spec))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                convert.main(args=[os.path.join(d, "meta.yaml"), "-o", os.path.join(d, "recipe.yaml")], prog_name="crm")
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            finally:
                os._exit(code & 0xFF)
        _, status = os.waitpid(pid, 0)
        text = None
        p = os.path.join(d, "recipe.yaml")
        if os.path.exists(p):
            with open(p, encoding="utf-8", newline="") as f:
                text = f.read()
        res[json.dumps(spec, sort_keys=True)] = [os.waitstatus_to_exitcode(status), text]
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(res, f)


def expected(specs: list[dict], fixtures: str, procs: int = 6) -> None:
    """Writes `fixtures`/expected.json: spec -> [exit code, text]."""
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8")
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + ":" + env.get("PYTHONPATH", "")
    ps = []
    for k in range(procs):
        d = os.path.join(fixtures, f"fresh{k}")
        os.mkdir(d, 0o755)
        with open(os.path.join(d, "specs.json"), "w", encoding="utf-8") as f:
            json.dump(specs[k::procs], f)
        ps.append(subprocess.Popen([sys.executable, "-B", "-m", "dst.freshconv", os.path.join(d, "specs.json"),
                                    os.path.join(d, "out.json")], env=env, cwd=d))
    out = {}
    for k, p in enumerate(ps):
        if p.wait(300) != 0:
            raise RuntimeError("fresh conversion helper failed")
        with open(os.path.join(fixtures, f"fresh{k}", "out.json"), encoding="utf-8") as f:
            out.update(json.load(f))
    with open(os.path.join(fixtures, "expected.json"), "w", encoding="utf-8") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
