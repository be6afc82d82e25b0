"""Imports the code under test (after the seams are in place)."""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("CRM_REPO", "/repo")


def load() -> None:
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import encodings.idna  # noqa: F401
    import encodings.latin_1  # noqa: F401
    import encodings.utf_8  # noqa: F401

    import git  # noqa: F401
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import networkx  # noqa: F401
    import networkx.drawing.nx_agraph  # noqa: F401

    import conda_recipe_manager.commands.conda_recipe_manager  # noqa: F401
    import conda_recipe_manager.fetcher.artifact_fetcher  # noqa: F401
    import conda_recipe_manager.grapher.recipe_graph_from_disk  # noqa: F401
    import conda_recipe_manager.parser.cbc_parser  # noqa: F401
    import conda_recipe_manager.parser.recipe_parser_convert  # noqa: F401
    import conda_recipe_manager.parser.recipe_parser_deps  # noqa: F401
    import conda_recipe_manager.scanner.dependency.py_dep_scanner  # noqa: F401
    import conda_recipe_manager.scanner.dependency.pyproject_dep_scanner  # noqa: F401

    _memo_check_schema()

    where = os.path.realpath(conda_recipe_manager.__file__)
    if not where.startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError(f"conda_recipe_manager was imported from {where}, not from {REPO}")


def _memo_check_schema() -> None:
    """
    `jsonschema.validate` checks the (constant) schema against its meta-schema on every call, which is 90 % of the time
    a patch takes. That check is a pure function of the schema: remember the schemas that passed.
    """
    import json

    import jsonschema

    for name in ("Draft202012Validator", "Draft201909Validator", "Draft7Validator"):
        cls = getattr(jsonschema, name, None)
        if cls is None:
            continue
        real = cls.check_schema.__func__
        passed: set[str] = set()

        def check(kls, schema, *a, real=real, passed=passed, **k):
            try:
                key = json.dumps(schema, sort_keys=True)
            except (TypeError, ValueError):
                return real(kls, schema, *a, **k)
            if key not in passed:
                real(kls, schema, *a, **k)
                passed.add(key)

        cls.check_schema = classmethod(check)
