#!/usr/bin/env python3
"""Entry point of every check: run.py Cxx [--replay FILE] [--tier quick|thorough]."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VF_CHILD"] = "1"
    env.setdefault("VF_REPO", "/repo")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    if os.environ.get("VF_CHILD") != "1" or \
            os.environ.get("PYTHONHASHSEED") != "0":
        reexec()
    # never read a stale .pyc: sources are compiled from the working tree
    sys.pycache_prefix = "/nonexistent/vf-pycache"
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ["VF_REPO"])
    from vf.core import main
    main(sys.argv[1:])
