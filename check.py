#!/opt/venv/bin/python
"""check.py <ID> [--quick|--thorough] [--seed N] [--replay FILE]: run one check (see lib/fw.py)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    want = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE=None, PYTHONPYCACHEPREFIX=None, PYTHONPATH=None, LANG="C.UTF-8", PYTHONNOUSERSITE="1")
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, VERIF_REEXEC="1")
        for k, v in want.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks"), REPO]
    sys.dont_write_bytecode = False
    import fw
    import tempfile
    sys.pycache_prefix = tempfile.gettempdir() + "/nonexistent-mcpv"   # replaced per run by fw.main
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    chk = importlib.import_module(sys.argv[1].lower())
    sys.exit(fw.main(chk, sys.argv[2:]))


if __name__ == "__main__":
    main()
