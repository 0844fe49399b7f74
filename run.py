"""python run.py CNN [--replay FILE]   -- runs the check of one property"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
# nothing a check does may depend on the user's or system's git configuration
os.environ.update(GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", HOME="/nonexistent", PYTHONDONTWRITEBYTECODE="1",
                  GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")


def main():
    # paths may have any bytes
    sys.stdout.reconfigure(errors="backslashreplace")
    prop = sys.argv[1].upper()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    if replay and json.load(open(replay)).get("optimize") and not sys.flags.optimize:
        os.execv(sys.executable, [sys.executable, "-O"] + sys.argv)
    mod = importlib.import_module("checks." + prop.lower())
    if getattr(mod, "NEEDS_SHIM", False):
        from vlib import shim
        shim.ensure()
    import gitdb
    if not os.path.realpath(gitdb.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("gitdb imported from %s" % gitdb.__file__)
        return 2
    from vlib import core
    if "--worker" in sys.argv:
        return core.work(prop, mod.FAMILIES, sys.argv[sys.argv.index("--worker") + 1])
    return core.run(prop, mod.LEVEL, mod.FAMILIES, mod.RULE, getattr(mod, "ASSUMPTIONS", ()), replay,
                    getattr(mod, "WORKERS", 8), getattr(mod, "REQUIRE", None),
                    more=getattr(mod, "MORE", 1))


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
