"""runs functions of ours in new interpreters, started in another way than this one"""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

PLAIN = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}      # file names are ASCII
WAYS = {"-O": (["-O"], {}), "-OO": (["-OO"], {}), "ascii": ([], PLAIN), "utf8": (["-X", "utf8"], {}), "-bb": (["-bb"], {}), "-We": (["-W", "error"], {}), "hash": ([], {"PYTHONHASHSEED": "1"})}


def call(c, way, name, arg, timeout=120):
    """:return: result of the function called 'module:function' with arg, both of what JSON can represent"""
    flags, env = WAYS[way]
    p = subprocess.run([sys.executable] + flags + [os.path.abspath(__file__), name], input=json.dumps(arg).encode("ascii"), capture_output=True, timeout=timeout,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env))
    c.ev("interpreters started")
    if p.returncode:
        c.fail("interpreter started %s failed in %s: %s" % (way, name, p.stderr.decode("utf-8", "replace").strip()[-1500:]))
    return json.loads(p.stdout.decode("ascii"))


if __name__ == "__main__":
    sys.path[:0] = [REPO, HERE]
    module, function = sys.argv[1].split(":")
    json.dump(getattr(importlib.import_module(module), function)(json.load(sys.stdin)), sys.stdout)
