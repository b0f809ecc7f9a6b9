"""Performs the events of Config.tla: real files in a scratch directory, and for every
boot a fresh process (forked before asta was imported) which imports asta there and
observes which settings are in force.  Run by asta's python in a scratch directory.

/etc/astarc is never touched: inside the booted process, looking at or opening that
path leads to a file of the scratch directory.
"""
import builtins
import io
import json
import os
import shutil
import sys

REPO = os.environ.get("ASTA_VERIF_REPO", "/repo")    # (another tree: for trying the checks out only)
KEYS = ["on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements"]


def text(c, fmt):
    if c["k"] == "unrelated":
        return '[tool.black]\nline-length = 88\n' if fmt == "toml" else "[mypy]\nstrict = yes\n"
    look = c.get("look", [])
    lines = [] if c["k"] == "empty" else [{"toml": "[tool.asta.MASTER]", "cfg": "[asta.MASTER]", "rc": "[MASTER]"}[fmt]]
    decoy = [{"toml": "[tool.asta.OTHER]", "cfg": "[asta.OTHER]", "rc": "[OTHER]"}[fmt]]
    if c["k"] == "master":
        for x in c["s"] + c.get("x", []):
            v = x["v"] if isinstance(x["v"], str) else "yes" if x["v"] else "no"
            o = x["o"].upper() if "upper" in look and fmt != "toml" else x["o"]
            eq = " = " if "space" in look or fmt == "toml" else "="
            q = '"' if fmt == "toml" else ""
            lines.append(f"{o}{eq}{q}{v}{q}")
            decoy.append(f"{o}{eq}{q}{'no' if v == 'yes' else 'yes'}{q}")
            if "comment" in look:
                lines.append("# " + o + eq + "no")
    if fmt == "cfg":
        lines = ["[metadata]", "name = x"] + lines
    if fmt == "toml":
        lines = ["[tool.black]", "line-length = 88"] + lines
    if "before" in look:
        lines = decoy + lines
    elif "after" in look:
        lines = lines + decoy
    return ("\ufeff" if "bom" in look and fmt == "rc" else "") + "\n".join(lines) + "\n"


class World:
    def __init__(self, root):
        self.root = root
        self.dirs = {"p3": root + "/p3", "p2": root + "/p3/p2", "p1": root + "/p3/p2/p1",
                     "cwd": root + "/p3/p2/p1/cwd", "home": root + "/home"}
        for d in self.dirs.values():
            os.makedirs(d, exist_ok=True)
        os.makedirs(self.dirs["home"] + "/.config", exist_ok=True)
        self.etc = root + "/etc-astarc"
        self.env = root + "/named-rc"
        self.astarc = "unset"

    def path(self, p):
        if p == "etc":
            return self.etc
        if p == "env":
            return self.env
        d, f = p.split("/", 1)
        return self.dirs[d] + "/" + f

    def write(self, ev):
        p, c = ev["p"], ev["c"]
        if p == "env":
            if os.path.exists(self.env):
                os.remove(self.env)
            fmt = c.get("fmt", "rc")
            self.env = self.root + {"rc": "/named-rc", "toml": "/named.toml", "cfg": "/named.cfg"}[fmt]
        else:
            fmt = "toml" if p.endswith(".toml") else "cfg" if p.endswith(".cfg") else "rc"
        path = self.path(p)
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.lexists(path):
            os.remove(path)
        if c["k"] == "dir":
            os.mkdir(path)
        elif c["k"] == "dangling":
            os.symlink(path + "-nowhere", path)
        elif c["k"] != "none":
            if "link" in c.get("look", []):
                target = path + "-target"
                if not os.path.lexists(path):
                    os.symlink(os.path.basename(target), path)
                path = target
            with open(path, "w", encoding="utf-8") as f:
                f.write(text(c, fmt))

    def inits(self, n):
        for k, d in enumerate(("cwd", "p1", "p2")):
            f = self.dirs[d] + "/__init__.py"
            if k < n:
                open(f, "w").close()
            elif os.path.exists(f):
                os.remove(f)

    def boot(self, env):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                obs = self.observe(env)
                os.write(w, json.dumps(obs).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if not data:
            return {"err": "the process ended", "ox": [], "x": [], "xs": "F", "warn": "?", "on": "?", "raise": "?", "print": "?", "non": "?", "all": "?"}
        return json.loads(data)

    def redirect(self):
        """ Nothing under /etc is looked at. """
        etc, real_stat, real_open = self.etc, os.stat, io.open

        def swap(p):
            try:
                return etc if os.fspath(p) == "/etc/astarc" else p
            except TypeError:
                return p

        os.stat = lambda p, *a, **k: real_stat(swap(p), *a, **k)
        builtins.open = io.open = lambda p, *a, **k: real_open(swap(p), *a, **k)

    def observe(self, env):
        obs = {"err": "", "ox": [], "x": [], "xs": "F", "warn": "?", "on": "?", "raise": "?", "print": "?", "non": "?", "all": "?"}
        os.chdir(self.dirs["cwd"])
        os.environ["HOME"] = self.dirs["home"]
        os.environ.pop("ASTA_TYPECHECK", None)
        if env != "unset":
            os.environ["ASTA_TYPECHECK"] = env
        os.environ.pop("ASTARC", None)
        if self.astarc == "missing":
            os.environ["ASTARC"] = self.root + "/no-such-file"
        elif self.astarc == "file":
            os.environ["ASTARC"] = self.env
        self.redirect()
        out = sys.stdout = io.StringIO()

        def said():
            s = out.getvalue()
            out.seek(0)
            out.truncate()
            return s

        try:
            import asta
            from asta import Array, typechecked
        except Exception as err:
            obs["err"] = f"{type(err).__name__}: {err}"[:200]
            return obs
        text = said()
        obs["warn"] = "F" if not text else "T" if "TYPECHECKING IS ENABLED" in text else "other output"
        try:
            from asta.config import get_ox
            ox = get_ox()
            vals = [getattr(ox, k.replace("-", "_")) for k in KEYS]
        except (ImportError, AttributeError):
            vals = []
        try:
            known = [k.replace("-", "_") for k in KEYS]
            obs["x"], obs["xs"] = [{"o": k.replace("_", "-"), "v": {True: "T", False: "F"}[v] if isinstance(v, bool) else str(v)}
                        for k, v in sorted(ox.settings.items()) if k not in known], "T"
        except (NameError, AttributeError):
            pass
        obs["ox"] = [bool(v) if isinstance(v, bool) else str(v) for v in vals]
        import numpy as np
        import typing

        def f(x: Array[2]):
            return x

        def g(x: int):
            return x

        def h(x: typing.List[Array[2]]):
            return x

        def violates(fn, arg):
            said()
            try:
                fn(arg)
                return "F", said()
            except TypeError:
                return "T", said()

        d = typechecked(f)
        yn = lambda b: "T" if b else "F"
        obs["on"] = yn(d is not f)
        if d is f:
            return obs
        raised, _ = violates(d, np.zeros(3))
        obs["raise"] = raised
        _, s = violates(d, np.zeros(2))
        obs["print"] = yn("PASSED" in s)
        bad, s = violates(typechecked(g), "a")
        obs["non"] = yn(bad == "T" or "FAILED" in s)
        bad, s = violates(typechecked(h), [np.zeros(2), np.zeros(3)])
        obs["all"] = yn(bad == "T" or "FAILED" in s)
        return obs


def perform(plan, root):
    w = World(root)
    log = []
    for ev in plan["evs"]:
        ev = dict(ev)
        if ev["op"] == "write":
            w.write(ev)
        elif ev["op"] == "inits":
            w.inits(ev["n"])
        elif ev["op"] == "astarc":
            w.astarc = ev["v"]
        else:
            ev["obs"] = w.boot(ev["env"])
        log.append(ev)
    return {"cfg": {}, "nsh": 0, "evs": log, "err": ""}


def main():
    sys.path.insert(0, REPO)
    sys.modules["tensorflow"] = None
    import numpy  # noqa: F401  (what asta needs, but not asta)
    import sympy  # noqa: F401
    import toml  # noqa: F401
    import oxentiel  # noqa: F401
    import configparser  # noqa: F401
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.path.abspath("pyc")
    with open(sys.argv[1]) as f:
        plans = [json.loads(line) for line in f if line.strip()]
    with open(sys.argv[2], "w") as f:
        for k, plan in enumerate(plans):
            root = os.path.abspath(f"w{k}")
            os.mkdir(root)
            try:
                f.write(json.dumps(perform(plan, root)) + "\n")
            finally:
                shutil.rmtree(root)


if __name__ == "__main__":
    main()
