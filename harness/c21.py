"""C21: the process-wide macro operations."""
import os
import re
import subprocess
import sys
import tempfile

import core
from core import MC_CFG, MC_LAST, Check, S, exc

POOL = ["vfa", "vfb", "VFC", "vf_d1", "dist"]
PROBE = """
import rpm, sys
for n in sys.argv[1:]:
    if rpm.expandMacro("%{?" + n + ":1}"):
        print(n, rpm.expandMacro("%{macrobody:" + n + "}"), sep="\\t")
"""
_base = None


def base():
    """What the configuration defines of the pool, asked in a fresh process."""
    global _base
    if _base is None:
        r = subprocess.run([sys.executable, "-B", "-c", PROBE, *POOL], capture_output=True, text=True, check=True)
        _base = [line.split("\t") for line in r.stdout.split("\n") if line]
    return _base


_config = None


def config():
    """Names and levels of all macros of the configuration, from a fresh process."""
    global _config
    if _config is None:
        r = subprocess.run([sys.executable, "-B", "-c", "import rpm; rpm.reloadConfig(); rpm.expandMacro('%dump')"], capture_output=True, check=True)
        _config = {(m[2].decode(), int(m[1])) for m in re.finditer(rb"^ *(-?[0-9]+)[:=] (\w+)", r.stderr, re.M)}
    return _config


def active():
    """Number of active macros rpm itself reports."""
    import rpm
    with tempfile.TemporaryFile(dir=core.scratch()) as f:
        saved = os.dup(2)
        os.dup2(f.fileno(), 2)
        try:
            rpm.expandMacro("%dump")
        finally:
            os.dup2(saved, 2)
            os.close(saved)
        f.seek(0)
        words = f.read().decode(errors="replace").split("\n")[-2].split()
    return int(words[words.index("active") + 1])


class C21(Check):
    prop = "C21"
    assumptions = ("no builtin macros are removed", "at most 20 stacked definitions that cannot be expanded",
                   "bodies without lines that look like lines of the dump")

    def models(self):
        yield "MC_C21", MC_CFG + (" Size = 3\n MaxDepth = 4\n" if self.thorough else " Size = 2\n MaxDepth = 3\n")
        yield "MC_C21", MC_LAST + (" Size = 2\n MaxDepth = 4\n" if self.thorough else " Size = 1\n MaxDepth = 3\n")

    def cases(self):
        r = self.rng
        config()
        b0 = [{"n": n, "o": "", "b": b, "lv": -13} for n, b in base()]
        bodies = ["", "x", "1.2", "%{?vfa}", "%{vfb}%{vfb}", "a b", "line1\nline2", "\nlead", "x\\\ny", "é", "%%", "(%{?VFC:q})", "tab\there", "one\n\ntwo", "one\n  \n\n two", "a\n\n", "x\\\n\\\ny\n", "%{!?vf_d1:u}", "-13: z", " s "]
        loops = ["%{vfa}", "%{vfb}", "%{error:e}", "%{unterminated", "%%{vfa}x"]
        exprs = ["%{vfa}", "%{?vfb}", "%{!?VFC:none}", "a%{?vf_d1:[%{vf_d1}]}b", "%%vfa", "%dist", "%{?dist}", "plain", "", "%{nosuch}", "é%{?vfa}",
                 "%{error:boom}", "%{!?vfa:%{error: two words}}%{?vfa:%{error:defined}}", "%{vfa", "%[1+]", "x%{error:boom}y%{error:bang}"]
        for k in range(4000 if self.thorough else 500):
            evs = []
            # definitions that cannot be expanded: only removed and redefined
            wild = r.random() < .2
            for _ in range(r.randint(2, 9)):
                op = r.choice(["define", "define", "remove", "push", "push", "expand", "expand", "reinit"])
                n = r.choice(POOL)
                body = r.choice(bodies)
                # (no macro refers to itself, directly or not)
                while any(m in body for m in POOL if POOL.index(m) <= POOL.index(n)):
                    body = r.choice(bodies)
                if op == "define":
                    evs.append({"op": op, "n": n, "b": body})
                elif op == "remove":
                    evs.append({"op": op, "n": n})
                elif op == "push":
                    how = r.choice(["add", "add", "define", "global"])
                    o = "" if how == "add" or r.random() < .7 else r.choice(["(a)", "(ab:c)", "(-)"])
                    if how != "add" and any(c in body for c in "\n\\%- ") or not body:
                        how, o = "add", ""
                    if wild and r.random() < .5:
                        how, o, body = "add", "", r.choice(loops)
                    for _ in range(r.choice([1, 1, 1, 3, 15 if wild else 30])):
                        evs.append({"op": op, "n": n, "o": o, "b": body, "how": how})
                elif op == "expand" and not wild:
                    evs.append({"op": op, "e": r.choice(exprs)})
                else:
                    evs.append({"op": "reinit", "lv": r.choice([-20, -13, -11, -11, -3, 0])})
            if wild:
                # at most 20 of them at a time
                n = 0
                for e in evs:
                    n = 0 if e["op"] == "reinit" else n + (e.get("b") in loops)
                if n > 18:
                    continue
            yield {"id": f"h{k}", "init": {"base": b0}, "ev": evs}
        yield {"id": "kf1", "init": {"base": b0}, "kf": "stacked-self-reference",
               "ev": [{"op": "push", "n": "vfa", "o": "", "b": "%%{vfa}", "how": "add"}, {"op": "push", "n": "vfa", "o": "", "b": "x", "how": "add"},
                      {"op": "remove", "n": "vfa"}]}

    def run(self, case):
        import rpm
        from specfile.exceptions import RPMException
        from specfile.macros import Macros
        model = not case["init"]["base"]
        rpm.reloadConfig()
        out, thr = [], 0
        for ev in case["ev"]:
            op, ok, x, ret = ev["op"], True, None, ""
            if op == "define":
                ok, x = exc(Macros.define, ev["n"], ev["b"])
            elif op == "remove":
                ok, x = exc(Macros.remove, ev["n"])
            elif op == "push":
                if ev["how"] == "add":
                    rpm.addMacro(ev["n"], ev["b"])
                else:
                    rpm.expandMacro(f"%{ev['how']} {ev['n']}{ev['o']} {ev['b']}")
            elif op == "expand":
                ok, x = exc(Macros.expand, ev["e"])
                ret = S(x) if ok else S(str(x))
            else:
                from specfile.macros import MacroLevel
                thr = ev["lv"]
                ok, x = exc(Macros.reinit, MacroLevel(ev["lv"])) if ev["lv"] != -11 else exc(Macros.reinit)
            ms = Macros.dump()
            rest = {(m.name, int(m.level)) for m in ms if m.name not in POOL}
            want = {x for x in config() if x[1] <= thr and x[0] not in POOL}
            pool = [n for n in POOL if not (model and n == "dist")]
            out.append({"ret": ret if op == "expand" else "", "err": "" if ok else "rpm" if isinstance(x, RPMException) else S(repr(x)),
                        "listed": [{"n": S(m.name), "o": "" if m.options is None else S(m.options), "b": S(m.body), "lv": int(m.level)}
                                   for m in sorted((m for m in ms if m.name in pool), key=lambda m: pool.index(m.name))],
                        "rest": "" if rest == want else S(repr(sorted(rest ^ want))),
                        "complete": len(ms) == active() and len({m.name for m in ms}) == len(ms)})
        rpm.reloadConfig()
        return out


def make(tier, seed):
    return C21(tier, seed)
