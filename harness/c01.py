"""C01: the file on disk and the text in memory."""
import copy
import os
import shutil

import docs
from core import MC_CFG, Check, S, dec_text, enc_text, exc

GONE = "!gone"
NAMES = ["a.spec", "b.spec", "missing/c.spec"]
HEAD = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: MIT", "%description", "%prep"]


class Mine(Exception):
    pass


class C01(Check):
    prop = "C01"
    assumptions = ("lines are terminated by LF: files with CR are converted (known finding)", "no reload while an editing context is open",
                   "texts without NUL characters")

    def models(self):
        yield "MC_C01", MC_CFG + (" Size = 2\n MaxDepth = 4\n" if self.thorough else " Size = 1\n MaxDepth = 3\n")

    def tail(self, r):
        out = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            out.append(r.choice(["", "", "# x", "#", "# " + "".join(r.choice("ab \t\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029é\ufeffž\udc80\udce9\udcff") for _ in range(r.randint(0, 8)))]))
        return out

    def content(self, r):
        if r.random() < .2:
            return r.choice(["", "\n", "\n\n", "x", "x\n", "a\x0cb\x85c", "\ufeffName: y\n", "\udcff", "no name\n\n\n", " \n", "é\n", "x\n\n"])
        ls = HEAD[:4] + [r.choice(["License: MIT", "License: GPL", "License: é"])] + HEAD[5:] + self.tail(r)
        return "\n".join(ls) + r.choice(["\n", "\n", ""])

    def line(self, r):
        return r.choice(["# y", "", "# é", "#\x85z", "# \udce9", "#" + "q" * r.randint(0, 50)])

    def cases(self):
        r = self.rng
        for k in range(12000 if self.thorough else 2200):
            c = self.content(r)
            while not c.startswith("Name: test"):
                c = self.content(r)
            evs = []
            for _ in range(r.randint(2, 14)):
                op = r.choice(["load", "reload", "reload", "save", "save", "session", "edit", "edit", "edit", "edit", "open", "close", "close", "view",
                               "parse", "auto", "path", "write", "write", "unlink"])
                ev = {"op": op}
                if op in ("session", "edit"):
                    e = r.choice(["app", "app", "ins", "set", "del", "sections", "license"] + (["clear"] if r.random() < .2 else []))
                    ev.update(e=e, v=r.choice(["MIT", "X", "é"]) if e == "license" else self.line(r), i=r.randint(0, 3), exc=r.random() < .3)
                    if e in ("license",):
                        ev["exc"] = False
                elif op == "close":
                    ev["exc"] = r.random() < .3
                elif op == "view":
                    ev["kind"] = r.choice(["lines", "sections", "tags", "md", "changelog", "prep", "sources", "patches", "prop"])
                elif op == "parse":
                    ev["kind"] = r.choice(["expand", "tainted", "rpm_spec", "macros", "copy", "str", "repr", "eq", "extra"])
                elif op in ("auto", "load"):
                    ev["auto"] = r.random() < .6
                if op in ("load", "path", "write", "unlink"):
                    ev["p"] = r.choice([1, 1, 2, 2, 3] if op == "path" else [1, 2])
                if op == "write":
                    ev["c"] = self.content(r)
                evs.append(ev)
            case = {"id": f"h{k}", "init": {"files": [c, self.content(r) if r.random() < .6 else GONE, GONE], "places": [True, True, False], "auto": r.random() < .4}, "ev": evs}
            yield self.coded(case)
        yield {"id": "kf1", "kf": "carriage-returns", "init": {"files": ["\r\n".join(HEAD) + "\r\n", GONE, GONE], "places": [True, True, False], "auto": False},
               "ev": [{"op": "save"}]}

    def coded(self, o):
        if isinstance(o, str):
            # (escaped bytes that happen to form a character are that character)
            return enc_text(o.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape"))
        if isinstance(o, list):
            return [self.coded(x) for x in o]
        if isinstance(o, dict):
            return {k: self.coded(v) for k, v in o.items()}
        return o

    def run(self, case):
        from specfile import Specfile
        d = docs.new_dir()
        paths = [os.path.join(d, n) for n in NAMES]

        def put(i, c):
            if c == GONE:
                if os.path.exists(paths[i]):
                    os.unlink(paths[i])
            elif os.path.isdir(os.path.dirname(paths[i])):
                docs.write(paths[i], dec_text(c))

        for i, c in enumerate(case["init"]["files"]):
            put(i, c)
        spec = Specfile(paths[0], autosave=case["init"]["auto"])
        held, out = None, []

        def edit(ev):
            e, v, i = ev["e"], dec_text(ev["v"]), ev["i"]
            if e == "license":
                if str(spec).startswith("Name: test"):
                    spec.license = v
                else:
                    with spec.tags():
                        pass
                return
            if e == "sections":
                with spec.sections() as ss:
                    ss[-1].append(v)
                    if ev["exc"] and ev["op"] == "edit":
                        raise Mine()
                return
            with spec.lines() as ls:
                if e == "app":
                    ls.append(v)
                elif e == "ins":
                    ls.insert(7 + i, v)
                elif e == "set" and 7 + i < len(ls):
                    ls[7 + i] = v
                elif e == "del" and 7 + i < len(ls):
                    del ls[7 + i]
                elif e == "clear":
                    del ls[:]
                if ev["exc"] and ev["op"] == "edit":
                    raise Mine()

        def session(ev):
            with spec as s:
                assert s is spec
                edit(ev)
                if ev["exc"]:
                    raise Mine()

        def view(kind):
            if kind == "prop":
                return spec.version, spec.expanded_license
            with getattr(spec, {"md": "macro_definitions"}.get(kind, kind))():
                pass

        def parse(kind):
            return {"expand": lambda: spec.expand("%name"), "tainted": lambda: spec.tainted, "rpm_spec": lambda: spec.rpm_spec,
                    "macros": spec.get_active_macros, "copy": lambda: copy.deepcopy(spec), "str": lambda: str(spec), "repr": lambda: repr(spec),
                    "eq": lambda: spec == copy.deepcopy(spec), "extra": lambda: spec.expand("%zz", extra_macros=[("zz", "1")])}[kind]()

        for ev in case["ev"]:
            op, err = ev["op"], ""
            if op in ("load", "reload", "open") and held or op == "close" and not held:
                err = "open"
            elif op == "write":
                put(ev["p"] - 1, ev["c"])
            elif op == "unlink":
                put(ev["p"] - 1, GONE)
            else:
                ok, x = True, None
                if op == "load":
                    ok, x = exc(Specfile, paths[ev["p"] - 1], autosave=ev["auto"])
                    if ok:
                        spec = x
                elif op in ("save", "reload"):
                    ok, x = exc(getattr(spec, op))
                elif op == "session":
                    ok, x = exc(session, ev)
                elif op == "edit":
                    ok, x = exc(edit, ev)
                elif op == "open":
                    held = spec.lines()
                    held.__enter__()
                elif op == "close":
                    cm, held = held, None
                    if ev["exc"]:
                        m = Mine()
                        ok, x = exc(cm.__exit__, Mine, m, None)
                        if ok and not x:
                            ok, x = False, m
                    else:
                        ok, x = exc(cm.__exit__, None, None, None)
                elif op == "view":
                    ok, x = exc(view, ev["kind"])
                    ok = ok or not isinstance(x, OSError)
                elif op == "parse":
                    ok, x = exc(parse, ev["kind"])
                    ok = ok or not isinstance(x, OSError)
                elif op == "auto":
                    spec.autosave = ev["auto"]
                elif op == "path":
                    spec.path = paths[ev["p"] - 1]
                if not ok:
                    err = "mine" if isinstance(x, Mine) else "os" if isinstance(x, OSError) else "rpm" if type(x).__name__ == "RPMException" else S(repr(x))
            files, extra = [], []
            for p in paths:
                if os.path.exists(p):
                    with open(p, "rb") as f:
                        files.append(enc_text(f.read().decode("utf-8", "surrogateescape")))
                else:
                    files.append(GONE)
            for root, dirs, names in os.walk(d):
                extra += [S(n) for n in dirs + names if n not in ("a.spec", "b.spec")]
            out.append({"err": err, "text": S(str(spec)), "files": files, "extra": extra})
        shutil.rmtree(d)
        return out


def make(tier, seed):
    return C01(tier, seed)
