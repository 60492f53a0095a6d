"""C17: expansions reflect the current state of their own spec file."""
import copy
import gc
import os

import docs
from core import MC_CFG, MC_LAST, Check, S, exc

POOL = ["vfa", "vfb", "vfc", "vfx", "vfy"]


class C17(Check):
    prop = "C17"
    case_limit = 60.0
    assumptions = ("rpm's configuration and the files that are included do not change while the objects exist",
                   "the process-wide macro table is changed by Specfile objects only", "a rpm_spec is not kept beyond the next parse (known finding)")

    def models(self):
        yield "MC_C17", MC_CFG + (" Size = 2\n MaxDepth = 6\n" if self.thorough else " Size = 2\n MaxDepth = 4\n")
        yield "MC_C17", MC_LAST + (" Size = 2\n MaxDepth = 5\n" if self.thorough else " Size = 1\n MaxDepth = 4\n")

    def val(self, r):
        return r.choice(["1", "2", "x", "%{?vfx}", "%{?vfy}y", "7%{?dist}", "%{?vfx:z}", "q%{!?vfx:n}"])

    def doc(self, r):
        out = [r.choice(["Name: n%d" % r.randint(1, 3), "Name: n%{?vfy}"]), r.choice(["Version: 1", "Version: %{vfa}.2", "Version: 0%{?vfx}", "Version: 4%{?vfb}"]),
               r.choice(["Release: 1", "Release: 2%{?dist}", "Release: 1%{?vfy:.9}"]), "Summary: s", "License: MIT"]
        defs = []
        for n in ("vfa", "vfb", "vfc"):
            for _ in range(r.choice([0, 1, 1, 2])):
                d = r.choice([f"%global {n} {self.val(r)}", f"%define {n} {self.val(r)}"])
                defs += [d] if r.random() < .6 else [r.choice(["%if 0%{?vfx:1}", "%if 0", "%if 1", "%if 0%{!?vfy:1}"]), d] + (["%else", f"%global {n} e"] if r.random() < .4 else []) + ["%endif"]
        if not any("vfa" in d for d in defs):
            defs.insert(0, "%global vfa 5")
        src = r.choice([[], ["Source0: s%d.tgz" % r.randint(1, 3)], ["Source0: a", "Source1: b"], ["%if 0%{?vfx:1}", "Source0: c", "%endif"]])
        i = r.randint(0, 2)
        return defs[:i] + out + defs[i:] + src

    def bad(self, r, d):
        d = list(d)
        x = r.random()
        if x < .4:
            d = [t for t in d if not t.startswith(r.choice(["Version", "Name", "Summary"]))]
        elif x < .7:
            d = ["Version: " if t.startswith("Version") else t for t in d]
        else:
            d = ["Release: 1..2" if t.startswith("Release") else t for t in d]
        return d

    def macro(self, r):
        return {"n": r.choice(["vfx", "vfx", "vfy", "vfa"]), "v": r.choice(["7", "8", "", "%{?dist}"]), "un": False} if r.random() < .75 else {"n": r.choice(["vfx", "vfy", "dist"]), "v": "", "un": True}

    def macros(self, r):
        return [self.macro(r) for _ in range(r.choice([0, 0, 1, 1, 2]))]

    def cases(self):
        r = self.rng
        for k in range(5000 if self.thorough else 900):
            n = r.choice([2, 3, 3])
            pool = [self.doc(r) for _ in range(r.choice([2, 2, 3]))]
            bad = self.bad(r, r.choice(pool))
            same = self.macros(r)
            asked = {}
            evs = [{"op": "new", "k": i, "lines": r.choice(pool), "macros": same if r.random() < .5 else self.macros(r)} for i in range(1, n + 1)]
            for _ in range(r.randint(6, 18)):
                op = r.choice(["new", "text", "text", "macros", "add", "dir", "copy", "copy", "del", "fail"] + ["expand"] * 6 + ["sources", "sources", "prop", "header", "parsed", "active"])
                ev = {"op": op, "k": r.randint(1, n)}
                if op in ("new", "text"):
                    ev["lines"] = bad if r.random() < .2 else r.choice(pool)
                if op in ("new", "macros"):
                    ev["macros"] = self.macros(r)
                if op == "add":
                    ev["m"] = self.macro(r)
                if op == "dir":
                    ev["sd"] = r.choice(["@A@", "@B@"])
                if op == "copy":
                    ev["j"] = r.randint(1, n)
                if op in ("expand", "sources"):
                    ev["extra"] = self.macros(r) if r.random() < .5 else []
                    ev["none"] = not ev["extra"] and r.random() < .6
                    q = asked.get(ev["k"])
                    if q is not None and r.random() < .4:
                        # almost what was asked before
                        x = list(q)
                        if x and r.random() < .5:
                            del x[r.randrange(len(x))]
                        if not x or r.random() < .7:
                            x.insert(r.randint(0, len(x)), self.macro(r))
                        ev["extra"], ev["none"] = x, False
                    asked[ev["k"]] = ev["extra"]
                if op == "expand":
                    ev["e"] = r.choice(["%{name}|%{version}|%{release}", "%{?vfa}|%{?vfb}|%{?vfc}|%{?vfx}|%{?vfy}", "%{vfa}", "%{?dist}", "%{_sourcedir}", "%{!?vfc:none}", "%{VERSION}%{?vfb:b}", "%{nosuch}"])
                if op == "prop":
                    ev["n"] = r.choice(["version", "release", "name"])
                evs.append(ev)
                if op in ("text", "macros", "add", "dir", "copy", "fail") and r.random() < .7:
                    # the same question before and after the change
                    j = ev["j"] if op == "copy" and r.random() < .5 else ev["k"]
                    ask = {"op": "expand", "k": j, "extra": asked.get(j) or [], "none": False,
                           "e": "%{name}|%{version}|%{release}|%{?vfa}|%{?vfb}|%{?vfc}|%{?vfx}|%{?vfy}|%{?dist}|%{_sourcedir}"}
                    evs[-1:] = [dict(ask), ev, dict(ask)]
            yield {"id": f"h{k}", "init": {"n": n}, "ev": evs}
        d = ["Name: n", "Version: 1", "Release: 1", "Summary: s", "License: MIT", "Source0: a"]
        yield {"id": "kf1", "init": {"n": 1}, "kf": "held-rpm-spec",
               "ev": [{"op": "new", "k": 1, "lines": d, "macros": []}, {"op": "hold", "k": 1}, {"op": "expand", "k": 1, "e": "%name", "extra": [{"n": "vfx", "v": "1", "un": False}], "none": False},
                      {"op": "release", "k": 1}, {"op": "sources", "k": 1, "extra": [{"n": "vfx", "v": "1", "un": False}], "none": False}]}

    def run(self, case):
        from specfile import Specfile
        d = docs.new_dir()
        dirs = {}
        for n in ("A", "B"):
            dirs[f"@{n}@"] = os.path.join(d, n)
            os.mkdir(dirs[f"@{n}@"])
        slots = {}
        held = []
        shared = {}
        out = []

        def shown(x):
            if isinstance(x, str):
                for n, p in dirs.items():
                    x = x.replace(p, n)
            return S(x)

        def pairs(ms):
            # a caller may use one list of macros for several objects and calls
            q = [(m["n"], None if m["un"] else m["v"]) for m in ms]
            return shared.setdefault(repr(q), q)

        def text(ls):
            return "\n".join(ls) + "\n%description\n"

        for num, ev in enumerate(case["ev"]):
            op, k = ev["op"], ev["k"]
            o = slots.get(k)
            ok, x, ret, lst = True, None, "", []
            if op == "new":
                p = os.path.join(dirs["@A@"], f"{num}.spec")
                docs.write(p, text(ev["lines"]))
                ok, x = exc(Specfile, p, macros=pairs(ev["macros"]))
                if ok:
                    slots[k] = x
            elif op == "del":
                slots.pop(k, None)
            elif o is None:
                out.append({"ret": "", "list": [], "err": "dead"})
                continue
            elif op == "text":
                with o.lines() as ls:
                    ls[:] = ev["lines"] + ["%description"]
            elif op == "macros":
                o.macros[:] = pairs(ev["macros"])
            elif op == "add":
                o.macros.append(pairs([ev["m"]])[0])
            elif op == "dir":
                o.sourcedir = dirs[ev["sd"]]
            elif op == "copy":
                slots[ev["j"]] = copy.deepcopy(o)
            elif op == "hold":
                held.append(o.rpm_spec)
            elif op == "release":
                held.clear()
            elif op == "fail":
                ok, x = exc(o.expand, "%{error:boom}")
                # it fails anyway, but as an object that cannot be parsed only when it cannot
                ok = not ok and "boom" in str(x)
            elif op in ("expand", "sources"):
                e = ev.get("e", "%sources") if op == "expand" else "%sources"
                ok, x = exc(o.expand, e) if ev.get("none") else exc(o.expand, e, extra_macros=pairs(ev["extra"]))
                ret = shown(x) if ok else ""
            elif op == "prop":
                ok, x = exc(getattr, o, "expanded_" + ev["n"].replace("release", "raw_release"))
                ret = shown(x) if ok else ""
            elif op == "header":
                def nvr():
                    import rpm
                    h = o.rpm_spec.sourceHeader
                    return "|".join(h[t] for t in (rpm.RPMTAG_NAME, rpm.RPMTAG_VERSION, rpm.RPMTAG_RELEASE))
                ok, x = exc(nvr)
                ret = shown(x) if ok else ""
            elif op == "parsed":
                ok, x = exc(lambda: [t for t in o.parsed_sections.package if t.startswith("Version")])
                ret = shown(x[0]) if ok and x else ""
            elif op == "active":
                ok, x = exc(o.get_active_macros)
                if ok:
                    lst = [{"n": S(m.name), "b": S(m.body)} for n in POOL for m in x if m.name == n]
            err = "" if ok else "rpm" if op == "fail" or type(x).__name__ == "RPMException" else S(repr(x))
            out.append({"ret": ret, "list": lst, "err": err})
            x = o = None
            if op in ("del", "new", "copy"):
                gc.collect()
        slots.clear()
        return out


def make(tier, seed):
    return C17(tier, seed)
