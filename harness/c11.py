"""C11: macros of the %prep section."""
import docs
from c12 import unval
from core import MC_CFG, MC_LAST, Check, S, exc

WORDS = ["foo", "1", "2", "%{name}-%{version}", "a=b", "x.y", "%{?a:b c}"]
NAMES = ["%setup", "%setup", "%autosetup", "%autopatch", "%patch", "%patch", "%patch0", "%patch1", "%patch2", "%patch3", "%patch10", "%patch007"]
OTHER = ["", "# comment", "cd src", "%patches", "%setupx -q", "%autosetups", "%patchlist", "%{patch1} -p1", "% setup", "%patch1x -p1",
         "%patch-1", "%{?x}", "rm -rf x", "patch -p1 < %{PATCH0}", "%if 0", "%endif", "  ", "%{?x:foo}", "%%patch1 -p1", "%%setup", "%setup%{x}",
         "%apply_patch 1", "éa", "%patch_x", "%patch1;", "%Setup -q", "%{?x:%patches}", "100%", "%%%%autopatch"]
PRE = ["", "", "", "", "", "  ", "# ", "%{?x} ", "cd x && ", "\t", "%%", "%patches ", "%setupx %%patch1 ", "%dnl "]
OPTS = {"%setup": ("nab", "cDTq"), "%patch": ("pbzFdo", "REZ"), "%autosetup": ("abnSp", "cDTvN"), "%autopatch": ("pmM", "v")}


def kind(name):
    for k in OPTS:
        if name.startswith(k):
            return k


class C11(Check):
    prop = "C11"
    assumptions = (
        "option strings are written the way they are rendered (no redundant escapes or empty quotes; see C02, C12)",
        "patch numbers given by -P or as an argument are plain integers",
    )

    def models(self):
        yield "MC_C11", MC_CFG + (" Size = 3\n MaxDepth = 1\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")
        if self.thorough:
            yield "MC_C11", MC_CFG + " Size = 2\n MaxDepth = 2\n"
        yield "MC_C11", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def arg(self, r):
        w = r.choice(WORDS)
        return r.choice([w, w, w, f"'{w} y'", f'"{w} z"', "a\\ b"])

    def options(self, r, name):
        args, flags = OPTS[kind(name)]
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.randrange(4)
            if k < 2:
                out.append("-" + r.choice(flags))
            elif k == 2:
                out.append("-" + r.choice(args) + r.choice([" ", " ", "  ", "\t"]) + self.arg(r))
            else:
                out.append("-" + r.choice(args) + r.choice(["1", "2", "foo", "%{x}"]))
        if kind(name) == "%patch":
            k = r.randrange(4)
            if k == 0:
                out.insert(r.randint(0, len(out)), "-P" + r.choice(["", " ", "  "]) + str(r.randint(0, 12)))
            elif k == 1:
                out.insert(r.randint(0, len(out)), r.choice(["", "", "0"]) + str(r.randint(0, 12)))
            if r.random() < .1:
                out.append(str(r.randint(0, 5)))
        elif r.random() < .15:
            out.append(self.arg(r))
        return r.choice([" ", " ", "  "]).join(out)

    def macro(self, r):
        name = r.choice(NAMES)
        o = self.options(r, name)
        s = name + (r.choice([" ", " ", " ", "\t", "   "]) + o if o else r.choice(["", "", " "]))
        if r.random() < .15:
            return "%{" + r.choice(["?", "!?", "?!"]) + "x:" + r.choice(["", " "]) + s + "}"
        return r.choice(PRE) + s

    def doc(self, r):
        out = []
        for _ in range(r.choice([0, 1, 3, 5, 8])):
            out.append(self.macro(r) if r.random() < .6 else r.choice(OTHER))
        return out

    def event(self, r, n):
        i = r.randint(-n - 1, n)
        k = r.randrange(17)
        if k < 3:
            c = r.choice("abcDnTqPpREzFdoZvNSmM")
            return {"op": "opt", "i": i, "n": c,
                    "v": r.choice(["!None", "!0", "!3", "!14"]) if c == "P" else r.choice(["!True", "!False", "!None", "!0", "!3", "foo", "x y", "%{name}"])}
        if k == 3:
            return {"op": "delopt", "i": i, "n": r.choice("abcDnTqPpREzFdoZvNSmM")}
        if k == 4:
            return {"op": "pos", "i": i, "j": r.choice([1, 1, 2]), "v": r.choice(["!4", "!11"])}
        if k == 5:
            return {"op": "num", "i": i, "v": r.choice([0, 1, 5, 12])}
        if k < 9:
            kw = []
            for c in r.sample("PpREzb", r.choice([0, 0, 1, 2])):
                kw.append([c, r.choice(["!True", "!False"]) if c in "RE" else "!" + str(r.randint(0, 5)) if c == "P" else
                           r.choice(["!1", "!2", "x", "x y", "!None"])])
                if r.random() < .05:
                    kw[-1][1] = "!True"
            if any(c == "P" and v == "!True" for c, v in kw):
                kw = [["p", "!True"]]
            return {"op": "add", "number": r.choice([-1, 0, 1, 2, 3, 4, 5, 8, 11, 20]), "old": r.random() < .5, "kw": kw}
        if k == 9 or k == 10:
            return {"op": "rm", "number": r.choice([0, 0, 1, 2, 3, 5, 10])}
        if k == 11:
            return {"op": "del", "i": i}
        if k == 12:
            return {"op": "dels", "sl": docs.rslice(r, n)}
        if k == 13:
            return {"op": "delname", "n": r.choice(NAMES)}
        if k == 14:
            return r.choice([{"op": "in", "n": r.choice(NAMES + ["%foo"])}, {"op": "inkind", "n": r.choice(list(OPTS))},
                             {"op": "byname", "n": r.choice(NAMES)}, {"op": "slice", "sl": docs.rslice(r, n)}])
        if k == 15:
            name = r.choice(NAMES)
            return {"op": "ins", "i": i, "n": name, "s": self.options(r, name)}
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        n = 12000 if self.thorough else 2500
        for k in range(n):
            lines = self.doc(r)
            if k % 8 == 0:
                lines = [x for x in lines if x != "%patchlist"]     # a section of its own
            m = sum("%" in x for x in lines)
            evs = [{"op": "look"}] + [self.event(r, m) for _ in range(r.randint(2, 8))] + [{"op": "reopen"}]
            yield {"id": f"h{k}", "init": {"k": "spec" if k % 8 == 0 else "direct", "lines": lines}, "ev": evs}
        for name, ev in (("pop", {"op": "pop", "i": 0}), ("clear", {"op": "clear"})):
            yield {"id": "kf-" + name, "kf": "list-" + name, "init": {"k": "direct", "lines": ["# a", "%setup", "# b", "%patch1"]}, "ev": [ev]}

    def run(self, case):
        from specfile.exceptions import OptionsException
        from specfile.options import Options
        from specfile.prep import AutopatchMacro, AutosetupMacro, PatchMacro, Prep, SetupMacro
        from specfile.sections import Section
        classes = {"%setup": SetupMacro, "%patch": PatchMacro, "%autosetup": AutosetupMacro, "%autopatch": AutopatchMacro}
        init = case["init"]
        v = None
        if init.get("k", "direct") == "direct":
            p = Prep.parse(Section("prep", data=list(init["lines"])))
        else:
            spec = docs.spec_with_lines(["", "%prep"] + init["lines"])
            v = docs.ViewCM(spec.prep)
            p = v.value

        def row(m):
            o = m.options
            return {"name": S(m.name), "kind": next((k for k, c in classes.items() if type(m) is c), "?"),
                    "number": m.number if isinstance(m, PatchMacro) else -1,
                    "text": S(str(o)), "pos": [S(x) for x in o.positional],
                    "vals": [S(getattr(o, c)) for c in OPTSTRINGS[kind(m.name)] if c != ":"]}

        def obs(err):
            return {"err": err, "items": [row(m) for m in p.macros], "raw": [S(x) for x in p.get_raw_section_data()]}

        def error(ok, e):
            return "refused" if not ok and isinstance(e, OptionsException) else docs.err_of(ok, e)
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            ok = ret = True
            if op == "slice":
                out.append({"items": [row(m) for m in p.macros[docs.unslice(ev["sl"])]]})
                continue
            if op == "in":
                a, b = ev["n"] in p, ev["n"] in p.macros
                out.append({"r": a if a == b else "views differ"})
                continue
            if op == "inkind":
                out.append({"r": classes[ev["n"]] in p})
                continue
            if op == "byname":
                ok, ret = exc(getattr, p, ev["n"][1:])
                out.append({"r": next(i for i, m in enumerate(p.macros) if m is ret) if ok else
                            -1 if isinstance(ret, AttributeError) else S(repr(ret))})
                continue
            if op in ("opt", "delopt", "pos", "num"):
                ok, m = exc(lambda: p.macros[ev["i"]])
                ret = m
                if ok:
                    if op in ("opt", "delopt") and ev["n"] not in OPTSTRINGS[kind(m.name)]:
                        ok, ret = False, AttributeError()
                    elif op == "opt":
                        ok, ret = exc(setattr, m.options, ev["n"], unval(ev["v"]))
                    elif op == "delopt":
                        ok, ret = exc(delattr, m.options, ev["n"])
                    elif op == "pos":
                        ok, ret = exc(m.options.positional.__setitem__, ev["j"] - 1, unval(ev["v"]))
                    elif isinstance(m, PatchMacro):
                        ok, ret = exc(setattr, m, "number", ev["v"])
                    else:
                        ok, ret = False, AttributeError()
            elif op == "add":
                kw = {c: unval(x) for c, x in ev["kw"]}
                ok, ret = exc(lambda: p.add_patch_macro(None if ev["number"] < 0 else ev["number"], ev["old"], **kw))
            elif op == "rm":
                ok, ret = exc(p.remove_patch_macro, ev["number"])
            elif op == "del":
                ok, ret = exc(p.macros.__delitem__, ev["i"])
            elif op == "pop":
                ok, ret = exc(p.macros.pop, ev["i"])
            elif op == "clear":
                ok, ret = exc(p.macros.clear)
            elif op == "dels":
                ok, ret = exc(p.macros.__delitem__, docs.unslice(ev["sl"]))
            elif op == "delname":
                ok, ret = exc(delattr, p if len(case["id"]) % 2 else p.macros, ev["n"][1:])
            elif op == "ins":
                c = classes[kind(ev["n"])]
                o = Options(Options.tokenize(ev["s"]), c.OPTSTRING, c.DEFAULTS)
                ok, ret = exc(p.macros.insert, ev["i"], c(ev["n"], o, " "))
            elif op == "reopen":
                if v:
                    v.close()
                    text = docs.lines_of(spec)
                    v.open()
                    p = v.value
                    o = obs("")
                    o["raw"] = [S(x) for x in text[2:]] if text[:2] == ["", "%prep"] else [S(repr(text))]
                    out.append(o)
                    continue
                p = Prep.parse(Section("prep", data=p.get_raw_section_data()))
            out.append(obs(error(ok, ret)))
        return out


OPTSTRINGS = {"%setup": "a:b:cDn:Tq", "%patch": "P:p:REb:z:F:d:o:Z", "%autosetup": "a:b:cDn:TvNS:p:", "%autopatch": "vp:m:M:"}


def make(tier, seed):
    return C11(tier, seed)
