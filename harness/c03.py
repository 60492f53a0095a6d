"""C03: sections."""
import docs
from core import MC_CFG, MC_LAST, Check, S, exc

PLAIN = ["prep", "build", "install", "check", "changelog", "sourcelist", "patchlist", "clean", "conf",
         "generate_buildrequires", "Build", "INSTALL", "verifyscript"]
WITHN = ["package", "description", "files", "sepolicy", "post", "preun", "Files", "triggerin", "Description",
         "posttrans", "PACKAGE", "filetriggerin", "transfiletriggerpostun"]
ARGS = ["devel", "-n foo", "-n  foo-libs", "-n foo -f list.txt", "-f %{name}.lang", "-n %{name}-x", "-n %{?scl:a}b",
        "'a b'", "-n \"x y\"", "-p /bin/sh", "libs  -p <lua>", "-e", "-l cs", "-- foo < 1", "-n\tfoo", "Foo", "é",
        "-nfoo"]
NOPT = {"description", "files", "package", "sepolicy", "post", "preun", "triggerin", "posttrans", "filetriggerin",
        "transfiletriggerpostun", "verifyscript"}
TEXT = ["", "text", "# comment", "%setup -q", "  indented", "%global a 1", "%define b() x\\", "continued \\", "}",
        "%if 0", "%endif", "%{expand:", "%global c %{expand:", "%dnl %global d {", "#global e 1\\", "%preps", " %prep",
        "%%prep", "%{prep}", "%prep#", "%pre-x", "%prep\\", "%files -n x\\", "%build \\", "%package\\", "%prep:",
        "\f%prep", "x\x0b%prep", "é", "%global f x\\ ", "%patch 0", "%changelog_x", "# %%global g {"]


class C03(Check):
    prop = "C03"
    assumptions = ("arguments in section headers are quoted and escaped the way they are rendered (known finding)",
                   "a literal %package header has arguments (known finding); the preamble stays first",
                   "arguments in headers have balanced macros and quotes")

    def models(self):
        if self.thorough:
            yield "MC_C03", MC_CFG + " Size = 2\n MaxDepth = 2\n"
        yield "MC_C03", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "direct"
        return c

    def header(self, r, cut=True):
        if r.random() < .5:
            n = r.choice(PLAIN)
            h = "%" + n + (r.choice(["", "", "", " ", "\t", "  x"]))
        else:
            n = r.choice(WITHN)
            h = "%" + n
            if n.lower() == "package" or r.random() < .7:
                h += r.choice([" ", "  ", "\t"]) + r.choice(ARGS)
            h += r.choice(["", "", "", " ", "\t"])
        if cut and r.random() < .15:
            h += " " + r.choice(["%mnl", "%{mnl}", "%{?mnl}", "%mtxt", "%{?mtxt}", "%{?undef}", "%{!?undef:%{mnl}}"])
            if n.lower() == "package" and h.split()[1:2] and h.split()[1].startswith("%"):
                h = h.replace(" ", " zz ", 1)
        return h

    def line(self, r, spec):
        if r.random() < .4:
            return self.header(r, not spec)
        return r.choice(TEXT)

    def sec(self, r):
        n = r.choice(PLAIN + WITHN)
        opt = r.choice(ARGS) if n.lower() == "package" or (n.lower() in NOPT and r.random() < .6) else ""
        return {"name": n, "delim": r.choice(["", " ", "  "]), "opt": opt,
                "data": [r.choice(TEXT) for _ in range(r.randint(0, 2))]}

    def ident(self, r):
        n = r.choice(PLAIN + WITHN)
        n = r.choice([n, n.lower(), n.upper()])
        return n + (r.choice([" ", "  "]) + r.choice(ARGS) if r.random() < .4 else "")

    def event(self, r):
        k = r.randrange(16)
        i = r.randint(0, 5)
        e = {"op": "edit", "i": r.choice([i, i, -i]), "f": "", "k": r.randint(-3, 3), "t": r.choice(TEXT), "d": []}
        if k == 0:
            return {**e, "f": "data", "d": [r.choice(TEXT) for _ in range(r.randint(0, 3))]}
        if k < 5:
            return {**e, "f": r.choice(["set", "del", "ins", "app"])}
        if k == 5:
            return {**e, "f": "opt", "i": max(1, i), "t": r.choice(["foo", "foo-devel", "%{name}-x", "a b", "%{?x:y z}"])}
        if k == 6:
            return {**e, "f": "upper", "i": max(1, i), "t": ""}
        if k == 7:
            return {"op": "find", "n": self.ident(r)}
        if k == 8:
            return {"op": "setid", "n": self.ident(r), "d": [r.choice(TEXT) for _ in range(r.randint(0, 3))]}
        if k == 9:
            return {"op": "setsec", "n": self.ident(r), "s": self.sec(r)}
        if k == 10:
            return {"op": "delid", "n": self.ident(r)}
        if k == 11:
            return {"op": "del", "i": r.randint(-4, 5)}
        if k == 12:
            return {"op": "dels", "sl": docs.rslice(r, 4)}
        if k == 13:
            return r.choice([{"op": "ins", "i": max(1, i), "s": self.sec(r)}, {"op": "app", "s": self.sec(r)}])
        if k == 14:
            return {"op": "move", "i": max(1, i), "j": r.randint(1, 5)}
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        mac = [["mnl", "\nz"], ["mtxt", "abc"]]
        n = 20000 if self.thorough else 3000
        for k in range(n):
            spec = k % 6 == 0
            lines = [self.line(r, spec) for _ in range(r.randint(0, 12))]
            if spec and k % 12 == 0:
                # rpm can parse this one
                lines = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: MIT", "%description", "x"]
                for h in r.sample(["%prep", "%build", "%package devel", "%files -n test %mnl",
                                   "%post -p /bin/sh", "%install %{?mnl}", "%Check", "%preun %{?undef}"], 5):
                    lines.append(h + r.choice(["", " "]) if "%" not in h[1:] else h)
                    lines += {"%package devel": ["Summary: x"]}.get(h, [r.choice(["x", "", "# c"])] if h[1] != "f" else [])
                lines += ["%description devel"] if "%package devel" in [x.strip() for x in lines] else []
            evs = [{"op": "look"}]
            for _ in range(r.choice([1, 2, 4, 8])):
                evs.append(self.event(r))
            # lookups that succeed
            heads = [x[1:].rstrip() for x in lines if x.startswith("%") and x[1:].split()[:1]
                     and x[1:].split()[0] in PLAIN + WITHN and not x.endswith("\\")]
            for h in heads[:2]:
                w, _, rest = h.partition(" ")
                evs.insert(1, {"op": r.choice(["find", "find", "setid", "delid"]), "n": r.choice([w, w.upper(), w.lower()])
                               + (" " + rest if rest else ""), "d": ["new"]})
            evs.append({"op": "reopen"})
            if spec:
                evs = [e for e in evs if e["op"] != "reopen" or e is evs[-1]] if k % 12 else evs[:1] + [{"op": "find", "n": "prep"}, {"op": "reopen"}]
            yield {"id": f"h{k}", "init": {"k": "spec" if spec else "direct", "lines": lines, "macros": mac}, "ev": evs}
        for kf, line in (("bare-package", "%package"), ("redundant-escape", "%files -n a\\b"),
                         ("empty-quotes", "%post -p ''")):
            yield {"id": "kf-" + kf, "kf": kf, "init": {"k": "direct", "lines": ["Name: x", line, "x"], "macros": []},
                   "ev": [{"op": "look"}]}

    def run(self, case):
        import rpm

        from specfile.options import Options
        from specfile.sections import Section, Sections
        from specfile.constants import SECTION_OPTIONS
        init = case["init"]
        rpm.reloadConfig()
        spec = view = None
        macros = [tuple(m) for m in init["macros"]]
        if init["k"] == "spec":
            spec = docs.spec_with_lines(init["lines"], macros=macros)
            view = docs.ViewCM(spec.sections)
            secs = view.value
        else:
            for m, v in macros:
                rpm.addMacro(m, v)
            secs = Sections.parse(list(init["lines"]))

        def mk(d):
            return Section(d["name"], Options(Options.tokenize(d["opt"]), SECTION_OPTIONS.get(d["name"].lower()))
                           if d["opt"] else None, d["delim"], data=d["data"])
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            found = -1
            raw = None

            def do():
                nonlocal secs, found, raw
                if op == "edit":
                    s = secs[ev["i"]]
                    f = ev["f"]
                    if f == "data":
                        s.data = list(ev["d"])
                    elif f == "set":
                        s[ev["k"]] = ev["t"]
                    elif f == "del":
                        del s[ev["k"]]
                    elif f == "ins":
                        s.insert(ev["k"], ev["t"])
                    elif f == "app":
                        s.append(ev["t"])
                    elif f == "opt":
                        if s.name.lower() in NOPT:
                            s.options.n = ev["t"]
                    elif f == "upper":
                        s.name = s.name.upper()
                elif op == "find":
                    if (ev["n"] in secs) != any(x.normalized_id == norm(ev["n"]) for x in secs):
                        found = -96
                        return
                    found = secs.find(ev["n"])
                    if secs.get(ev["n"]) is not secs[found]:
                        found = -99
                    elif ev["n"] not in secs:
                        found = -98
                    elif getattr(secs, ev["n"]) is not secs[found]:
                        found = -97
                elif op == "setid":
                    if ev["n"] in secs:
                        setattr(secs, ev["n"], list(ev["d"]))
                elif op == "setsec":
                    if ev["n"] in secs:
                        setattr(secs, ev["n"], mk(ev["s"]))
                elif op == "delid":
                    delattr(secs, ev["n"])
                elif op == "del":
                    del secs[ev["i"]]
                elif op == "dels":
                    del secs[docs.unslice(ev["sl"])]
                elif op == "ins":
                    secs.insert(ev["i"], mk(ev["s"]))
                elif op == "app":
                    secs.append(mk(ev["s"]))
                elif op == "move":
                    s = secs.pop(ev["i"])
                    secs.insert(ev["j"], s)
                elif op == "reopen":
                    if spec:
                        view.close()
                        raw = docs.lines_of(spec)
                        view.open()
                        secs = view.value
                    else:
                        raw = secs.get_raw_data()
                        secs = Sections.parse(list(raw))

            def norm(i):
                w = i.split()[0]
                return w.lower() + i[len(w):]
            e = docs.err_of(*exc(do))
            raw = secs.get_raw_data() if raw is None else raw
            if str(secs) != "".join(x + "\n" for x in secs.get_raw_data()):
                raw = ["!str() and get_raw_data() differ", str(secs)]
            out.append({"err": e, "found": found, "raw": [S(x) for x in raw],
                        "items": [{"name": S(s.name), "id": S(s.id), "norm": S(s.normalized_id),
                                   "script": bool(s.is_script), "data": [S(x) for x in s],
                                   "opt": S(str(s.options)), "raw": [S(x) for x in s.get_raw_data()]} for s in secs]})
        return out


def make(tier, seed):
    return C03(tier, seed)
