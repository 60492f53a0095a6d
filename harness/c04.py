"""C04: tags."""
import docs
from core import MC_CFG, MC_LAST, Check, S, exc

NAMES = ["Name", "version", "RELEASE", "URL", "Url", "Source", "Source0", "source10", "Patch1", "Patch", "BuildRequires",
         "Requires", "Requires(post)", "Requires ( pre )", "requires(pre,post)", "Summary", "Summary(cs)", "Provides",
         "BuildArch", "BuildArchitectures", "Prefix", "Prefixes", "Epoch", "License", "Group", "Obsoletes",
         "OrderWithRequires(x)", "PreReq", "Icon", "NoSource", "VCS", "ExclusiveArch", "BuildSystem", "BuildOption"]
VALUES = ["test", "1.0", "%{name}-1", "a  b", "http://x/%{version}.tar.gz", "(a or b)", "%{expand:a", "%(echo", "x)", "}",
          "%{?dist}", "é", "a: b", "%{?x:y}", "%{lua:", "#x", ":", "{", "%{!?a:%{b", "%%{", "\\", "%{a}}"]
LINES = ["", "", "# comment", "#c", "  # indented", "%if 1", "%if 0", "%else", "%endif", "  %endif", "%if 1 # c", "text",
         "%global foo 1", "%global bar Name: x", "%define m() Version: \\", "Summary", "Name x: y", "}", ")", "  Name: x",
         "Foo: bar", "Source0x: y", "Name:", "Name:   ", "%{?x:Name: }", "%ifarch noarch", "%endif # x", "BuildRequiresX: a",
         "#Name: x", "%{load:x}", "%{?y:text}", "Requires(): x", "Patch 1: x", "%dnl Name: x"]


class C04(Check):
    prop = "C04"
    assumptions = ("tag values set do not start or end with white space",
                   "insertion index >= -len(tags)")

    def models(self):
        if self.thorough:
            yield "MC_C04", MC_CFG + " Size = 2\n MaxDepth = 2\n"
        yield "MC_C04", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "direct"
        return c

    def line(self, r):
        k = r.randrange(10)
        if k < 5:
            t = r.choice(NAMES) + r.choice([":", ": ", ":\t", " : ", ":        "]) + r.choice(VALUES)
            if r.random() < .2:
                t = r.choice(["%{?x:", "%{!?x:", "%{?x:%{?y:"]) + t + "}"
            return t + r.choice(["", "", "", " ", "\t", "  "])
        if k < 9:
            return r.choice(LINES)
        if r.random() < .5:
            return "".join(r.choice(["%", "#", " ", "\t", ":", "{", "}", "a", "-", "(", ")", "%%"]) for _ in range(r.randint(1, 4)))
        return r.choice(VALUES) + r.choice(["", " "])

    def newtag(self, r):
        return {"pre": r.choice([[], [], [""], ["text", ""]]),
                "cs": [{"p": "# ", "t": "new"}] * r.choice([0, 0, 1, 2]),
                "name": r.choice(NAMES), "sep": r.choice([": ", ":    "]), "value": r.choice(VALUES),
                "px": "", "sx": r.choice(["", " "])}

    def event(self, r, n):
        k = r.randrange(14)
        i = r.randint(-n - 1, n)
        if k < 2:
            return {"op": "edit", "i": i, "f": "value", "k": 0, "v": r.choice(VALUES + ["a\nb", "%{x\ny}", ""])}
        if k == 2:
            return {"op": "edit", "i": i, "f": "name", "k": 0, "v": r.choice(NAMES)}
        if k < 6:
            return {"op": "edit", "i": i, "f": r.choice(["ctext", "cprefix", "cset", "cobj", "cdel", "cins", "capp",
                                                         "cext", "cclear"]), "k": r.randint(-2, 2), "v": r.choice(["x", "#y", "", "a b"])}
        if k == 6:
            return {"op": "setname", "n": r.choice(["name", "URL", "source0", "Source", "version", "requires(post)", "patch1"]),
                    "v": r.choice(VALUES)}
        if k == 7:
            return {"op": "find", "n": r.choice(NAMES), "pos": r.choice([-1, -1, r.randint(0, 6)])}
        if k == 8:
            return {"op": "del", "i": i}
        if k == 9:
            return {"op": "dels", "sl": docs.rslice(r, n)}
        if k == 10:
            return {"op": "delname", "n": r.choice(["name", "URL", "source", "Patch1", "version", "requires(post)"])}
        if k == 11:
            return {"op": "ins", "i": max(i, 0) if n == 0 else r.randint(0, n + 1), "t": self.newtag(r)}
        if k == 12:
            return {"op": r.choice(["app", "app", "ext"]), "t": self.newtag(r)}
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        n = 24000 if self.thorough else 4000
        for k in range(n):
            spec = k % 10 == 0
            lines = [self.line(r) for _ in range(r.randint(0, 10))]
            if spec:
                lines = [x for x in lines if "%if" not in x and "%(" not in x and "load" not in x and "\\" not in x]
            evs = [{"op": "look"}]
            for _ in range(r.choice([1, 2, 4, 8])):
                e = self.event(r, 4)
                if not (spec and ("%(" in str(e) or "\\\\" in str(e))):
                    evs.append(e)
            evs.append({"op": "reopen"})
            named = [(i, x.partition(":")[0].strip()) for i, x in enumerate(lines) if ":" in x[1:]]
            if named:
                for _ in range(2):
                    i, nm = r.choice(named)
                    nm = nm.rpartition(" ")[2] or "x"
                    evs.insert(1, r.choice([{"op": "find", "n": r.choice([nm, nm.upper()]), "pos": r.choice([i, i, -1])},
                                            {"op": "delname", "n": nm} if nm.isalnum() else {"op": "find", "n": nm, "pos": i}]))
            if not elif_ok(lines):
                continue
            yield {"id": f"h{k}", "init": {"k": ["spec", "pkg"][k % 20 == 0] if spec else "direct", "lines": lines}, "ev": evs}
        for m in ("pop", "remove", "clear"):
            yield {"id": "kf-" + m, "kf": "userlist-" + m,
                   "init": {"k": "direct", "lines": ["%keep", "Name: x", "y"]},
                   "ev": [{"op": "del", "i": 0, "how": m}]}

    def run(self, case):
        import rpm

        from specfile.sections import Section
        from specfile.tags import Comment, Comments, Tag, Tags
        init = case["init"]
        rpm.reloadConfig()
        spec = view = None
        head, off = [], 0
        if init["k"] == "direct":
            tags = Tags.parse(Section("package", data=init["lines"]))
        else:
            if init["k"] == "pkg":
                head = ["Name: test", "%package -n foo"]
            spec = docs.spec_with_lines(head + init["lines"] + ["%description", "x"])

            def factory():
                if init["k"] == "pkg":
                    with spec.sections() as s:
                        sect = [x for x in s if x.id.startswith("package -n")][0]
                        return spec.tags(sect)
                return spec.tags()
            if init["k"] == "pkg":
                cms = docs.ViewCM(spec.sections)
                sect = [x for x in cms.value if x.id.startswith("package -n")][0]
                view = docs.ViewCM(lambda: spec.tags(sect))
            else:
                view = docs.ViewCM(spec.tags)
            tags = view.value

        def mk(d):
            return Tag(d["name"], d["value"], d["sep"],
                       Comments([Comment(c["t"], c["p"]) for c in d["cs"]], d["pre"]), True, d["px"], d["sx"])

        def edit(t, ev):
            f, k, v = ev["f"], ev["k"], ev["v"]
            if f in ("value", "name"):
                setattr(t, f, v)
            elif f == "ctext":
                t.comments[k].text = v
            elif f == "cprefix":
                t.comments[k].prefix = v
            elif f == "cset":
                t.comments[k] = v
            elif f == "cobj":
                t.comments[k] = Comment(v)
            elif f == "cdel":
                del t.comments[k]
            elif f == "cins":
                t.comments.insert(k, v)
            elif f == "capp":
                t.comments.append(v)
            elif f == "cext":
                t.comments.extend([v, "2"])
            elif f == "cclear":
                t.comments.clear()
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            found = -1
            raw = None

            def do():
                nonlocal tags, found, raw
                if op == "edit":
                    edit(tags[ev["i"]], ev)
                elif op == "setname":
                    if ev["n"] in tags:
                        setattr(tags, ev["n"], ev["v"])
                elif op == "find":
                    pos = None if ev["pos"] < 0 else ev["pos"]
                    found = tags.find(ev["n"], pos)
                    if tags.get(ev["n"], pos) is not tags[found]:
                        found = -99
                    if pos is None and (getattr(tags, ev["n"]) is not tags[found] or ev["n"] not in tags):
                        found = -98
                elif op == "del":
                    how = ev.get("how")
                    if how == "pop":
                        tags.pop(ev["i"])
                    elif how == "remove":
                        tags.remove(tags[ev["i"]])
                    elif how == "clear":
                        tags.clear()
                    else:
                        del tags[ev["i"]]
                elif op == "dels":
                    del tags[docs.unslice(ev["sl"])]
                elif op == "delname":
                    delattr(tags, ev["n"])
                elif op == "ins":
                    tags.insert(ev["i"], mk(ev["t"]))
                elif op == "app":
                    tags.append(mk(ev["t"]))
                elif op == "ext":
                    tags.extend([mk(ev["t"]), mk(ev["t"])])
                elif op == "reopen":
                    if spec:
                        view.close()
                        if init["k"] == "pkg":
                            cms.close()
                        raw = docs.lines_of(spec)
                        if raw[:len(head)] != head or raw[-2:] != ["%description", "x"]:
                            raw = ["!neighbouring sections changed"] + raw
                        raw = raw[len(head):-2]
                        if init["k"] == "pkg":
                            cms.open()
                            sect[:] = []
                            s = [x for x in cms.value if x.id.startswith("package -n")][0]
                            view.factory = lambda: spec.tags(s)
                        view.open()
                        tags = view.value
                    else:
                        tags = Tags.parse(Section("package", data=tags.get_raw_section_data()))
            e = docs.err_of(*exc(do))
            if e and found >= 0:
                found = -97
            raw = tags.get_raw_section_data() if raw is None else raw
            out.append({"err": e, "found": found, "raw": [S(x) for x in raw],
                        "items": [{"name": S(t.name), "norm": S(t.normalized_name), "value": S(t.value),
                                   "cs": [{"p": S(c.prefix), "t": S(c.text)} for c in t.comments],
                                   "valid": bool(t.valid)} for t in tags],
                        "pos": [t.get_position(tags) for t in tags]})
        if view and view.cm:
            view.close()
            if init["k"] == "pkg":
                cms.close()
        return out


def elif_ok(lines):
    """No %else / %elif behind %else of the same block (rpm refuses it)."""
    st = []
    for x in lines:
        x = x.strip()
        if x.startswith("%if"):
            st.append(False)
        elif x.startswith("%endif"):
            if st:
                st.pop()
        elif x.startswith("%el"):
            if st and st[-1]:
                return False
            if st and x.startswith("%else"):
                st[-1] = True
    return True


def make(tier, seed):
    return C04(tier, seed)
