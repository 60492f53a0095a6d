"""C05: macro definitions."""
import docs
from core import MC_CFG, MC_LAST, Check, S, exc

STY = {"dnl": "DNL", "hash": "HASH", "other": "OTHER"}
FRAG = ["%global ", "%define ", "#global ", "#define ", "%dnl ", "%dnl %global ", "%dnl%define ", "# %%global ",
        "#%%define ", "# %global ", "foo", "bar", "foo(ab:)", "x()", " ", "  ", "\t", "1.0", "%{foo}", "%{expand:",
        "}", "{", "(", ")", "%(", "\\", "# c", "%{?x:", "%%", "%", "#", "global ", "é", "%dnl", "%{!?y:%global z 1}"]
BODY = ["1", "1.0", "%{bar}-1", "a b", "x\\\ny", "%{expand:\na\n}", "", "t ", "(a)", "é", "%{?foo}", "%(echo\nx)",
        "a\\\n b\\\n  c", "#x", "1 "]
NAME = ["foo", "bar", "baz", "x()", "foo(ab:)", "__n", "version"]


class C05(Check):
    prop = "C05"
    assumptions = ("names and white space of added definitions are as the constructor documents them",
                   "comment_out_style is not set to OTHER",)

    def models(self):
        if self.thorough:
            yield "MC_C05", MC_CFG + " Size = 2\n MaxDepth = 2\n"
        yield "MC_C05", MC_LAST + " Size = 1\n MaxDepth = 2\n"

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "direct"
        return c

    def line(self, r):
        k = r.randrange(10)
        if k < 4:
            return (r.choice(["", "", " ", "\t"]) + r.choice(["%global", "%define", "#global", "%dnl %global",
                    "# %%define", "%dnl%define", "#%%global", "# disabled %global", "%dnl # %global"])
                    + r.choice([" ", "  ", "\t"]) + r.choice(NAME) + r.choice([" ", "   "])
                    + r.choice(BODY).split("\n")[0] + r.choice(["", "", "", " ", "\t", "\\", " \\", "\\ "]))
        if k < 6:
            return r.choice(["", "# comment", "Name: foo", "%if 0", "%if 1", "%else", "%endif", "  text", "}",
                             "continued\\", ")", "%description", "%{foo", "%undefine foo"])
        if k < 7:
            return r.choice(BODY).split("\n")[-1]
        return "".join(r.choice(FRAG) for _ in range(r.randint(1, 5)))

    def newdef(self, r):
        return {"pre": r.choice([[], [], [""], ["# x"]]),
                "ws": [r.choice(["", "", "  "]), r.choice([" ", "\t"]), r.choice([" ", "  "]), r.choice(["", "", " "])],
                "name": r.choice(NAME), "body": r.choice(BODY), "glob": r.random() < .6,
                "out": r.random() < .3, "style": r.choice(["dnl", "hash"])}

    def event(self, r):
        k = r.randrange(13)
        i = r.randint(-4, 4)
        if k < 3:
            return {"op": "edit", "i": i, "f": "body", "v": r.choice(BODY), "b": False}
        if k == 3:
            return {"op": "edit", "i": i, "f": "name", "v": r.choice(NAME), "b": False}
        if k == 4:
            return {"op": "edit", "i": i, "f": "style", "v": r.choice(["dnl", "hash"]), "b": False}
        if k < 7:
            return {"op": "edit", "i": i, "f": r.choice(["out", "out", "glob"]), "v": "", "b": r.random() < .5}
        if k == 7:
            return {"op": "del", "i": i}
        if k == 8:
            return {"op": "dels", "sl": docs.rslice(r, 3)}
        if k == 9:
            return {"op": "delname", "n": r.choice(NAME)}
        if k == 10:
            return {"op": "ins", "i": i, "d": self.newdef(r)}
        if k == 11:
            return r.choice([{"op": "app", "d": self.newdef(r)}, {"op": "find", "n": r.choice(NAME), "pos": r.randint(-1, 6)},
                             {"op": "find", "n": r.choice(NAME), "pos": -1}])
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        n = 30000 if self.thorough else 5000
        for k in range(n):
            spec = k % 10 == 0
            lines = [self.line(r) for _ in range(r.randint(0, 9))]
            if spec:
                lines = [x for x in lines if "%if" not in x and "%el" not in x and "%undef" not in x
                         and "%(" not in x]
                if not lines:
                    lines = [""]
            evs = [{"op": "look"}]
            for _ in range(r.choice([1, 2, 4, 8])):
                e = self.event(r)
                if spec and ("%(" in str(e)):
                    continue
                evs.append(e)
            evs.append({"op": "reopen"})
            named = [(i, w[1]) for i, w in enumerate(x.split() for x in lines)
                     if len(w) > 2 and (w[0].endswith("global") or w[0].endswith("define"))]
            if named:
                for _ in range(2):
                    i, nm = r.choice(named)
                    evs.insert(1, {"op": "find", "n": nm, "pos": r.choice([i, i, -1])})
            yield {"id": f"h{k}", "init": {"k": "spec" if spec else "direct", "lines": lines,
                                           "cond": spec or r.random() < .7}, "ev": evs}
        # known finding: methods UserList does not route through __delitem__
        for m in ("pop", "remove", "clear"):
            yield {"id": "kf-" + m, "kf": "userlist-" + m,
                   "init": {"k": "direct", "lines": ["# keep", "%global a 1", "x"], "cond": False},
                   "ev": [{"op": "del", "i": 0, "how": m}]}

    def run(self, case):
        import rpm

        from specfile.macro_definitions import (CommentOutStyle, MacroDefinition,
                                                MacroDefinitions)
        init = case["init"]
        rpm.reloadConfig()
        spec = view = None
        if init["k"] == "spec":
            spec = docs.spec_with_lines(init["lines"])
            view = docs.ViewCM(spec.macro_definitions)
            mds = view.value
        else:
            mds = MacroDefinitions.parse(init["lines"], with_conditions=init["cond"])

        def mk(d):
            return MacroDefinition(d["name"], d["body"], d["glob"], d["out"],
                                   getattr(CommentOutStyle, STY[d["style"]]), tuple(d["ws"]),
                                   preceding_lines=d["pre"])
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            found = -1
            raw = None

            def do():
                nonlocal mds, found, raw
                if op == "edit":
                    m = mds[ev["i"]]
                    if ev["f"] == "style":
                        m.comment_out_style = getattr(CommentOutStyle, STY[ev["v"]])
                    else:
                        setattr(m, {"glob": "is_global", "out": "commented_out"}.get(ev["f"], ev["f"]),
                                ev["b"] if ev["f"] in ("glob", "out") else ev["v"])
                elif op == "setname":
                    setattr(mds, ev["n"], ev["v"])
                elif op == "find":
                    found = mds.find(ev["n"], None if ev["pos"] < 0 else ev["pos"])
                    if mds.get(ev["n"], None if ev["pos"] < 0 else ev["pos"]) is not mds[found]:
                        found = -99
                    if ev["pos"] < 0 and getattr(mds, ev["n"]) is not mds[found]:
                        found = -98
                elif op == "del":
                    how = ev.get("how")
                    if how == "pop":
                        mds.pop(ev["i"])
                    elif how == "remove":
                        mds.remove(mds[ev["i"]])
                    elif how == "clear":
                        mds.clear()
                    else:
                        del mds[ev["i"]]
                elif op == "dels":
                    del mds[docs.unslice(ev["sl"])]
                elif op == "delname":
                    delattr(mds, ev["n"])
                elif op == "ins":
                    mds.insert(ev["i"], mk(ev["d"]))
                elif op == "app":
                    mds.append(mk(ev["d"]))
                elif op == "reopen":
                    if spec:
                        view.close()
                        raw = docs.lines_of(spec)
                        view.open()
                        mds = view.value
                    else:
                        mds = MacroDefinitions.parse(mds.get_raw_data(), with_conditions=init["cond"])
            e = docs.err_of(*exc(do))
            if e and found >= 0:
                found = -97
            raw = mds.get_raw_data() if raw is None else raw
            inv = {v: k for k, v in STY.items()}
            out.append({"err": e, "found": found, "raw": [S(x) for x in raw],
                        "items": [{"name": S(m.name), "body": S(m.body), "glob": bool(m.is_global),
                                   "out": bool(m.commented_out), "style": inv[m.comment_out_style.name],
                                   "valid": bool(m.valid)} for m in mds],
                        "pos": [m.get_position(mds) for m in mds],
                        "text": [S(str(m)) for m in mds]})
        return out


def make(tier, seed):
    return C05(tier, seed)
