"""C09: changelogs."""
import docs
from core import MC_CFG, MC_LAST, Check, S, exc

DATES = ["Mon Jan 01 2024", "Tue Feb  2 2024", "Wed Mar 3 2024", "Thu Apr 11 2024", "Fri May 05 10:11:12 UTC 2024",
         "Sat Jun  6 23:59:59 CEST 2024", "Sun Jul 07 01:02:03 +0200 2024", "Mon Aug 31 00:00:00 UTC+02:00 2024",
         "Mon Aug   9 2024", "mon Jan 01 2024", "Mon  Jan 01 2024", "2024-01-01", "Mon Jan 0 2024", "Mon Jan 40 10:11:12 UTC 2024",
         "Mon Jan 05 24:11:12 UTC 2024", "Mon Jan 05 10:11:12 2024", "Mon Jan 005 2024", "Mon Jan", "Mon Jan x", "Mon Jan 05 10:60:12 UTC 2024",
         "Tue Jan 7 10:11:12  2024", "Wed Jan 31 10:11:12 UTC 202", "Wed Jan 3110:11:12 UTC 2024", "Mon Jan 1 1:11:12 UTC 2024"]
WHO = ["A B <a@b.c>", "A-B <a@b>", "x", "é <e@f>", "", "Mon Jan 0 5", "a-b"]
EVRS = ["- 1.0-1", "1.0-1", "- 2:1.0-3", "[1.1-1]", "(1.2-1)", "- 1.0-2:", "-1.3-1", "", "", "- 1.0", "[1.1-1", "(1.1-1]", "- [2-1]:", "- 3-",
         "- -3", "-", "- a-b-c", "- 1.0-1 ", "[-]", "[a-]", "[a-b]]", "(a-b)):", "- 1~rc1-1", "- 1^git-1", "[a-b]::", "a-:", "a-b-:", "a-b-",
         "[a-b-]", "[a-b-]:", "(1-1)x"]
CONT = ["- x", "- fix - y", "", "  ", "text", "* y", " * z", "%autochangelog", "- a\tb", "*"]


def header(r):
    return "*" + r.choice([" ", " ", " ", "", "  "]) + " ".join(x for x in (r.choice(DATES), r.choice(WHO), r.choice(EVRS)))


class C09(Check):
    prop = "C09"
    assumptions = ("lines do not contain exotic white space",)

    def models(self):
        yield "MC_C09", MC_CFG + (" Size = 5\n MaxDepth = 1\n" if self.thorough else " Size = 4\n MaxDepth = 1\n")
        if self.thorough:
            yield "MC_C09", MC_CFG + " Size = 3\n MaxDepth = 3\n"
        yield "MC_C09", MC_LAST + " Size = 2\n MaxDepth = 2\n"

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "direct"
        return c

    def lines(self, r):
        out = []
        for _ in range(r.randint(0, 3)):
            out.append(r.choice(["", "text", "# c", "  "]))
        if r.random() < .5:
            out = []
        for _ in range(r.randint(0, 6)):
            out.append(header(r))
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                out.append(r.choice(CONT))
            out += [""] * r.choice([0, 1, 1, 2])
        return out

    def event(self, r, n):
        k = r.randrange(12)
        i = r.randint(-n - 1, n)
        e = {"h": header(r), "c": [r.choice(CONT) for _ in range(r.randint(0, 2))], "f": [""] * r.choice([0, 1, 2])}
        if k == 0:
            return {"op": "look"}
        if k == 1:
            return {"op": "get", "i": i}
        if k == 2:
            return {"op": "slice", "sl": docs.rslice(r, n)}
        if k == 3:
            return {"op": "filter", "since": r.choice(FB), "until": r.choice(FB)}
        if k == 4:
            return {"op": "del", "i": i}
        if k == 5:
            return {"op": "dels", "sl": docs.rslice(r, n)}
        if k == 6:
            return {"op": "ins", "i": i, "e": e}
        if k == 7:
            return {"op": "app", "e": e}
        if k == 8:
            return {"op": "set", "i": i, "e": e}
        if k == 9:
            return {"op": "head", "i": i, "t": header(r)}
        if k == 10:
            return {"op": "cont", "i": i, "c": e["c"]}
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        n = 12000 if self.thorough else 2500
        for k in range(n):
            lines = self.lines(r)
            if r.random() < .15:
                # a plausible one: versions mostly growing
                lines = []
                v = r.randint(5, 9)
                for _ in range(r.randint(3, 7)):
                    lines += ["* Mon Jan 01 2024 A B <a@b> - %s%d.%d-%d" % (r.choice(["", "", "1:"]), v, r.randint(0, 2), r.randint(1, 2)), "- x", ""]
                    v -= r.choice([0, 1, 1, -1])
            m = max(1, sum(x.startswith("*") for x in lines))
            evs = [{"op": "look"}] + [self.event(r, m) for _ in range(r.randint(2, 7))]
            evs += [{"op": "filter", "since": r.choice(FB), "until": r.choice(FB)} for _ in range(2)]
            evs.append({"op": "reopen"})
            yield {"id": f"h{k}", "init": {"k": "spec" if k % 12 == 0 else "direct", "lines": lines}, "ev": evs}

    def run(self, case):
        from specfile.changelog import Changelog, ChangelogEntry
        from specfile.sections import Section
        init = case["init"]
        v = None
        if init["k"] == "direct":
            g = Changelog.parse(Section("changelog", data=list(init["lines"])))
        else:
            spec = docs.spec_with_lines(["%changelog"] + init["lines"])
            v = docs.ViewCM(spec.changelog)
            g = v.value

        def row(e):
            return {"h": S(e.header), "c": [S(x) for x in e.content], "evr": "no EVR" if e.evr is None else S(e.evr),
                    "ext": e.extended_timestamp, "pad": S(e.day_of_month_padding)}

        def obs(err):
            return {"err": err, "items": [row(e) for e in g], "raw": [S(x) for x in g.get_raw_section_data()]}

        def entry(e):
            return ChangelogEntry(e["h"], list(e["c"]), list(e["f"]))
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            ok = ret = True
            if op == "get":
                ok, ret = exc(lambda: g[ev["i"]])
                out.append({"err": "", "item": row(ret)} if ok else {"err": docs.err_of(ok, ret)})
                continue
            if op == "slice":
                out.append({"items": [row(e) for e in g[docs.unslice(ev["sl"])]]})
                continue
            if op == "filter":
                q = g.filter(*[None if x == "no EVR" else x for x in (ev["since"], ev["until"])])
                out.append({"items": [row(e) for e in q]})
                continue
            if op == "del":
                ok, ret = exc(g.__delitem__, ev["i"])
            elif op == "dels":
                ok, ret = exc(g.__delitem__, docs.unslice(ev["sl"]))
            elif op == "ins":
                ok, ret = exc(g.insert, ev["i"], entry(ev["e"]))
            elif op == "app":
                ok, ret = exc(g.append, entry(ev["e"]))
            elif op == "set":
                ok, ret = exc(g.__setitem__, ev["i"], entry(ev["e"]))
            elif op == "head":
                ok, ret = exc(lambda: setattr(g[ev["i"]], "header", ev["t"]))
            elif op == "cont":
                ok, ret = exc(lambda: setattr(g[ev["i"]], "content", list(ev["c"])))
            elif op == "reopen":
                if v:
                    v.close()
                    text = docs.lines_of(spec)
                    v.open()
                    g = v.value
                    o = obs("")
                    o["raw"] = [S(x) for x in text[1:]] if text[:1] == ["%changelog"] else [S(repr(text))]
                    out.append(o)
                    continue
                g = Changelog.parse(Section("changelog", data=g.get_raw_section_data()))
            out.append(obs(docs.err_of(ok, ret)))
        return out


FB = ["no EVR", "no EVR", "1.0-1", "2:1.0-3", "1.1", "0", "9", "1.0-2", "x-y-z", "", "5.0-1", "6.1-1", "7", "1:6"]


def make(tier, seed):
    return C09(tier, seed)
