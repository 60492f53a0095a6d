"""C07: reading sources and patches."""
import os

import docs
import srcs
from core import MC_CFG, Check, S, exc
from c04 import elif_ok

MAC = [["m", "v/w"], ["n", "q"]]


class C07(Check):
    prop = "C07"
    assumptions = ("no conditions inside %sourcelist/%patchlist (known finding)",
                   "locations have balanced brackets")

    def models(self):
        yield "MC_C07", MC_CFG + (" Size = 4\n MaxDepth = 1\n" if self.thorough else " Size = 3\n MaxDepth = 1\n")

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "direct"
        return c

    def cases(self):
        r = self.rng
        n = 12000 if self.thorough else 2500
        for k in range(n):
            kind = r.choice(["Source", "Patch"])
            mode = ["direct", "direct", "direct", "rpm", "rpm"][k % 5]
            locs = srcs.LOCS
            if mode == "rpm":
                # rpm accepts this one: numbers increase
                pre, num = [], -1
                depth = 0
                for _ in range(r.randint(0, 6)):
                    x = r.randrange(8)
                    if x < 4:
                        step = r.choice([0, 0, 1, 3])
                        if step or r.random() < .6:
                            num += 1 + step
                            pre.append(kind + r.choice(["%d", "%04d", "%02d"]) % num + ": " + r.choice(LOCAL) % num)
                        else:
                            num += 1
                            pre.append(kind + ":   " + r.choice(LOCAL) % num)
                    elif x == 4:
                        pre.append("# c")
                    elif x == 5:
                        pre.append("%if " + r.choice("01"))
                        depth += 1
                    elif x == 6 and depth:
                        pre.append("%endif")
                        depth -= 1
                pre += ["%endif"] * depth
                head = ["Name: test", "Version: 1", "Release: 1", "Summary: s", "License: MIT"]
                # tags in a false branch are numbered as if they were there: only explicit numbers then
                if any(x == "%if 0" for x in pre):
                    pre = [x for x in pre if not x.startswith(kind + ":")]
                    lists = []
                else:
                    lists = [[r.choice(["# c", "", "l%d_%d" % (j, q)]) for q in range(r.randint(0, 3))] for j in range(r.randint(0, 2))]
                init = {"k": "rpm", "kind": kind, "pre": head + pre, "lists": lists, "macros": MAC}
                yield {"id": f"h{k}", "init": init, "ev": [{"op": "look"}, {"op": "index", "i": r.randint(-6, 6)}, {"op": "slice", "sl": docs.rslice(r, 5)}, {"op": "rpm"}]}
                continue
            pre = srcs.preamble(r, kind, locs, mode == "direct")
            if not elif_ok(pre):
                continue
            lists = [srcs.listlines(r, locs) for _ in range(r.choice([0, 0, 1, 2]))]
            evs = [{"op": "look"}]
            for _ in range(3):
                evs.append(r.choice([{"op": "slice", "sl": docs.rslice(r, 5)}, {"op": "index", "i": r.randint(-6, 6)},
                                     {"op": "count", "loc": r.choice(locs)}]))
            yield {"id": f"h{k}", "init": {"k": "direct", "kind": kind, "pre": pre, "lists": lists, "macros": MAC},
                   "ev": evs}
        yield {"id": "kf-cond", "kf": "condition-in-list", "init": {
            "k": "direct", "kind": "Source", "pre": [], "lists": [["a", "%if 1", "b", "%endif"]], "macros": MAC},
            "ev": [{"op": "look"}]}

    def run(self, case):
        import rpm
        init = case["init"]
        rpm.reloadConfig()
        spec = v = None
        if init["k"] == "direct":
            for m, x in init["macros"]:
                rpm.addMacro(m, x)
            s, tags, lists = srcs.build(init)
        else:
            spec = docs.open_spec("\n".join(srcs.text(init)) + "\n", macros=[tuple(m) for m in init["macros"]], force_parse=True)
            v = srcs.view(spec, init)
            s = v.value

        def row(x):
            from specfile.sources import TagSource
            return {"num": x.number, "loc": S(x.location), "cs": [S(str(c)) for c in x.comments], "valid": x.valid,
                    "file": S(x.filename), "xloc": S(x.expanded_location), "xfile": S(x.expanded_filename),
                    "remote": x.remote, "tag": isinstance(x, TagSource)}
        out = []
        for ev in case["ev"]:
            if ev["op"] == "look":
                items = [row(x) for x in s]
                if spec:
                    v.close()
                    raw = srcs.split(docs.lines_of(spec))
                    v.open()
                    s = v.value
                else:
                    raw = [tags.get_raw_section_data()] + [x.get_raw_section_data() for x in lists]
                out.append({"items": items, "len": len(s), "raw": [[S(y) for y in x] for x in raw]})
            elif ev["op"] == "slice":
                out.append({"items": [row(x) for x in s[docs.unslice(ev["sl"])]]})
            elif ev["op"] == "index":
                ok, x = exc(lambda: s[ev["i"]])
                out.append({"err": "", "item": row(x)} if ok else {"err": docs.err_of(ok, x)})
            elif ev["op"] == "count":
                out.append({"count": s.count(ev["loc"]), "has": ev["loc"] in s})
            elif ev["op"] == "rpm":
                rpm.reloadConfig()
                for m, x in init["macros"]:
                    rpm.addMacro(m, x)
                p = os.path.join(docs.new_dir(), "test.spec")
                docs.write(p, "\n".join(srcs.text(init)) + "\n")
                flag = 1 if init["kind"] == "Source" else 2
                try:
                    got = [x for x in rpm.spec(p, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE).sources if x[2] & flag]
                except Exception as e:
                    out.append({"items": [S(repr(e))]})
                    continue
                out.append({"items": [{"num": x[1], "loc": S(x[0])} for x in sorted(got, key=lambda x: x[1])]})
        return out


LOCAL = ["f%d.tar", "http://h/%%{m}%d.zip", "x/y%d"]


def make(tier, seed):
    return C07(tier, seed)
