"""C08: changing sources and patches."""
import docs
import srcs
from core import MC_CFG, Check, S, exc

NEW = ["new.tar", "http://h/n.patch", "n/%{name}.txt", "z", "a.tar.gz", "b.patch", "x=y", "c/d.txt"]
LOCS = ["a.tar.gz", "b.patch", "c/d.txt", "http://h/%{m}.tgz", "x=y", "foo#bar", "é.patch", "%{m}"]


def err(ok, e):
    from specfile.exceptions import DuplicateSourceException, SourceNumberException
    if ok:
        return ""
    if isinstance(e, DuplicateSourceException):
        return "dup"
    if isinstance(e, SourceNumberException):
        return "number"
    return docs.err_of(ok, e)


class C08(Check):
    prop = "C08"
    assumptions = ("locations have no white space at the edges and balanced brackets",
                   "no conditions inside %sourcelist/%patchlist")

    def models(self):
        yield "MC_C08", MC_CFG + (" Size = 2\n MaxDepth = 2\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")
        if not self.thorough:
            yield "MC_C08", MC_CFG + " Size = 1\n MaxDepth = 2\n"

    def model_case(self, e):
        c = super().model_case(e)
        c["init"]["k"] = "spec" if any(x["op"] == "add_patch" for x in c["ev"]) else "direct"
        return c

    def replay_model_cases(self, module, emitted):
        # add_patch needs a Specfile object, which is slow: two-step histories with it are sampled
        keep = []
        for e in emitted:
            if not self.thorough and len(e["path"]) > 1 and any(p["ev"]["op"] == "add_patch" for p in e["path"]):
                if self.rng.random() > .1:
                    continue
            keep.append(e)
        self.notes["model_cases_replayed"] = self.notes.get("model_cases_replayed", 0) + len(keep)
        super().replay_model_cases(module, keep)

    def event(self, r, n, mode, kind):
        k = r.randrange(20)
        i = r.randint(-n - 1, n + 1)
        loc = r.choice(NEW)
        if k < 4:
            return {"op": "ins", "i": i, "loc": loc}
        if k < 6:
            return {"op": "app", "loc": loc}
        if k < 9:
            return {"op": "num", "num": r.choice([0, 1, 2, 3, 5, 9, 10, 11, 99, 100, 999, 1000, 10000]), "loc": loc}
        if k < 11:
            if mode == "spec" and kind == "Patch":
                return {"op": "add_patch", "num": r.choice([-1, -1, 0, 3, 20, 100, 2000]), "loc": loc,
                        "initial": r.choice([0, 1, 1, 100]), "digits": r.choice([0, 1, 2, 4, 4]),
                        "cs": r.choice([[], ["why"], ["l1", "l2"], ["l1", "", "l3"]])}
            return {"op": "ins", "i": 0, "loc": loc}
        if k == 11:
            return {"op": "del", "i": i, "via": r.choice(["del", "pop"])}
        if k == 12:
            return {"op": "dels", "sl": docs.rslice(r, n)}
        if k == 13:
            return {"op": "remove", "loc": r.choice(NEW + LOCS)}
        if k == 14:
            return {"op": "removenum", "num": r.choice([0, 1, 2, 3, 9, 10])}
        if k == 15:
            return {"op": "set", "i": i, "loc": loc, "via": r.choice(["location", "item"])}
        if k == 16:
            return {"op": "com", "i": i, "loc": r.choice(["cmt", "a b"])}
        if k == 17:
            return {"op": "clear"} if r.random() < .4 else {"op": "look"}
        return {"op": "reopen"}

    def cases(self):
        r = self.rng
        n = 10000 if self.thorough else 2200
        for k in range(n):
            kind = r.choice(["Source", "Patch", "Patch"])
            mode = "spec" if k % 5 == 0 else "direct"
            pre = srcs.preamble(r, kind, LOCS, False)
            lists = [srcs.listlines(r, LOCS) for _ in range(r.choice([0, 0, 0, 1, 2]))]
            init = {"k": mode, "kind": kind, "pre": pre, "lists": lists, "dup": r.random() < .4,
                    "impl": r.random() < .3, "digits": r.choice([0, 1, 1, 2, 4])}
            yield {"id": f"h{k}", "init": init,
                   "ev": [{"op": "look"}] + [self.event(r, 5, mode, kind) for _ in range(r.randint(2, 6))]}

    def run(self, case):
        import rpm
        init = case["init"]
        rpm.reloadConfig()
        spec = v = None
        if init["k"] == "direct":
            s, tags, lists = srcs.build(init)
        else:
            spec = docs.spec_with_lines(srcs.text(init))
            v = srcs.view(spec, init)
            s = v.value

        def row(x):
            return {"num": x.number, "loc": S(x.location), "cs": [S(str(c)) for c in x.comments]}

        def obs(e, ret=-1):
            nonlocal s
            items = [row(x) for x in s]
            if spec:
                # the text, through another view
                v.close()
                raw = srcs.split(docs.lines_of(spec))
                v.open()
                s = v.value
                again = [row(x) for x in s]
                if again != items:
                    items = [S(repr((items, again)))]
            else:
                raw = [tags.get_raw_section_data()] + [x.get_raw_section_data() for x in lists]
            raw = [[S(y) for y in x] for x in raw]
            return {"err": e, "ret": ret, "items": items, "raw": raw[0], "lists": raw[1:]}
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            ok, ret = True, -1
            if op == "ins":
                ok, ret = exc(s.insert, ev["i"], ev["loc"])
            elif op == "app":
                ok, ret = exc(s.append, ev["loc"])
            elif op == "num":
                ok, ret = exc(s.insert_numbered, ev["num"], ev["loc"])
            elif op == "add_patch":
                v.close()
                ok, ret = exc(spec.add_patch, ev["loc"], None if ev["num"] < 0 else ev["num"],
                              "\n".join(ev["cs"]) if ev["cs"] else None, ev["initial"], ev["digits"])
                v.open()
                s = v.value
            elif op == "del":
                ok, ret = exc(s.pop if ev.get("via") == "pop" else s.__delitem__, ev["i"])
            elif op == "dels":
                ok, ret = exc(s.__delitem__, docs.unslice(ev["sl"]))
            elif op == "remove":
                ok, ret = exc(s.remove, ev["loc"])
            elif op == "removenum":
                ok, ret = exc(s.remove_numbered, ev["num"])
            elif op == "set":
                def f():
                    if ev.get("via") == "item":
                        s[ev["i"]] = ev["loc"]
                    else:
                        s[ev["i"]].location = ev["loc"]
                ok, ret = exc(f)
            elif op == "com":
                ok, ret = exc(lambda: s[ev["i"]].comments.append(ev["loc"]))
            elif op == "clear":
                ok, ret = exc(s.clear)
            elif op == "reopen":
                if spec:
                    v.close()
                    v.open()
                    s = v.value
                else:
                    s, tags, lists = srcs.build(dict(init, pre=tags.get_raw_section_data(),
                                                     lists=[x.get_raw_section_data() for x in lists]))
            out.append(obs(err(ok, ret), ret if ok and op == "num" else -1))
        return out


def make(tier, seed):
    return C08(tier, seed)
