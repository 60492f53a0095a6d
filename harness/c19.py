"""C19: EVR, NEVR, NEVRA."""
from core import MC_CFG, Check, S, exc

ARCHES = ["noarch", "x86_64", "i686", "aarch64", "s390x"]


def mk(k, p):
    from specfile.utils import EVR, NEVR, NEVRA
    kw = {"epoch": int(p["e"]), "version": p["v"], "release": p["r"]}
    if k == "E":
        return EVR(**kw)
    if k == "N":
        return NEVR(name=p["n"], **kw)
    return NEVRA(name=p["n"], arch=p["a"], **kw)


def cls(k):
    from specfile.utils import EVR, NEVR, NEVRA
    return {"E": EVR, "N": NEVR, "A": NEVRA}[k]


def tri(fn):
    ok, v = exc(fn)
    if not ok:
        return "TypeError" if isinstance(v, TypeError) else S(repr(v))
    return "T" if v is True else "F" if v is False else S(repr(v))


class C19(Check):
    prop = "C19"
    assumptions = ("single-line strings, ASCII digits",)

    def models(self):
        yield "MC_C19", MC_CFG + (" Size = 3\n MaxDepth = 1\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")

    def ver(self, r, near=None):
        if near is not None and r.random() < .7:
            s = list(near)
            for _ in range(r.randint(0, 2)):
                k = r.randint(0, len(s))
                x = r.choice(["0", "1", "9", "a", "Z", "~", "^", ".", "_", "+", "00", "é", ":"])
                if r.random() < .5 or not s:
                    s.insert(k, x)
                elif r.random() < .5:
                    del s[min(k, len(s) - 1)]
                else:
                    s[min(k, len(s) - 1)] = x
            return "".join(s)
        return "".join(r.choice(["0", "1", "2", "10", "007", "a", "B", "rc", "~", "^", ".", ".", "_", "+", "git", "99999999999999999999"])
                       for _ in range(r.randint(0, 6)))

    def obj(self, r, near=None):
        v = self.ver(r, near and near["v"])
        rel = self.ver(r, near and near["r"]) if r.random() < .8 else ""
        return {"n": r.choice(["a", "b", "a-1"]) if near is None or r.random() < .2 else near["n"],
                "e": r.choice(["0", "0", "0", "1", "2", "10"]) if near is None or r.random() < .2 else near["e"],
                "v": v, "r": rel, "a": r.choice(ARCHES) if near is None or r.random() < .2 else near["a"]}

    def text(self, r):
        if r.random() < .3:
            return "".join(r.choice(["a", "1", "0", "-", ":", ".", "~", "noarch", "x86_64", "-1", "1:", " ", "é"]) for _ in range(r.randint(0, 8)))
        n = r.choice(["", "a-", "a-b-", "python3-x-", "-", "1-", "a.b-", "a--"])
        e = r.choice(["", "", "1:", "0:", "007:", ":", "x:", "1:2:"])
        v = r.choice(["1", "1.0", "1~rc1", "", "x", "1:"])
        rel = r.choice(["", "-1", "-1.fc35", "-", "-1-2", "-x86_64", "-1.noarch"])
        a = r.choice(["", "", ".noarch", ".x86_64", ".src", ".foo", ".", ".i686.noarch"])
        return n + e + v + rel + a

    def cases(self):
        r = self.rng
        n = 3000 if self.thorough else 700
        none = {"n": "", "e": "0", "v": "", "r": "", "a": ""}
        for k in range(n):
            evs = []
            for _ in range(8):
                a = self.obj(r)
                b = self.obj(r, a)
                ka = r.choice("EENA")
                kb = ka if r.random() < .9 else r.choice("ENA")
                evs.append({"op": "cmp", "ka": ka, "kb": kb, "a": a, "b": b, "c": self.obj(r, b)})
            for _ in range(6):
                evs.append({"op": "parse", "k": r.choice("ENA"), "s": self.text(r)})
            evs.append({"op": "sort", "vs": [self.obj(r) for _ in range(r.randint(0, 8))]})
            evs.append({"op": "arch", "s": r.choice(["noarch", "x86_64", "i386", "src", "", "arm", "ppc64le", "aarch", "noarch2", "x86-64", "i6866"])})
            yield {"id": f"h{k}", "init": {"a": none}, "ev": evs}

    def run(self, case):
        import rpm
        out = []
        for ev in case["ev"]:
            if ev["op"] == "cmp":
                a, b = mk(ev["ka"], ev["a"]), mk(ev["kb"], ev["b"])
                eq = tri(lambda: a == b)
                ra, rb = ((x["e"], x["v"] or "0", x["r"]) for x in (ev["a"], ev["b"]))
                out.append({"rpm": rpm.labelCompare(ra, rb), "lt": tri(lambda: a < b), "le": tri(lambda: a <= b), "eq": eq,
                            "ne": tri(lambda: a != b), "ge": tri(lambda: a >= b), "gt": tri(lambda: a > b),
                            "hash": eq != "T" or exc(lambda: hash(a) == hash(b)) == (True, True)})
            elif ev["op"] == "parse":
                from specfile.exceptions import SpecfileException
                ok, p = exc(cls(ev["k"]).from_string, ev["s"])
                if not ok:
                    out.append({"err": "refused" if isinstance(p, SpecfileException) else S(repr(p))})
                    continue
                text = str(p)
                out.append({"err": "", "p": {"n": S(getattr(p, "name", "")), "e": str(p.epoch), "v": S(p.version), "r": S(p.release),
                                             "a": S(getattr(p, "arch", ""))}, "text": S(text),
                            "again": tri(lambda: cls(ev["k"]).from_string(text) == p and hash(cls(ev["k"]).from_string(text)) == hash(p))})
            elif ev["op"] == "arch":
                from specfile.exceptions import SpecfileException
                ok, p = exc(lambda: mk("A", {"n": "a", "e": "0", "v": "1", "r": "1", "a": ev["s"]}))
                out.append({"ok": ok if ok or isinstance(p, SpecfileException) else S(repr(p))})
            elif ev["op"] == "sort":
                q = sorted((mk("E", x) for x in ev["vs"]))
                t = [(str(x.epoch), x.version or "0", x.release) for x in q]
                out.append({"sorted": all(rpm.labelCompare(x, y) <= 0 for x, y in zip(t, t[1:])), "len": len(q)})
        return out


def make(tier, seed):
    return C19(tier, seed)
