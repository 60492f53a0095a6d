"""C12: option strings."""
from core import MC_CFG, MC_LAST, Check, S, exc


def tok(t):
    from specfile.options import TokenType
    m = {TokenType.DEFAULT: "d", TokenType.WHITESPACE: "w", TokenType.QUOTED: "q",
         TokenType.DOUBLE_QUOTED: "Q"}
    return {"t": m.get(t.type, "?"), "v": S(t.value)}


def unval(v):
    if v == "!True":
        return True
    if v == "!False":
        return False
    if v == "!None":
        return None
    if v.startswith("!"):
        return int(v[1:])
    return v


def unslice(sl):
    return slice(*[None if x == 99999 else x for x in sl])


WORDS = ["foo", "x", "0", "007", "%{name}", "%{?a:b c}", "a%%b", "a=b", "é", "%name-1.0", "%(echo a b)"]


class C12(Check):
    prop = "C12"
    assumptions = (
        "option arguments do not start with '-', set values are non-empty",
        "quoted values contain no backslash (popt cannot express a trailing one)",
    )

    def models(self):
        if self.thorough:
            yield "MC_C12", MC_CFG + " Size = 2\n MaxDepth = 3\n"
        yield "MC_C12", MC_LAST + " Size = 2\n MaxDepth = 2\n"
        yield "MC_C12T", MC_CFG + f" Size = {7 if self.thorough else 6}\n MaxDepth = 1\n"

    # -- generation ----------------------------------------------------------
    def argtext(self, r):
        k = r.randrange(6)
        w = r.choice(WORDS)
        if k == 0:
            return "'" + w + r.choice(["", " y", '"', "\\\\ y", "\\x"]) + "'"
        if k == 1:
            return '"' + w + r.choice(["", " y", "'", '\\"', "\\\\", "\\y", '\\\\\\"']) + '"'
        if k == 2:
            return w + "\\ z"
        if k == 3 and not w.startswith("%("):
            return w + r.choice(["\\'", "\\\\", '\\"'])
        return w

    def optstr(self, r):
        parts = []
        for _ in range(r.randint(0, 5)):
            k = r.randrange(8)
            if k < 2:
                parts.append("-" + r.choice("qTz"))
            elif k < 4:
                parts.append("-" + r.choice("np") + r.choice([" ", "  ", "\t"]) + self.argtext(r))
            elif k == 4:
                parts.append("-" + r.choice("np") + r.choice(["1", "foo", "%{name}"]))
            else:
                parts.append(self.argtext(r))
        s = ""
        for p in parts:
            s += p + r.choice([" ", " ", "  ", "\t"])
        s = s if r.random() < 0.3 else s.rstrip()
        return r.choice(["", "", "", " "]) + s

    def noise(self, r):
        return "".join(r.choice(["a", "-n", "-q", " ", "  ", "'", '"', "\\", "%{x y}", "%{?a:'b'}", "%%",
                                 "b", "-p1", "\t", "%(x)", "1", "é", "''", "%{"]) for _ in range(r.randint(1, 10)))

    def val(self, r):
        return r.choice(["!True", "!False", "!None", "!0", "!42", "foo", "x y", "%{name}", "a'b", 'a"b', "a\\b",
                         "%{x y}z", "q'r s", "5", "007", "a b%{c d}", 'd"e f'])

    def sval(self, r):
        return r.choice(["!0", "!42", "foo", "x y", "%{name}", "a'b", 'a"b', "a\\b", "%{x y}z", "q'r s", "7", "a\tb"])

    def cases(self):
        r = self.rng
        n = 20000 if self.thorough else 4000
        for k in range(n):
            yield {"id": f"t{k}", "init": {"k": "tok"}, "ev": [
                {"op": "tokenize", "s": self.noise(r) if k % 2 else self.optstr(r)}]}
        for k in range(n // 4):
            yield {"id": f"a{k}", "init": {"k": "tok"}, "ev": [{"op": "argv", "s": self.optstr(r)}]}
        for k in range(n):
            opts = r.choice(["n:p:qT", "qTn:p:", "n:", "", "p:q"])
            defaults = r.choice([[], [["p", "!1"]], [["n", "dflt"], ["p", "!0"]]])
            names = opts.replace(":", "")
            evs = [{"op": "look"}]
            npos = 0
            for _ in range(r.randint(1, 8)):
                op = r.choice(["set", "set", "set", "del", "pset", "pdel", "pdels", "pget", "pins", "passign", "set"])
                if op in ("set", "del"):
                    if not names:
                        continue
                    e = {"op": op, "n": r.choice(names)}
                    if op == "set":
                        e["v"] = self.val(r)
                elif op in ("pset", "pdel"):
                    e = {"op": op, "i": r.randint(-3, 3)}
                    if op == "pset":
                        e["v"] = self.sval(r)
                elif op in ("pdels", "pget"):
                    e = {"op": op, "sl": [r.choice([99999, 0, 1, 2, -1, -2]), r.choice([99999, 0, 1, 3, -1]),
                                          r.choice([99999, 1, 2, -1, -2])]}
                elif op == "pins":
                    e = {"op": op, "i": r.choice([0, 0, 1, 2, 5]), "v": self.sval(r)}
                else:
                    e = {"op": op, "vs": [self.sval(r) for _ in range(r.randint(0, 3))]}
                evs.append(e)
            yield {"id": f"o{k}", "init": {"k": "opts", "s": self.optstr(r), "optstring": opts,
                                           "defaults": defaults}, "ev": evs}
        # known findings
        yield {"id": "kf-adjacent", "kf": "adjacent-quotes", "init": {"k": "tok"},
               "ev": [{"op": "argv", "s": "-n 'a b'c"}]}
        yield {"id": "kf-escape", "kf": "redundant-escape", "init": {"k": "tok"},
               "ev": [{"op": "text", "s": "-n \\$x"}]}
        yield {"id": "kf-empty", "kf": "empty-quotes", "init": {"k": "tok"},
               "ev": [{"op": "text", "s": '-n ""'}]}

    # -- execution -----------------------------------------------------------
    def run(self, case):
        from specfile.exceptions import OptionsException, UnterminatedMacroException
        from specfile.options import Options
        init = case["init"]
        o = None
        if init["k"] == "opts":
            o = Options(Options.tokenize(init["s"]), init["optstring"],
                        {k: unval(v) for k, v in init["defaults"]})
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            if op == "tokenize":
                ok, t = exc(Options.tokenize, ev["s"])
                if ok:
                    text = str(Options(t))
                    ok2, u = exc(Options.tokenize, text)
                    out.append({"ok": True, "err": "", "toks": [tok(x) for x in t], "text": S(text),
                                "again": ok2 and u == t})
                else:
                    e = ("macro" if isinstance(t, UnterminatedMacroException) else
                         {"No escaped character": "escape", "No closing quotation": "quotation"}.get(str(t), repr(t))
                         if isinstance(t, OptionsException) else repr(t))
                    out.append({"ok": False, "err": e, "toks": [], "text": "", "again": True})
                continue
            if op == "argv":
                out.append({"argv": [S(t.value) for t in Options.tokenize(ev["s"]) if tok(t)["t"] != "w"]})
                continue
            if op == "text":
                out.append({"text": S(str(Options(Options.tokenize(ev["s"]))))})
                continue
            if op == "pget":
                out.append({"items": [S(x) for x in o.positional[unslice(ev["sl"])]]})
                continue
            before = o.positional
            def do():
                if op == "set":
                    if len(case["id"]) % 2:
                        setattr(o, ev["n"], unval(ev["v"]))
                    else:
                        o[ev["n"]] = unval(ev["v"])
                elif op == "del":
                    if len(case["id"]) % 2:
                        delattr(o, ev["n"])
                    else:
                        del o[ev["n"]]
                elif op == "pset":
                    o.positional[ev["i"]] = unval(ev["v"])
                elif op == "pdel":
                    del o.positional[ev["i"]]
                elif op == "pdels":
                    del o.positional[unslice(ev["sl"])]
                elif op == "pins":
                    o.positional.insert(ev["i"], unval(ev["v"]))
                elif op == "passign":
                    o.positional = [unval(v) for v in ev["vs"]]
            ok, e = exc(do)
            err = "" if ok else ("refused" if isinstance(e, OptionsException) else
                                 "index" if isinstance(e, IndexError) else repr(e))
            names = [c for c in o.optstring if c != ":"]
            vals = [S(getattr(o, n)) for n in names]
            if vals != [S(o[n]) for n in names]:
                vals.append("!attribute and item access differ")
            pos = [S(x) for x in o.positional]
            if pos != [S(x) for x in before] or len(o.positional) != len(pos):
                pos.append("!positional views differ")
            out.append({"err": err, "text": S(str(o)), "values": vals, "keys": [S(x) for x in o],
                        "len": len(o), "positional": pos})
        return out


def make(tier, seed):
    return C12(tier, seed)
