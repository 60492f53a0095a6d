"""C16: nested editing contexts."""
import copy
import os

import docs
from core import MC_CFG, MC_LAST, Check, S, exc

SEC = ["%description", "%prep", "%sourcelist", "%patchlist", "%changelog", "%package sub", "%check"]
KINDS = ["lines", "md", "sections", "sections", "tags", "tags", "tags", "changelog", "prep", "sources", "patches"]


_template = None


def fresh():
    """A Specfile object of its own, without the cost of parsing one."""
    global _template
    if _template is None or _template[0] != os.getpid():
        _template = (os.getpid(), docs.open_spec(docs.BASE))
    spec = copy.deepcopy(_template[1])
    spec.path = os.path.join(docs.new_dir(), "test.spec")
    return spec


class C16(Check):
    prop = "C16"
    assumptions = ("contexts are left in the order they were entered (with statements)",
                   "arguments are spelled the same way to count as the same arguments")

    def models(self):
        yield "MC_C16", MC_CFG + (" Size = 2\n MaxDepth = 4\n" if self.thorough else " Size = 2\n MaxDepth = 3\n")
        yield "MC_C16", MC_LAST + (" Size = 1\n MaxDepth = 4\n" if self.thorough else " Size = 1\n MaxDepth = 3\n")

    def doc(self, r):
        out = []
        if r.random() < .6:
            out.append("%global v 1")
        out += r.sample(["Name: n", "Version: 1", "Source0: a", "Source1: b", "Patch0: p", "# c"], r.randint(1, 5))
        for h in r.sample(SEC, r.randint(0, 5)) + (["%package sub"] * 2 if r.random() < .3 else []) + (["%changelog"] if r.random() < .2 else []):
            out.append(h)
            if h == "%prep" and r.random() < .8:
                out.append("%setup")
            elif h in ("%sourcelist", "%patchlist"):
                out += ["l%d" % i for i in range(r.randint(0, 2))]
            elif h == "%changelog" and r.random() < .8:
                out += ["* Mon Jan 01 2024 A - 1-1", "- x"]
            elif h == "%package sub" and r.random() < .7:
                out.append("Version: 3")
        return out

    def opening(self, r, op):
        kind = r.choice(KINDS)
        arg, i = "", -1
        if kind == "tags":
            arg = r.choice(["", "", "package", "kw:package", "description", "package sub", "nosuch"])
        if kind in ("sources", "patches"):
            arg = r.choice(["", "", "dup", "imp", "digits"])
        if kind in ("tags", "changelog") and r.random() < .4:
            arg, i = "", r.randint(0, 4)
        return {"op": op, "sp": r.choice([1, 1, 1, 2]), "kind": kind, "arg": arg, "i": i}

    def cases(self):
        r = self.rng
        for k in range(12000 if self.thorough else 2500):
            evs = []
            kinds = []
            n = 0
            for j in range(r.randint(4, 22)):
                x = r.random()
                if x < .35 and len(kinds) < 7:
                    e = self.opening(r, "open")
                    if kinds and r.random() < .35:
                        e = dict(r.choice([q for q in evs if q["op"] == "open"]))
                    evs.append(e)
                    kinds.append(e["kind"])
                elif x < .7 and kinds:
                    n += 1
                    h = r.randint(1, len(kinds))
                    evs.append({"op": "edit", "h": h, "e": "?", "v": f"k{n}", "i": r.choice([0, 0, 1, 2, -1])})
                elif x < .85 and kinds:
                    evs.append({"op": "close", "exc": r.random() < .4})
                    kinds.pop()
                elif x < .9:
                    n += 1
                    evs.append({"op": "setver", "sp": r.choice([1, 2]), "v": f"k{n}"})
                elif x < .93:
                    evs.append({"op": "getver", "sp": r.choice([1, 2])})
                elif x < .96:
                    evs.append(self.opening(r, r.choice(["content", "drop"])))
                else:
                    evs.append({"op": r.choice(["save", "reload"]), "sp": r.choice([1, 2])})
            evs += [{"op": "close", "exc": r.random() < .2}] * len(kinds)
            evs = self.resolve(r, evs)
            yield {"id": f"h{k}", "init": {"docs": [self.doc(r), self.doc(r)], "auto": [r.random() < .5, r.random() < .5]}, "ev": evs}

    def resolve(self, r, evs):
        """Edit flavours depend on the kind of the view; failing openings make
        the generator's idea of the stack inexact, so flavours are drawn for
        both kinds that have several."""
        out = []
        for e in evs:
            if e["op"] == "edit":
                e = dict(e, e=r.choice(["add", "add", "del", "new"]))
            out.append(e)
        return out

    def run(self, case):
        from specfile.sections import Section
        from specfile.tags import Tags  # noqa: F401
        init = case["init"]
        specs = []
        for lines, auto in zip(init["docs"], init["auto"]):
            spec = fresh()
            with spec.lines() as target:
                target[:] = lines
            spec.save()
            spec.autosave = auto
            specs.append(spec)
        stack = []      # (spec index, kind, arg, i, cm, value)

        def opener(ev):
            spec = specs[ev["sp"] - 1]
            kind, arg = ev["kind"], ev["arg"]
            args, kw = [], {}
            if ev["i"] >= 0:
                holder = next((h for h in stack if h[0] == ev["sp"] and h[1] == "sections"), None)
                if holder is None or ev["i"] >= len(holder[5]):
                    return None
                args = [holder[5][ev["i"]]]
            elif kind == "tags" and arg:
                if arg.startswith("kw:"):
                    kw = {"section": arg[3:]}
                else:
                    args = [arg]
            elif arg:
                kw = {"dup": {"allow_duplicates": True}, "imp": {"default_to_implicit_numbering": True},
                      "digits": {"default_source_number_digits": 3}}[arg]
            f = {"md": spec.macro_definitions}.get(kind) or getattr(spec, kind)
            return lambda: f(*args, **kw)

        def shown(kind, v):
            if v is None:
                return ["!None"]
            if kind == "lines":
                res = list(v)
            elif kind in ("md", "sections"):
                res = v.get_raw_data()
            elif kind in ("tags", "changelog", "prep"):
                res = v.get_raw_section_data()
            else:
                res = [x.location for x in v]
            return [S(x) for x in res]

        def text(spec):
            s = str(spec)
            return [S(x) for x in (s[:-1] if s.endswith("\n") else s + "<no newline>").split("\n")]

        def disk(spec):
            with open(spec.path, encoding="utf8") as f:
                s = f.read()
            return [S(x) for x in (s[:-1] if s.endswith("\n") else s + "<no newline>").split("\n")]

        def obs(err):
            hs = []
            for h in stack:
                same = next(i for i, o in enumerate(stack) if (o[:4] == h[:4] if h[5] is None else o[0] == h[0] and o[5] is h[5]))
                hs.append({"same": same + 1, "shown": shown(h[1], h[5])})
            return {"err": err, "text": [text(s) for s in specs], "disk": [disk(s) for s in specs], "handles": hs}

        def edit(h, ev):
            kind, v, e, x, i = h[1], h[5], ev["e"], ev["v"], ev["i"]
            if kind == "lines":
                if e == "add":
                    v.append(x)
                else:
                    v.insert(0, x)
            elif kind == "md":
                v.get("v").body = x
            elif kind == "sections":
                if e == "add":
                    v[i].append("# " + x)
                elif e == "del":
                    if i in (0, -len(v)):
                        raise IndexError
                    del v[i]
                else:
                    v.append(Section("check", data=[x]))
            elif kind == "tags":
                v.version.value = x
            elif kind == "changelog":
                if v is None:
                    raise NoneView
                v[0].content.append("- " + x)
            elif kind == "prep":
                if v is None:
                    raise NoneView
                v.setup.options.n = x
            else:
                v[i].location = x

        class NoneView(Exception):
            pass

        class Leave(Exception):
            pass
        out = []
        for ev in case["ev"]:
            op = ev["op"]
            if op in ("open", "content", "drop"):
                f = opener(ev)
                if f is None:
                    out.append(obs("nosection"))
                    continue
                if op == "open":
                    ok, cm = exc(f)
                    if ok:
                        ok, v = exc(cm.__enter__)
                    if ok:
                        stack.append((ev["sp"], ev["kind"], ev["arg"], ev["i"], cm, v))
                    out.append(obs("" if ok else docs.err_of(ok, cm)))
                elif op == "content":
                    ok, v = exc(lambda: f().content)
                    o = obs("" if ok else docs.err_of(ok, v))
                    if ok and ev["kind"] not in ("sources", "patches"):
                        o["content"] = shown(ev["kind"], v)
                    out.append(o)
                else:
                    ok, v = exc(lambda: (f(), None)[1])
                    out.append(obs("" if ok else docs.err_of(ok, v)))
                v = cm = None
                continue
            if op == "edit":
                if ev["h"] > len(stack):
                    out.append(obs("nohandle"))
                    continue
                ok, e = exc(edit, stack[ev["h"] - 1], ev)
                if not ok and isinstance(e, NoneView):
                    out.append(obs("none"))
                    continue
                if not ok and isinstance(e, ValueError):
                    e = AttributeError()
                out.append(obs(docs.err_of(ok, e)))
                continue
            if op == "close":
                if not stack:
                    out.append(obs("nohandle"))
                    continue
                h = stack.pop()
                err = ""
                if ev.get("exc"):
                    try:
                        raise Leave
                    except Leave as x:
                        t = x
                    ok, e = exc(h[4].__exit__, Leave, t, t.__traceback__)
                    # the exception must go on
                    if ok and e or not ok and e is not t:
                        err = "!" + repr(e)
                else:
                    ok, e = exc(h[4].__exit__, None, None, None)
                    if not ok:
                        err = docs.err_of(ok, e)
                h = None
                out.append(obs(err))
                continue
            spec = specs[ev["sp"] - 1]
            if op == "setver":
                ok, e = exc(setattr, spec, "version", ev["v"])
                out.append(obs(docs.err_of(ok, e)))
            elif op == "getver":
                ok, e = exc(lambda: spec.version)
                out.append(obs(S(e) if ok else docs.err_of(ok, e)))
            elif op == "save":
                spec.save()
                out.append(obs(""))
            else:
                if any(h[0] == ev["sp"] for h in stack):
                    out.append(obs("open"))
                else:
                    spec.reload()
                    out.append(obs(""))
        # leave what a truncated history holds
        while stack:
            h = stack.pop()
            exc(h[4].__exit__, None, None, None)
            h = None
        return out


def make(tier, seed):
    return C16(tier, seed)
