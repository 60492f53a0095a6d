"""C20: copies, equality, representations."""
import copy
import glob
import os
import re

import core
import docs
from core import MC_CFG, MC_LAST, Check, S, exc

LISTS = ["tags", "comments", "changelog", "defs", "prep", "sourcelist", "sections"]
VALUES = ["parts", "parts", "spec", "section", "options", "positional", "sources", "patches", "prepobj"]
TAGN = ["Name", "Version", "Release", "Summary", "License", "URL", "Group", "Epoch"]
SECN = ["build", "install", "check", "prep", "files", "changelog", "description"]


def namespace():
    import pathlib

    import specfile.changelog
    import specfile.macro_definitions
    import specfile.macros
    import specfile.options
    import specfile.prep
    import specfile.sections
    import specfile.sourcelist
    import specfile.sources
    import specfile.spec_parser
    import specfile.specfile
    import specfile.tags
    import specfile.utils
    import specfile.value_parser
    ns = dict(vars(pathlib))
    for m in (specfile.tags, specfile.changelog, specfile.macro_definitions, specfile.options, specfile.prep, specfile.sections, specfile.sourcelist,
              specfile.sources, specfile.spec_parser, specfile.specfile, specfile.macros, specfile.utils, specfile.value_parser):
        ns.update({k: v for k, v in vars(m).items() if isinstance(v, type)})
    return ns


def back(o):
    """The object its representation evaluates to."""
    t = re.sub(r"<(\w+\.\w+): [^<>']*>", r"\1", repr(o))
    return eval(t, namespace())


def mk(cls, m, s, n=0):
    """An element of a list."""
    from specfile.changelog import ChangelogEntry
    from specfile.macro_definitions import CommentOutStyle, MacroDefinition
    from specfile.options import Options
    from specfile.prep import PatchMacro
    from specfile.sections import Section
    from specfile.sourcelist import SourcelistEntry
    from specfile.tags import Comment, Comments, Tag
    if cls == "tags":
        return Tag(TAGN[n % len(TAGN)], m, ": ", Comments([Comment(x) for x in s]))
    if cls == "comments":
        return Comment(m)
    if cls == "changelog":
        return ChangelogEntry(m, list(s))
    if cls == "defs":
        return MacroDefinition("m", m, True, False, CommentOutStyle.DNL, ("", " ", " ", ""))
    if cls == "prep":
        return PatchMacro("%patch", Options(Options.tokenize(" ".join(["-b", m] + list(s))), PatchMacro.OPTSTRING, PatchMacro.DEFAULTS), " ")
    if cls == "sourcelist":
        return SourcelistEntry(m, Comments([Comment(x) for x in s]))
    if cls == "sections":
        return Section("build", data=[m] + list(s))


def container(cls):
    from specfile.changelog import Changelog
    from specfile.macro_definitions import MacroDefinitions
    from specfile.prep import PrepMacros
    from specfile.sections import Sections
    from specfile.sourcelist import Sourcelist
    from specfile.tags import Comments, Tags
    return {"tags": Tags, "comments": Comments, "changelog": Changelog, "defs": MacroDefinitions, "prep": PrepMacros, "sourcelist": Sourcelist, "sections": Sections}[cls]


def raw(cls, h):
    return h.get_raw_section_data() if cls in ("tags", "changelog", "sourcelist") else h.get_raw_data()


def main(cls, e, v=None):
    name = {"tags": "value", "comments": "text", "changelog": "header", "defs": "body", "sourcelist": "location"}.get(cls)
    if name:
        if v is not None:
            setattr(e, name, v)
        return getattr(e, name)
    if cls == "prep":
        n = "b" if "b" in e.OPTSTRING else "n" if "n:" in e.OPTSTRING else "m"
        if v is not None:
            setattr(e.options, n, v)
        return str(getattr(e.options, n))
    if v is not None:
        if len(e):
            e[0] = v
        else:
            e.append(v)
    return e[0] if len(e) else ""


def sub(cls, e, v=None):
    if cls in ("tags", "sourcelist"):
        if v is not None:
            e.comments.append(v)
        return [c.text for c in e.comments]
    if cls == "changelog":
        if v is not None:
            e.content.append(v)
        return list(e.content)
    if cls == "prep":
        if v is not None:
            e.options.positional.append(v)
        return [str(x) for x in e.options.positional]
    if cls == "sections":
        if v is not None:
            e.extend([v] if len(e) else ["", v])
        return list(e)[1:]
    return []


def can_sub(cls):
    return cls not in ("comments", "defs")


class Lists:
    """The list objects of a history and their elements."""

    def __init__(self, cls, first):
        self.cls = cls
        self.hs = [first]
        self.els = []
        self.see()

    def see(self):
        for h in self.hs:
            for e in h:
                if not any(e is x for x in self.els):
                    self.els.append(e)

    def dump(self):
        self.see()
        cls = self.cls
        C = container(cls)
        tx = [S("\n".join(raw(cls, C([e])))) for e in self.els]
        idx = [[next(k for k, x in enumerate(self.els, 1) if x is e) for e in h] for h in self.hs]
        own = []
        for h, ks in zip(self.hs, idx):
            q = raw(cls, h)
            n = sum(len(raw(cls, C([self.els[k - 1]]))) for k in ks)
            own.append([S(x) for x in (q[:len(q) - n] if cls in ("changelog", "comments") else q[n:])])
        return {"el": [{"m": S(main(cls, e)), "s": [S(x) for x in sub(cls, e)]} for e in self.els], "tx": tx, "hs": idx, "own": own, "vs": [],
                "eqe": [[a == b for b in self.els] for a in self.els], "eqh": [[a == b for b in self.hs] for a in self.hs], "eqv": []}

    def step(self, ev):
        op = ev["op"]
        hs, els = self.hs, self.els
        h = hs[(ev.get("h", 1) - 1) % len(hs)]
        if op == "deep":
            hs.append(copy.deepcopy(h) if ev["how"] == "deepcopy" else back(h))
        elif op == "shallow":
            hs.append(copy.copy(h) if ev["how"] == "copy" else h.copy())
        elif op == "slice":
            hs.append(h[::-1] if ev["step"] < 0 else h[ev["a"]:ev["b"]:ev["step"]])
        elif op in ("main", "sub") and els:
            {"main": main, "sub": sub}[op](self.cls, els[(ev["e"] - 1) % len(els)], ev["v"])
        elif op == "del" and len(h):
            del h[(ev["i"] - 1) % len(h)]
        elif op == "add":
            e = mk(self.cls, ev["v"], [])
            els.append(e)
            if ev["front"]:
                h.insert(0, e)
            else:
                h.append(e)
        elif op == "rev":
            h.reverse()
        elif op == "put" and len(h):
            e = copy.deepcopy(h[(ev["i"] - 1) % len(h)])
            els.append(e)
            h[(ev["e"] - 1) % len(h)] = e


class Values:
    """Objects without elements of their own, and copies of them."""

    def __init__(self, cls, first):
        self.cls = cls
        self.vs = [first]

    def shown(self, o):
        from specfile.options import Positionals
        cls = self.cls
        if cls == "parts":
            return S("T\n" + "\n".join(o.get_raw_section_data())) if hasattr(o, "get_raw_section_data") else S("C\n" + "\n".join(o.get_raw_data()))
        if cls == "section":
            return S("%" + o.id + "\n" + str(o))
        if cls == "options":
            return S(str(o))
        if isinstance(o, Positionals):
            return S(repr(list(o)))
        if cls in ("sources", "patches"):
            return S("\n".join(f"{s.number}|{s.location}|{[str(c) for c in s.comments]}" for s in o))
        if cls == "prepobj":
            return S("\n".join(o.get_raw_section_data()))
        return S("|".join([str(o), str(o.macros), str(o.autosave), str(o.sourcedir), str(o.path), str(o.force_parse)]))

    def dump(self):
        return {"el": [], "tx": [], "hs": [], "own": [], "eqe": [], "eqh": [], "vs": [self.shown(o) for o in self.vs],
                # (lines may be attached in different ways: parts are judged by their text alone)
                "eqv": [[(self.shown(a) == self.shown(b)) if self.cls == "parts" else (a == b) for b in self.vs] for a in self.vs]}

    def step(self, ev):
        op = ev["op"]
        o = self.vs[(ev["h"] - 1) % len(self.vs)]
        if op == "dup":
            if ev["how"] == "repr":
                if self.cls == "spec":
                    o.save()
                ok, x = exc(back, o)
                if not ok and type(x).__name__ == "RPMException":      # rpm does not accept it any more
                    x = copy.deepcopy(o)
                elif not ok:
                    raise x
                self.vs.append(x)
            else:
                self.vs.append(o[:] if ev["how"] == "slice" and self.cls == "section" else copy.deepcopy(o))
        elif op == "edit":
            exc(self.edit, o, ev["x"], ev["v"])
        elif op == "new" and self.cls == "parts":
            # the comments of a tag, in a list of their own
            t = self.vs[0]
            c = t[ev["x"] % len(t)].comments if len(t) else mk("tags", "x", []).comments
            self.vs.append([lambda: copy.copy(c), lambda: c[:], lambda: c.copy(), lambda: c[:1], lambda: c[::-1], lambda: type(c)(list(c), [])][ev["x"] % 6]())
        elif op == "new":
            q = str(o)
            p = os.path.join(docs.new_dir(), "test.spec") if ev["x"] % 2 else str(o.path)
            docs.write(p, [q[:-1] if q.endswith("\n") else q + "\n", q, q.replace("\n", "\n\n", 1)][ev["x"] % 3])
            ok, x = exc(type(o), p, o.sourcedir, o.autosave, list(o.macros), o.force_parse)
            self.vs.append(x if ok else copy.deepcopy(o))

    def edit(self, o, x, v):
        cls = self.cls
        if cls == "parts":
            if hasattr(o, "get_raw_section_data"):
                k = x % max(1, len(o))
                [lambda: o.__delitem__(k), lambda: o.insert(k, mk("tags", v, [])), lambda: o.append(mk("tags", v, [])), lambda: o[k].comments.append(v), lambda: o[k].comments.insert(0, v),
                 lambda: o[k].comments.clear(), lambda: o[k].comments.pop(), lambda: o.insert(k, type(o[0])("Name", v, ": ", o[0].comments)), lambda: o.insert(0, mk("tags", v, [])), lambda: o.__delitem__(0)][x % 10]()
            else:
                [lambda: o.append(v), lambda: o.insert(0, v), lambda: o.clear(), lambda: o.pop(), lambda: o.reverse(), lambda: o.extend([v, v])][x % 6]()
        elif cls == "section":
            [lambda: o.append(v), lambda: o.insert(0, v), lambda: o.options.positional.append(v), lambda: setattr(o.options, "n", v), lambda: o.__setitem__(0, v),
             lambda: o.data.append(v), lambda: o.__delitem__(-1), lambda: o.reverse(), lambda: setattr(o, "name", "build"), lambda: o.options.positional.clear()][x % 10]()
        elif cls == "options":
            [lambda: setattr(o, "p", x), lambda: setattr(o, "b", v), lambda: o.positional.append(v), lambda: setattr(o, "E", not o.E), lambda: o.__delitem__("p"),
             lambda: o.positional.clear(), lambda: o.positional.__setitem__(0, v), lambda: o.__setitem__("b", v)][x % 8]()
        elif cls == "positional":
            [lambda: o.append(v), lambda: o.insert(0, v), lambda: o.__setitem__(0, v), lambda: o.__delitem__(0), lambda: o.clear()][x % 5]()
        elif cls in ("sources", "patches"):
            [lambda: o.append(v), lambda: o.insert(0, v), lambda: o.__setitem__(0, v), lambda: o.__delitem__(0), lambda: o[-1].comments.append(v),
             lambda: setattr(o[0], "location", v), lambda: o.insert_numbered(x + 5, v), lambda: o.__delitem__(-1)][x % 8]()
        elif cls == "prepobj":
            [lambda: o.add_patch_macro(x, P=x), lambda: setattr(o.macros[0].options, "n", v), lambda: o.macros.__delitem__(0), lambda: setattr(o.macros[-1].options, "p", x),
             lambda: o.macros.reverse(), lambda: o.macros[0].options.positional.append(v), lambda: setattr(o.macros[0], "name", "%patch"), lambda: o.macros.append(mk("prep", v, []))][x % 8]()
        else:
            def lines():
                with o.lines() as q:
                    q.append("# " + v)

            def tags():
                with o.tags() as q:
                    q.summary.value = v
                    q.summary.comments.append(v)

            def sections():
                with o.sections() as q:
                    q[-1].append("# " + v)
                    q.reverse()
                    q.reverse()

            def dropped():
                with o.sections() as q:
                    del q[-1]

            def prep():
                with o.prep() as q:
                    q.add_patch_macro(x)

            def srcs():
                with o.sources() as q:
                    q.append(v)

            def defs():
                with o.macro_definitions() as q:
                    q[0].body = v
            [lines, tags, sections, dropped, prep, srcs, defs, lambda: o.macros.append((v, "1")), lambda: setattr(o, "autosave", not o.autosave), lambda: setattr(o, "sourcedir", f"/nonexistent/{v}"),
             lambda: setattr(o, "path", os.path.join(docs.new_dir(), "x.spec")), lambda: setattr(o, "force_parse", not o.force_parse), lambda: o.reload(), lambda: o.macros.clear(),
             lambda: o.add_changelog_entry(v, author="A", evr="1-1"), lambda: setattr(o, "version", v)][x % 16]()


class Specs:
    """Whole spec files, as the specification sees them."""
    TEXT = "Name: n\nVersion: 1\nRelease: 1\nSummary: %s\nLicense: MIT\n\n%%description\n\n%%changelog\n"

    def __init__(self, v):
        from specfile import Specfile
        self.d = docs.new_dir()
        for n in "AB":
            os.mkdir(os.path.join(self.d, n))
        p = os.path.join(self.d, "A", "test.spec")
        docs.write(p, self.TEXT % v["text"])
        self.vs = [Specfile(p, macros=[("vfm", v["macros"])])]

    def dump(self):
        def shown(o):
            ls = str(o).split("\n")
            return {"text": S(ls[3][9:]) if ls[3].startswith("Summary: ") and self.TEXT % ls[3][9:] == str(o) else S(str(o)), "macros": S(o.macros[0][1]) if len(o.macros) == 1 else S(str(o.macros)),
                    "autosave": "T" if o.autosave else "F", "dir": os.path.basename(str(o.sourcedir))}
        return {"el": [], "tx": [], "hs": [], "own": [], "eqe": [], "eqh": [], "vs": [shown(o) for o in self.vs], "eqv": [[a == b for b in self.vs] for a in self.vs]}

    def step(self, ev):
        op = ev["op"]
        o = self.vs[(ev["h"] - 1) % len(self.vs)]

        def put(o, v):
            with o.tags() as q:
                q.summary.value = v
        if op == "dup":
            if ev["how"] == "repr":
                o.save()
                self.vs.append(back(o))
            else:
                self.vs.append(copy.deepcopy(o))
        elif op == "set":
            f, v = ev["f"], ev["v"]
            if f == "text":
                put(o, v)
            elif f == "macros":
                o.macros[:] = [("vfm", v)]
            elif f == "autosave":
                o.autosave = v == "T"
            else:
                o.sourcedir = os.path.join(self.d, v)
        elif op == "within":
            if ev["how"] == "lines":
                with o.lines() as q:
                    c = copy.deepcopy(o)
                    q[3] = "Summary: " + ev["v"]
            elif ev["how"] == "sections":
                with o.sections() as q:
                    c = copy.deepcopy(o)
                    q[0][3] = "Summary: " + ev["v"]
            else:
                with o.tags() as q:
                    c = copy.deepcopy(o)
                    q.summary.value = ev["v"]
                    with c.tags() as x:      # a view of its own
                        if x is q:
                            x.summary.value = "shared"
            self.vs.append(c)
        elif op == "both":
            g = self.vs[(ev["g"] - 1) % len(self.vs)]
            with o.tags() as x, g.tags() as y:
                x.summary.value = ev["v"]
                y.summary.value = ev["w"]


class C20(Check):
    prop = "C20"
    case_limit = 60.0
    assumptions = ("a shallow copy of a Specfile, of Sources or of Options is not a list and is left out", "the options of a Section are shared by its shallow copies")

    def models(self):
        if self.thorough:
            yield "MC_C20", MC_CFG + " Size = 2\n MaxDepth = 5\n"
        yield "MC_C20", MC_LAST + " Size = 2\n MaxDepth = 3\n"

    def mc_init(self, init):
        return init

    # -- generated material
    def word(self, r):
        return r.choice(["a", "b", "x1", "7", "é", "%{v}", "a b", "it's", 'q"', "%(x)", "z" * 90, "c\\d", "<x>", "~1"])

    def section(self, r, cls):
        out = []
        n = r.randint(0, 4)
        if cls == "tags":
            for _ in range(n):
                out += r.choice([[], [], [""], ["", "# det", ""], ["%if 1"], ["# " + self.word(r)], ["text"], ["#" + self.word(r), "# y"]])
                out.append(r.choice(["", "", " "]) + r.choice(TAGN) + r.choice([": ", ":  ", ":"]) + self.word(r) + r.choice(["", "", " "]))
            out += r.choice([[], [""], ["%endif"], ["# r", ""]])
        elif cls == "comments":
            out = r.choice([[], ["", "# d", ""], ["x"]]) + [r.choice(["# ", "#", " # "]) + self.word(r) for _ in range(n)]
        elif cls == "changelog":
            out = r.choice([[], ["# p"], ["", "x"]])
            for i in range(n):
                out += [f"* Mon Jan 0{i + 1} 2024 A <a@b.c> - 1-{r.randint(1, 3)}"] + ["- " + self.word(r) for _ in range(r.randint(1, 2))] + r.choice([[], [""], ["", ""], ["", "", " "]])
        elif cls == "defs":
            for _ in range(n):
                out += r.choice([[], [], [""], ["# d", ""], ["Name: x"]])
                out.append(r.choice(["%global ", "%define ", "#global ", "%dnl %global ", " %global  "]) + r.choice(["a", "b", "c(x)"]) + " " + self.word(r))
            out += r.choice([[], ["Name: y", ""]])
        elif cls in ("prep", "prepobj"):
            for _ in range(n):
                out += r.choice([[], [], [""], ["# d"], ["cd x"]])
                out.append(r.choice(["%setup -q", "%setup -n x", "%patch0 -p1", "%patch -P 2 -p1", "%patch1 -b .x", "%autosetup -p1", "%autosetup -n x -p 2", "%autopatch -m 1", "%setup", "%patch 3 -p1", "%{?x:%patch4 -p1}"]))
            out += r.choice([[], ["make"], [""]])
        elif cls == "sourcelist":
            for _ in range(n):
                out += r.choice([[], [], [""], ["# c"]])
                out.append(self.word(r).strip() or "x")
            out += r.choice([[], [""], ["# r"]])
        elif cls == "sections":
            out = ["Name: x"]
            for _ in range(n):
                out.append("%" + r.choice(["build", "install", "files", "files sub", "package -n q", "description", "Build", "post -p /bin/sh"]))
                out += r.choice([[], ["x"], ["x", "y"], [""]])
        return out

    def pool(self, r):
        """Constructions of small objects, some alike."""
        w = lambda: self.word(r)
        out = []
        base = [w() for _ in range(2)]

        def arg():
            return r.choice(base) if r.random() < .75 else w()

        def lst():
            return [arg() for _ in range(r.choice([0, 0, 1, 2]))]
        fam = r.choice(["node", "token", "comment", "comments", "tag", "entry", "mdef", "macro", "options", "sle", "section", "evr", "prepmacro", "tagsource", "listsource", "tags", "changelog", "defs", "sourcelist", "prep", "sections"])
        for _ in range(r.randint(2, 5)):
            if fam == "node":
                b = r.choice(["x", "y"])
                out.append([fam, r.choice([f"%({b})", f"%[{b}]", f"%{{{b}}}", f"%{b}", b, f"%{{?{b}}}", f"%{{!?{b}}}", f"%{{?{b}:1}}", f"%{{!?{b}:1}}", f"%{{?{b}:2}}", f"%{{{b} -p}}", f"%{{lua:{b}}}", f"%{{expand:{b}}}", f"%?{b}", f"%!?{b}", f"%{{basename:{b}}}"])])
            elif fam == "token":
                out.append([fam, r.choice(["DEFAULT", "QUOTED", "DOUBLE_QUOTED", "WHITESPACE"]), arg()])
            elif fam == "comment":
                out.append([fam, arg(), r.choice(["# ", "#"])])
            elif fam == "comments":
                out.append([fam, lst(), lst()])
            elif fam == "tag":
                out.append([fam, r.choice(["Name", "name", "Version"]), arg(), r.choice([": ", ":"]), [lst(), lst()], r.choice(["", " "]), r.choice(["", "}"])])
            elif fam == "entry":
                out.append([fam, arg(), lst(), lst()])
            elif fam == "mdef":
                out.append([fam, r.choice(["m", "n"]), arg(), r.random() < .5, r.random() < .5, r.choice(["DNL", "HASH"]), r.choice(["", " "]), r.choice(["", "%{?x:"]), lst()])
            elif fam == "macro":
                out.append([fam, r.choice(["m", "n"]), r.choice(["", "p:"]), arg(), r.choice(["SPEC", "GLOBAL"]), r.random() < .5])
            elif fam == "options":
                out.append([fam, r.choice(["-p1", "-p 1", "-p1 -b x", "-b x -p1", "-p1 4", "-p1 5", "4", "-E -p1", "-p1 -E", "-b 'x y'", '-b "x y"', "", "-p2"])])
            elif fam == "sle":
                out.append([fam, arg(), [lst(), lst()]])
            elif fam == "section":
                out.append([fam, r.choice(["build", "install", "Build", "files"]), r.choice(["", "sub", "-n sub", "-n  sub"]), lst()])
            elif fam == "evr":
                out.append([fam, r.choice(["E", "N", "A"]), r.choice(["1", "2"]), r.choice(["1", "1.el9"]), r.choice([0, 1])])
            elif fam == "prepmacro":
                out.append([fam, r.choice(["%patch", "%patch1", "%setup"]), r.choice(["-p1", "-p1 4", "-p1 5", "-p 1", "-n x"]), r.choice([" ", "  "]), r.choice(["", "%{?x:"]), lst()])
            elif fam in ("tagsource", "listsource"):
                out.append([fam, arg(), [lst(), lst()], r.choice([0, 1])])
            else:
                out.append([fam, self.section(r, fam)])
                if len(out) > 1 and r.random() < .6:
                    q = list(out[0][1])
                    if q and r.random() < .8:
                        i = r.randrange(len(q))
                        x = r.random()
                        if x < .3:
                            del q[i]
                        elif x < .6:
                            q.insert(r.choice([i, len(q)]), r.choice(["", "# n", "x"]))
                        elif x < .9:
                            q[i] = q[i] + r.choice([" ", "x"])
                    out[-1] = [fam, q]
        if r.random() < .3:
            out.append(out[0])
        return out

    def expr(self, r, d=0):
        x = r.random()
        if d > 3 or x < .4:
            return r.choice([repr(self.word(r) * r.choice([1, 1, 5])), str(r.randint(0, 10 ** r.choice([1, 20]))), "None", "True", "False", "1.5", "b'x'", "''", repr("a\nb"), repr("\u2028\x85"), repr("'\""), "<E.A: 1>", repr("\udc80")])
        n = r.choice([0, 1, 1, 2, 3, 6])
        q = [self.expr(r, d + 1) for _ in range(n)]
        if x < .55:
            return "[" + ", ".join(q) + "]"
        if x < .7:
            return "(" + ", ".join(q) + ("," if n == 1 else "") + ")"
        if x < .8:
            return "{" + ", ".join(f"{k!r}: {v}" for k, v in zip("abcdef", q)) + "}"
        return r.choice("FG") + "(" + ", ".join((f"{'abcdef'[i]}={v}" if i >= n // 2 else v) for i, v in enumerate(q)) + ")"

    def cases(self):
        r = self.rng
        t = self.thorough
        none = {"el": [], "hs": [], "vs": []}
        for k in range(6000 if t else 900):
            cls = r.choice(LISTS)
            evs = [{"op": "look"}]
            for j in range(r.randint(3, 9)):
                op = r.choice(["deep", "deep", "deep", "shallow", "shallow", "slice"] if j == 0 else ["deep", "shallow", "slice", "main", "main", "sub", "sub", "del", "del", "del", "add", "rev", "put"])
                if op == "sub" and not can_sub(cls):
                    op = "main"
                ev = {"op": op, "h": r.randint(1, 4)}
                if op == "deep":
                    ev["how"] = r.choice(["deepcopy", "deepcopy", "repr"])
                if op == "shallow":
                    ev["how"] = r.choice(["copy", "copy()"])
                if op == "slice":
                    ev.update(r.choice([{"a": 0, "b": 9, "step": 1}, {"a": 1, "b": 9, "step": 1}, {"a": 0, "b": 1, "step": 1}, {"a": 0, "b": 9, "step": 2}, {"a": 0, "b": 0, "step": -1}]))
                if op in ("main", "sub"):
                    ev["e"] = r.randint(1, 8)
                    ev["v"] = r.choice(["v1", "v2", "11"])
                if op == "del":
                    ev["i"] = r.randint(1, 4)
                if op == "add":
                    ev["v"] = r.choice(["n1", "n2"])
                    ev["front"] = cls not in ("tags",) and r.random() < .5
                if op == "put":
                    ev["i"] = r.randint(1, 4)
                    ev["e"] = r.randint(1, 4)
                evs.append(ev)
            yield {"id": f"l{k}", "init": {**none, "cls": cls, "doc": self.section(r, cls)}, "ev": evs}
        for k in range(6000 if t else 1000):
            cls = r.choice(VALUES + ["spec", "spec"])
            doc = self.doc(r, cls)
            evs = [{"op": "look"}]
            for j in range(r.randint(2, 9)):
                op = "dup" if j == 0 else r.choice(["dup", "edit", "edit", "edit", "edit"] + (["new"] if cls == "spec" else ["new", "new"] if cls == "parts" else []))
                evs.append({"op": op, "h": r.randint(1, 4), "how": r.choice(["deepcopy", "deepcopy", "repr"] + (["slice"] if cls == "section" else [])), "x": r.randint(0, 15), "v": f"v{r.randint(1, 9)}"})
            yield {"id": f"v{k}", "init": {**none, "cls": cls, "doc": doc}, "ev": evs}
        for k in range(6000 if t else 900):
            yield {"id": f"e{k}", "init": {**none, "cls": "eq", "doc": []}, "ev": [{"op": "eq", "objs": self.pool(r)}]}
        for k in range(2000 if t else 300):
            yield {"id": f"f{k}", "init": {**none, "cls": "fmt", "doc": []}, "ev": [{"op": "fmt", "e": self.expr(r), "w": r.choice([80, 80, 40, 10, 1])} for _ in range(4)]}

    def doc(self, r, cls):
        if cls == "spec":
            q = ["%global v 1", "Name: n", "Version: %{v}", "Release: 1", "Summary: s", "License: MIT"] + r.choice([["Source0: a"], ["Source0: a", "Patch0: b"]]) + ["", "%description", "d"]
            return q + r.choice([[], ["%prep", "%setup -q"], ["%prep", "%autosetup"]]) + r.choice([[], ["", "%changelog", "* Mon Jan 01 2024 A <a@b.c> - 1-1", "- x"]]) + ([""] if r.random() < .7 else [])
        if cls == "section":
            return [r.choice(["%files", "%files sub", "%package -n q", "%post -p x", "%description"])] + r.choice([[], ["x"], ["x", "y", ""]])
        if cls in ("options", "positional"):
            return [r.choice(["", "-p1", "-p1 -b x", "-p 1 4 5", "a b", "-E", "-b 'x y' q"])]
        if cls in ("sources", "patches"):
            n = "Source" if cls == "sources" else "Patch"
            return r.choice([[], [f"{n}0: a"], [f"{n}0: a", "# c", f"{n}1: b"], [f"{n}: a", f"{n}: b"], [f"{n}5: a"]]) + r.choice([[], [f"%{n.lower()}list", "l1", "# k", "l2"]])
        if cls == "parts":
            q = []
            for _ in range(r.randint(1, 4)):
                q += r.choice([[], [""], ["%endif"], ["%if 1"], ["", "%endif", ""], ["text"], ["%endif", "x"]]) + r.choice([[], [], ["# c"], ["# c", "#d"]]) + [r.choice(TAGN) + ": " + r.choice("abc")]
            return q + r.choice([[], ["%endif"], ["", "%endif"]])
        return self.section(r, cls)

    # -- the real code
    def load(self, init):
        from specfile import Specfile
        from specfile.options import Options
        from specfile.prep import PatchMacro, Prep
        from specfile.sections import Sections
        cls, doc = init["cls"], init.get("doc")
        if cls == "spec" and doc is None:
            return Specs(init["vs"][0])
        if doc is None:
            C = container(cls)
            return Lists(cls, C([mk(cls, e["m"], e["s"]) for e in init["el"]]))
        if cls in LISTS:
            return Lists(cls, self.parsed(cls, doc))
        if cls == "spec":
            d = docs.new_dir()
            p = os.path.join(d, "test.spec")
            docs.write(p, "\n".join(doc))
            o = Specfile(p)
        elif cls == "parts":
            o = self.parsed("tags", doc)
        elif cls == "section":
            o = Sections.parse(doc)[-1]
        elif cls in ("options", "positional"):
            o = Options(Options.tokenize(doc[0]), PatchMacro.OPTSTRING, PatchMacro.DEFAULTS)
            if cls == "positional":
                o = o.positional
        elif cls in ("sources", "patches"):
            from specfile.sourcelist import Sourcelist
            from specfile.sources import Patches, Sources
            from specfile.tags import Tags
            ss = Sections.parse(doc)
            o = (Sources if cls == "sources" else Patches)(Tags.parse(ss[0]), [Sourcelist.parse(x) for x in ss[1:]])
        elif cls == "prepobj":
            from specfile.sections import Section
            o = Prep.parse(Section("prep", data=doc))
        return Values(cls, o)

    def parsed(self, cls, doc):
        from specfile.prep import Prep
        from specfile.sections import Section, Sections
        from specfile.tags import Comments
        C = container(cls)
        if cls == "comments":
            return Comments.parse(doc)
        if cls == "sections":
            return Sections.parse(doc)
        if cls == "prep":
            return Prep.parse(Section("prep", data=doc)).macros
        if cls == "defs":
            return C.parse(doc)
        return C.parse(Section({"tags": "package", "changelog": "changelog", "sourcelist": "sourcelist"}[cls], data=doc))

    def run(self, case):
        out = []
        init = case["init"]
        if init["cls"] == "eq":
            return [self.compare(ev["objs"]) for ev in case["ev"]]
        if init["cls"] == "fmt":
            return [self.fmt(ev) for ev in case["ev"]]
        w = self.load(init)
        for ev in case["ev"]:
            err = ""
            if ev["op"] != "look":
                ok, x = exc(w.step, ev)
                if not ok:
                    err = S(repr(x))
            out.append({**w.dump(), "err": err})
        return out

    def fmt(self, ev):
        from specfile.formatter import format_expression

        class E:
            A = "E.A"

        def mark(n):
            return lambda *a, **k: (n, a, tuple(sorted(k.items())))
        ns = {"E": E, "F": mark("F"), "G": mark("G")}

        def val(t):
            return eval(re.sub(r"<E\.A: 1>", "E.A", t), dict(ns))
        ok, t = exc(format_expression, ev["e"], ev["w"])
        return {"same": exc(lambda: val(t) == val(ev["e"])) == (True, True) if ok else S(repr(t))}

    def build(self, q):
        """(object, text, kind)"""
        from specfile.changelog import ChangelogEntry
        from specfile.macro_definitions import CommentOutStyle, MacroDefinition
        from specfile.macros import Macro, MacroLevel
        from specfile.options import Options, Token, TokenType
        from specfile.prep import PatchMacro, SetupMacro
        from specfile.sections import Section
        from specfile.sourcelist import SourcelistEntry
        from specfile.sources import ListSource, TagSource
        from specfile.tags import Comment, Comments, Tag
        from specfile.utils import EVR, NEVR, NEVRA
        from specfile.value_parser import ValueParser
        fam, a = q[0], q[1:]
        kind = S(repr(q))

        def coms(x):
            return Comments([Comment(t) for t in x[0]], x[1])

        def ctext(x):
            return "\n".join(x[1] + ["# " + t for t in x[0]])
        if fam == "node":
            o = ValueParser.parse(a[0])[0]
            return o, str(o), kind
        if fam == "token":
            o = Token(getattr(TokenType, a[0]), a[1])
            return o, str(o), kind
        if fam == "comment":
            o = Comment(*a)
            return o, str(o), kind
        if fam == "comments":
            o = coms(a)
            return o, ctext(a), kind
        if fam == "tag":
            o = Tag(a[0], a[1], a[2], coms(a[3]), True, a[4], a[5])
            return o, ctext(a[3]) + "\n" + a[4] + a[0] + a[2] + a[1] + a[5], kind
        if fam == "entry":
            o = ChangelogEntry(*a)
            return o, "\n".join([a[0]] + a[1] + a[2]), kind
        if fam == "mdef":
            o = MacroDefinition(a[0], a[1], a[2], a[3], getattr(CommentOutStyle, a[4]), (a[5], " ", " ", ""), a[6], True, a[7])
            return o, "\n".join(o.get_raw_data() if hasattr(o, "get_raw_data") else a[7] + [str(o)]), kind
        if fam == "macro":
            o = Macro(a[0], a[1] or None, a[2], getattr(MacroLevel, a[3]), a[4])
            return o, repr(a), kind
        if fam == "options":
            o = Options(Options.tokenize(a[0]), PatchMacro.OPTSTRING, PatchMacro.DEFAULTS)
            return o, a[0], kind
        if fam == "sle":
            return SourcelistEntry(a[0], coms(a[1])), ctext(a[1]) + "\n" + a[0], kind
        if fam == "section":
            from specfile.constants import SECTION_OPTIONS
            o = Section(a[0], Options(Options.tokenize(a[1]), SECTION_OPTIONS.get(a[0].lower())), " " if a[1] else "", "\n", list(a[2]))
            return o, str(o), kind
        if fam == "evr":
            kw = {"epoch": a[3], "version": a[1], "release": a[2]}
            o = EVR(**kw) if a[0] == "E" else NEVR(name="n", **kw) if a[0] == "N" else NEVRA(name="n", arch="noarch", **kw)
            return o, str(o), kind
        if fam == "prepmacro":
            C = SetupMacro if a[0] == "%setup" else PatchMacro
            o = C(a[0], Options(Options.tokenize(a[1]), C.OPTSTRING, C.DEFAULTS), a[2], a[3], "", list(a[4]))
            return o, "\n".join(o.get_raw_data()), kind
        if fam == "tagsource":
            return TagSource(Tag("Source", a[0], ": ", coms(a[1])), a[2]), ctext(a[1]) + "\n" + a[0], kind
        if fam == "listsource":
            return ListSource(SourcelistEntry(a[0], coms(a[1])), a[2]), ctext(a[1]) + "\n" + a[0], kind
        o = self.parsed(fam, a[0])
        return o, "\n".join(raw(fam, o)), kind

    def compare(self, objs):
        bs = [self.build(q) for q in objs]
        os_ = [b[0] for b in bs]
        eq = [[bool(a == b) for b in os_] for a in os_]
        ok = all(((a == b) != (a != b)) for a in os_ for b in os_)
        for a in os_:
            for b in os_:
                if type(a).__hash__ is not None and type(b).__hash__ is not None and "__eq__" in dir(type(a)) and a == b and exc(hash, a)[0]:
                    ok = ok and (type(a).__eq__ is object.__eq__ or hash(a) == hash(b))

        def evals(o):
            k, x = exc(back, o)
            return bool(k and x == o and type(x) is type(o) and repr(x) == repr(o)) or (S(repr(x)) if not k else "differs")

        def copied(o):
            k, x = exc(copy.deepcopy, o)
            return bool(k and x == o and x is not o and type(x) is type(o) and repr(x) == repr(o)) or (S(repr(x)) if not k else "differs")
        return {"eq": eq, "hash": ok, "text": [S(b[1]) for b in bs], "kind": [b[2] for b in bs], "back": [evals(o) for o in os_], "copy": [copied(o) for o in os_]}


def make(tier, seed):
    return C20(tier, seed)
