"""C13: delimiting values into macro nodes."""
import random

from core import Check, S, exc

CFG = """SPECIFICATION Spec
CONSTANTS Which = %d
MaxLen = %d
INVARIANT Delimited Emit
PROPERTY StableClosed
CHECK_DEADLOCK FALSE
"""

FRAG = ["%", "%%", "%{", "%{?", "%{!?", "%{?!x:", "%{expand:", "%(", "%[", "{", "}", "(", ")",
        "[", "]", ":", "?", "!", " ", "  ", "\\", "\\}", "\\{", "*", "**", "#", "-", "a", "foo",
        "autorelease", "%autorelease", "%{autorelease}", "%{?dist}", "1", ".", "_x", "é", "\t",
        "%{?a:%{b}}", "%{?prerel:0.}", "%{quote:A B}", "%{lua:print(1)}", "%{foo -n x}",
        "%{-n*}", "%{!?x:%{?y:z}}", "%name", "%?name", "%!?name", "%1", "%#", "%*", "%{#}",
        "%{**}", "$", "~", "^", "&", "=", "%{a b:c}", "%{?a b:c}", "'", '"']


def node(n):
    from specfile import value_parser as vp
    r = dict(k="?" + type(n).__name__, prefix="", name="", args=[], body="", nodes=[])
    t = type(n)
    if t is vp.StringLiteral:
        r.update(k="lit", body=S(n.value))
    elif t is vp.ShellExpansion:
        r.update(k="shell", body=S(n.body))
    elif t is vp.ExpressionExpansion:
        r.update(k="expr", body=S(n.body))
    elif t is vp.MacroSubstitution:
        r.update(k="sub", prefix=S(n.prefix), name=S(n.name))
    elif t is vp.EnclosedMacroSubstitution:
        r.update(k="enc", prefix=S(n.prefix), name=S(n.name), args=[S(a) for a in n.args],
                 body=S(str(n)[2 + len(n.prefix) + len(n.name):-1]))
    elif t is vp.ConditionalMacroExpansion:
        r.update(k="cond", prefix=S(n.prefix), name=S(n.name), nodes=[node(x) for x in n.body])
    elif t is vp.BuiltinMacro:
        r.update(k="builtin", name=S(n.name), body=S(n.body))
    return r


def observe(v):
    from specfile.exceptions import UnterminatedMacroException
    from specfile.utils import count_brackets, split_conditional_macro_expansion
    from specfile.value_parser import ValueParser
    ok, r = exc(ValueParser.parse, v)
    o = {"ok": ok, "nodes": [], "text": "", "flat": [],
         "split": [S(x) for x in split_conditional_macro_expansion(v)],
         "brackets": [int(x) for x in count_brackets(v)]}
    if ok:
        o["nodes"] = [node(n) for n in r]
        o["text"] = S("".join(str(n) for n in r))
        o["flat"] = [node(n) for n in ValueParser.flatten(r)]
    elif not isinstance(r, UnterminatedMacroException):
        o["text"] = "!" + repr(r)
    return o


_spec = None


def spec():
    global _spec
    if _spec is None:
        import os
        import tempfile

        from core import scratch
        from specfile import Specfile
        d = tempfile.mkdtemp(dir=scratch())
        p = os.path.join(d, "x.spec")
        with open(p, "w") as f:
            f.write("Name: x\nVersion: 1\nRelease: 1\nSummary: x\nLicense: x\n\n%description\nx\n")
        _spec = Specfile(p)
    return _spec


class C13(Check):
    prop = "C13"
    assumptions = ("letters are ASCII or one of the accented letters the drivers use",)

    def models(self):
        t = self.thorough
        yield "MC_C13", CFG % (1, 5 if t else 4)
        for w in (2, 3, 4, 5):
            yield "MC_C13", CFG % (w, 6 if t and w != 5 else 5), {"deque": w == 5}

    def model_case(self, e):
        return {"init": {"k": "value"}, "ev": [{"op": "value", "v": e["v"], "exp": e["exp"]}]}

    def value(self, r):
        return "".join(r.choice(FRAG) for _ in range(r.randint(1, 9)))

    def nested(self, r, depth=0):
        """mostly well-formed values"""
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.randrange(9 if depth < 4 else 3)
            if k == 0:
                out.append(r.choice(["1.2", "foo", "-", "~rc1", "%%", "a b", "ř", "%%{x}", "\\{"]))
            elif k == 1:
                out.append(r.choice(["%name", "%{version}", "%?dist", "%{?dist}", "%{!?x}", "%*", "%**", "%1", "%#", "%-n", "%{-n*}"]))
            elif k == 2:
                out.append(r.choice(["autorelease", "%autorelease", "%{?autorelease}", "%{autorelease -b 3}", "%autorelease2", "%%autorelease", "%{autorelease:1}"]))
            elif k in (3, 4, 5):
                out.append("%{" + r.choice(["?", "!?", "?!", "!!?"]) + r.choice(["x", "with_y", "a"]) + ":" + self.nested(r, depth + 1) + "}")
            elif k == 6:
                out.append("%(" + r.choice(["echo ", "", "a | "]) + self.nested(r, depth + 1) + ")")
            elif k == 7:
                out.append("%[" + r.choice(["1+", "", "!"]) + self.nested(r, depth + 1) + "]")
            else:
                out.append("%{" + r.choice(["expand", "quote", "lua", "!x"]) + ":" + self.nested(r, depth + 1) + "}")
        return "".join(out)

    def cases(self):
        r = self.rng
        n = 40000 if self.thorough else 6000
        for k in range(n):
            v = self.value(r) if k % 2 else self.nested(r)
            yield {"id": f"v{k}", "init": {"k": "value"}, "ev": [{"op": "value", "v": v}]}
        for k in range(n // 5):
            v = self.nested(r).replace("\n", "").strip() or "1"
            lines = [self.nested(r).replace("autorelease", "autochangelog") for _ in range(r.randint(0, 3))]
            lines = [r.choice(["", "", "# ", "- ", "  #"]) + x for x in lines]
            yield {"id": f"u{k}", "init": {"k": "uses"}, "ev": [{"op": "uses", "v": v, "lines": lines}]}

    def run(self, case):
        out = []
        for ev in case["ev"]:
            if ev["op"] == "value":
                out.append(observe(ev["v"]))
            else:
                s = spec()
                with s.lines() as lines:
                    lines[:] = ["Name: x", "Release: " + ev["v"], "", "%changelog"] + ev["lines"]
                ok, a = exc(lambda: s.has_autorelease)
                ok2, b = exc(lambda: s.has_autochangelog)
                from specfile.exceptions import UnterminatedMacroException
                if not ok and isinstance(a, UnterminatedMacroException):
                    a = False
                out.append({"autorelease": a is True, "autochangelog": b is True if ok2 else False,
                            "raised": "" if ok2 else repr(b)})
        return out


def make(tier, seed):
    return C13(tier, seed)
