"""Sources and patches: shared by C07 and C08."""
import docs

LOCS = ["a.tar.gz", "http://h/%{m}.tgz", "https://host:80/x/y.zip#/z.zip", "b.patch", "%{m}", "c/d.txt", "ftp://h/a?n=b.tar",
        "%{m}/%{?n}x", "http:///x", "x=y", "p/x=y=z", "é.patch", "foo#bar", "http://h", "HTTP://h/q/", "file:///a", "a:b",
        "git+ssh://h/r#/s/t=u", "://h/x", "1http://h/x", "dir/"]


def build(init):
    """-> (sources object, tags, lists)"""
    from specfile.sections import Section
    from specfile.sourcelist import Sourcelist
    from specfile.sources import Patches, Sources
    from specfile.tags import Tags
    tags = Tags.parse(Section("package", data=list(init["pre"])))
    name = "sourcelist" if init["kind"] == "Source" else "patchlist"
    lists = [Sourcelist.parse(Section(name, data=list(x))) for x in init["lists"]]
    cls = Sources if init["kind"] == "Source" else Patches
    return cls(tags, lists, init.get("dup", False), init.get("impl", False), init.get("digits", 1)), tags, lists


def text(init):
    head = "%sourcelist" if init["kind"] == "Source" else "%patchlist"
    out = list(init["pre"])
    for x in init["lists"]:
        out += [head] + list(x)
    return out + ["%description", "x"]


def split(lines):
    parts = [[]]
    for x in lines:
        if x in ("%sourcelist", "%patchlist"):
            parts.append([])
        elif x == "%description":
            break
        else:
            parts[-1].append(x)
    return parts


def view(spec, init):
    f = spec.sources if init["kind"] == "Source" else spec.patches
    return docs.ViewCM(lambda: f(allow_duplicates=init.get("dup", False),
                                 default_to_implicit_numbering=init.get("impl", False),
                                 default_source_number_digits=init.get("digits", 1)))


def tagline(r, kind, num, locs):
    n = r.choice([kind] * 4 + [kind.upper(), kind.lower()])
    return n + num + r.choice([":", ": ", ":  ", " : ", ":        ", " :", ":\t"]) + r.choice(locs) + r.choice(["", "", "", " "])


def preamble(r, kind, locs, conds=True):
    out = []
    style = r.choice(["num", "pad", "impl", "mix", "wild"])
    n = r.choice([0, 0, 1, 9])
    for _ in range(r.randint(0, 7)):
        k = r.randrange(10)
        if k < 6:
            st = r.choice(["num", "pad", "impl"]) if style in ("mix", "wild") else style
            if style == "wild":
                n = r.choice([0, 1, 2, 3, 9, 10, 99, 100, 1000])
            out.append(tagline(r, kind, {"num": str(n), "pad": "%04d" % n, "impl": ""}[st], locs))
            n += r.choice([1, 1, 1, 2, 8])
        elif k == 6:
            out.append(tagline(r, "Patch" if kind == "Source" else "Source", r.choice(["", "0", "12"]), locs))
        else:
            out.append(r.choice(["# comment", "", "Name: x", "#c2", "Requires: y", "SourceLicense: MIT", "%global foo 1", "text"]
                                + (["%if 0", "%if 1", "%endif", "%else", "%endif"] if conds else [])))
    return out


def listlines(r, locs):
    return [r.choice([r.choice(locs), r.choice(locs), "", "# c", "  #d", " " + r.choice(locs) + " ", "  "])
            for _ in range(r.randint(0, 4))]
