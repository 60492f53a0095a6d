"""C18: what parsing leaves behind."""
import builtins
import contextlib
import errno
import io
import logging
import os
import shutil
import sys
import tempfile

import docs
from core import MC_CFG, Check, S, exc

CONTENT = {"plain": "data", "include": "# included\n", "load": "%vfl 1\n", "shell": "text"}


class Full(io.RawIOBase):
    """A file on a full disk."""

    def __init__(self, path):
        super().__init__()
        os.close(os.open(path, os.O_CREAT | os.O_WRONLY, 0o644))

    def writable(self):
        return True

    def write(self, b):
        raise OSError(errno.ENOSPC, "No space left on device")


class C18(Check):
    prop = "C18"
    case_limit = 60.0
    assumptions = ("references to sources come after the Source tags", "included files do not include further missing files",
                   "included files do not have extensions of compressed archives", "a file is not both included and read by a shell expansion")

    def models(self):
        yield "MC_C18", MC_CFG + (" Size = 3\n MaxDepth = 1\n" if self.thorough else " Size = 2\n MaxDepth = 1\n")

    def cases(self):
        r = self.rng
        for k in range(5000 if self.thorough else 600):
            items = []
            for _ in range(r.randint(1, 5)):
                u = r.choice(["plain", "plain", "include", "load", "shell"])
                if u == "shell" and sum(i["use"] == "shell" for i in items) >= 2:
                    u = "plain"
                i = {"use": u, "src": True, "out": False, "long": False}
                if u in ("include", "load") and r.random() < .4:
                    i["src"] = False
                    i["out"] = r.random() < .4
                elif u == "plain" and r.random() < .05:
                    i["long"] = True
                items.append(i)

            def kind(i):
                x = r.choice(["absent", "absent", "absent", "file", "file", "file", "empty", "link", "dangling", "dir" if r.random() < .3 else "file", "loop" if r.random() < .3 else "absent"])
                return "absent" if i["long"] else x if not i["out"] or x in ("absent", "file") else "file"
            kinds = [kind(i) for i in items]
            evs = []
            for _ in range(r.randint(2, 5)):
                if r.random() < .3:
                    j = r.randrange(len(items))
                    evs.append({"op": "put", "j": j + 1, "kind": kind(items[j])})
                else:
                    evs.append({"op": "parse", "force": r.random() < .6, "fault": r.choice(["", "", "", "", "write", "vanish" if any(i["use"] == "plain" and i["src"] for i in items) else ""]),
                                "how": r.choice(["new", "new", "old"]), "lang": r.choice(["", "C", "cs_CZ.UTF-8", "-"]), "all": r.choice(["", "C", "-", "-"])})
            names = ["vf%d%s" % (j, r.choice([".tar.gz", ".zip", ".7z", ".xz", ".x", ""] if items[j]["use"] == "plain" else [".patch", "", ".x", ".inc"])) for j in range(len(items))]
            yield {"id": f"h{k}", "init": {"items": items, "kinds": kinds, "broken": r.random() < .15}, "ev": evs, "names": names,
                   "url": [r.choice(["", "", "https://e/a/", "https://e/b#/", "sub/"]) for _ in items], "early": r.random() < .3}
        i = {"use": "include", "src": True, "out": False, "long": False}
        yield {"id": "kf1", "kf": "interleaved-includes", "interleave": True, "init": {"items": [i, i], "kinds": ["absent", "absent"], "broken": False},
               "ev": [{"op": "parse", "force": True, "fault": "", "how": "new"}]}

    # ------------------------------------------------------------------------
    def text(self, case, names, out, vanish):
        init = case["init"]
        urls = case.get("url") or [""] * len(names)
        src, use, tags = [], [], {"Summary": "s", "URL": "https://u"}
        free = ["Summary", "URL"]
        for j, i in enumerate(init["items"]):
            ref = f"%{{SOURCE{j}}}" if i["src"] else os.path.join(out if i["out"] else "%{_sourcedir}", names[j])
            if i["src"]:
                src.append(f"Source{j}: {urls[j]}{names[j]}")
            if i["use"] == "include":
                use.append(f"%include {ref}")
            elif i["use"] == "load":
                use.append(f"%{{load:{ref}}}")
            elif i["use"] == "shell":
                tags[free.pop(0)] = f"%(cat {ref})"
        if case.get("interleave"):
            use = [x for p in zip(src, use) for x in p]
            src = []
        head = ["Name: test", "Version: 1", "Release: 1"] + ([] if init["broken"] and not case.get("early") else ["License: MIT"])
        if init["broken"] and case.get("early"):
            head.insert(0, "nonsense here")
        if vanish:
            use.append("%global vfgone %(rm -f " + " ".join("%{_sourcedir}/" + names[j] for j, i in enumerate(init["items"]) if i["use"] == "plain" and i["src"] and case["kindsnow"][j] == "absent") + ")")
        return "\n".join(head + src + [f"{n}: {v}" for n, v in tags.items()] + use + ["%description", ""])

    def put(self, path, kind, use):
        if os.path.islink(path) or os.path.isfile(path):
            os.unlink(path)
        elif os.path.isdir(path):
            os.rmdir(path)
        tgt = path + ".target"
        if os.path.exists(tgt):
            os.unlink(tgt)
        if kind in ("file", "empty"):
            docs.write(path, CONTENT[use] if kind == "file" else "")
        elif kind == "dir":
            os.mkdir(path)
        elif kind == "loop":
            os.symlink(os.path.basename(path), path)
        elif kind in ("link", "dangling"):
            os.symlink(tgt, path)
            if kind == "link":
                docs.write(tgt, CONTENT[use])

    def seen(self, path):
        if os.path.islink(path):
            t = os.readlink(path)
            return "loop" if t == os.path.basename(path) else "link" if os.path.exists(path) else "dangling"
        if os.path.isdir(path):
            return "dir"
        try:
            return "absent" if not os.path.exists(path) else "file" if os.path.getsize(path) else "empty"
        except OSError:
            return "absent"

    def snapshot(self, top):
        res = {}
        for root, dirs, files in os.walk(top):
            for n in dirs + files:
                p = os.path.join(root, n)
                st = os.lstat(p)
                data = os.readlink(p) if os.path.islink(p) else open(p, "rb").read() if os.path.isfile(p) else ""
                res[os.path.relpath(p, top)] = (st.st_ino, st.st_mode, st.st_mtime_ns if not os.path.isdir(p) else 0, data)
        return res

    def fds(self):
        res = []
        for f in sorted(int(x) for x in os.listdir("/proc/self/fd")):
            with contextlib.suppress(OSError):
                st = os.fstat(f)
                res.append((f, st.st_dev, st.st_ino) if f < 3 else f)
        return res

    def run(self, case):
        from specfile import Specfile
        logging.disable(logging.CRITICAL)
        init = case["init"]
        items, kinds = init["items"], list(init["kinds"])
        d = docs.new_dir()
        sd, out, tmp, sp = (os.path.join(d, n) for n in ("sd", "out", "tmp", "sp"))
        for p in (sd, out, tmp, sp):
            os.mkdir(p)
        names = case.get("names") or ["vf%d.tgz" % j for j in range(len(items))]
        names = ["l" * 300 if i["long"] else n for n, i in zip(names, items)]
        paths = [os.path.join(out if i["out"] else sd, n) for n, i in zip(names, items)]
        docs.write(os.path.join(sd, "bystander"), "b")
        docs.write(os.path.join(sd, "vf"), "")
        for p, k, i in zip(paths, kinds, items):
            if not i["long"]:
                self.put(p, k, i["use"])
        res, old = [], None
        spec_path = os.path.join(sp, "test.spec")
        count = 0
        for ev in case["ev"]:
            if ev["op"] == "put":
                j = ev["j"] - 1
                if not items[j]["long"]:
                    self.put(paths[j], ev["kind"], items[j]["use"])
                kinds[j] = ev["kind"]
                res.append({"kinds": [self.seen(p) for p in paths]})
                continue
            case["kindsnow"] = kinds
            docs.write(spec_path, self.text(case, names, out, ev["fault"] == "vanish"))
            count += 1
            saved = {}
            for var, key in (("LANG", "lang"), ("LC_ALL", "all")):
                saved[var] = os.environ.pop(var, None)
                if ev.get(key, "C") != "-":
                    os.environ[var] = ev.get(key, "C")
            tempdir = tempfile.tempdir
            tempfile.tempdir = tmp
            real = io.open

            def opened(file, mode="r", *a, **kw):
                if ev["fault"] == "write" and set(mode) & set("wax+") and str(file).startswith(sd + os.sep):
                    f = io.BufferedWriter(Full(file))
                    return f if "b" in mode else io.TextIOWrapper(f, write_through=True)
                return real(file, mode, *a, **kw)

            before, env, fds, err_obj = self.snapshot(d), dict(os.environ), self.fds(), sys.stderr
            x = None
            try:
                if ev["fault"] == "write":
                    io.open = builtins.open = opened
                if ev["how"] == "old" and old is not None:
                    old.force_parse = ev["force"]
                    with old.lines() as ls:
                        ls[:] = real(spec_path).read().split("\n")[:-1]
                    ok, x = exc(old.expand, "%name", extra_macros=[("vfcount", str(count))])
                    t = False
                    if ok:
                        with contextlib.suppress(Exception):
                            t = old.tainted
                else:
                    ok, x = exc(Specfile, spec_path, sourcedir=sd, force_parse=ev["force"])
                    t = False
                    if ok:
                        old, t = x, x.tainted
            finally:
                io.open = builtins.open = real
                tempfile.tempdir = tempdir
                after, env2 = self.snapshot(d), dict(os.environ)
                for var, v in saved.items():
                    os.environ.pop(var, None)
                    if v is not None:
                        os.environ[var] = v
            fds2 = self.fds()
            streams = "" if fds2 == fds and sys.stderr is err_obj else S(repr((fds, fds2)))
            diff = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
            res.append({"err": "" if ok else "rpm" if type(x).__name__ == "RPMException" else S(repr(x)), "tainted": bool(t),
                        "known": ok or type(x).__name__ == "RPMException",
                        "kinds": [self.seen(p) for p in paths], "touched": S(" ".join(n for n in diff if not n.startswith("tmp"))),
                        "temp": S(" ".join(n for n in diff if n.startswith("tmp/"))),
                        "env": "" if env == env2 else S(repr({k: (env.get(k), env2.get(k)) for k in set(env) | set(env2) if env.get(k) != env2.get(k)})), "streams": streams})
            x = None
        old = None
        shutil.rmtree(d)
        return res


def make(tier, seed):
    return C18(tier, seed)
