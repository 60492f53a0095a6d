"""Shared pieces of drivers: scratch Specfile objects and document material."""
import os
import tempfile

import core
from core import S

BASE = """Name:           test
Version:        1.0
Release:        1%{?dist}
Summary:        Test package
License:        MIT

%description
Test

%prep

%changelog
"""

_dir = None


def workdir():
    """Scratch directory of this worker process (below the check's scratch)."""
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="w-", dir=core.scratch()))
    return _dir[1]


def new_dir():
    return tempfile.mkdtemp(prefix="d-", dir=workdir())


def write(path, text, encoding="utf-8"):
    with open(path, "w", encoding=encoding, errors="surrogateescape", newline="") as f:
        f.write(text)


def open_spec(text, name="test.spec", **kw):
    from specfile import Specfile
    d = new_dir()
    p = os.path.join(d, name)
    write(p, text)
    return Specfile(p, **kw)


def spec_with_lines(lines, **kw):
    """Specfile object with arbitrary (not necessarily valid) content."""
    spec = open_spec(BASE, **kw)
    with spec.lines() as target:
        target[:] = list(lines)
    return spec


def lines_of(spec):
    """Lines of the in-memory text."""
    with spec.lines() as lines:
        res = list(lines)
    if res and str(spec) != "\n".join(res) + "\n":
        return ["!str(spec) and lines() differ"]
    return res


def rpm_accepts(lines):
    """Whether rpm itself parses the document (asked directly)."""
    import rpm
    path = os.path.join(workdir(), "probe.spec")
    write(path, "\n".join(lines) + "\n")
    fd = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(2)
    os.dup2(fd, 2)
    try:
        rpm.reloadConfig()
        rpm.spec(path, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE)
        return True
    except ValueError:
        return False
    finally:
        rpm.reloadConfig()
        os.dup2(saved, 2)
        os.close(saved)
        os.close(fd)


class ViewCM:
    """A context manager kept open across the steps of a history."""

    def __init__(self, factory):
        self.factory = factory
        self.cm = None
        self.open()

    def open(self):
        self.cm = self.factory()
        self.value = self.cm.__enter__()

    def close(self):
        self.cm.__exit__(None, None, None)
        self.cm = self.value = None


def unslice(sl):
    return slice(*[None if x == 99999 else x for x in sl])


def rslice(r, n):
    lo, hi = -n - 2, n + 2
    return [r.choice([99999, r.randint(lo, hi)]), r.choice([99999, r.randint(lo, hi)]),
            r.choice([99999, 99999, 1, 2, -1, -2])]


def err_of(ok, e):
    if ok:
        return ""
    for t, n in ((IndexError, "index"), (AttributeError, "attr"), (ValueError, "value"), (KeyError, "key")):
        if isinstance(e, t):
            return n
    return S(repr(e))
