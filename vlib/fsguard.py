"""Stand-ins for the calls that create, change or remove files: a call that
would reach outside the given root is recorded and refused."""
import builtins
import contextlib
import os
import shutil


class Escape(Exception):
    pass


@contextlib.contextmanager
def guard(root):
    root = os.path.realpath(root)
    log = []

    def ok(p):
        try:
            q = os.path.realpath(os.fspath(p))
        except TypeError:
            return True
        return q == root or q.startswith(root + os.sep) or q == "/dev/null"

    saved = {}

    def wrap(mod, name, idxs, write=None):
        if not hasattr(mod, name):
            return
        real = getattr(mod, name)
        saved[(mod, name)] = real

        def stub(*a, **k):
            if write is None or write(a, k):
                for i in idxs:
                    if i < len(a) and not isinstance(a[i], int):
                        p = a[i]
                        if "dir_fd" in k and k["dir_fd"] is not None:
                            continue
                        if not ok(p):
                            log.append((name, os.fspath(p)))
                            raise Escape("%s(%r) outside the scratch directory" % (name, p))
            return real(*a, **k)

        setattr(mod, name, stub)

    def wr(a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        return any(c in mode for c in "wax+")

    wrap(builtins, "open", [0], wr)
    for n in ("remove", "unlink", "rmdir", "mkdir", "makedirs", "removedirs", "truncate", "chmod", "utime", "mkfifo"):
        wrap(os, n, [0])
    for n in ("rename", "replace", "renames", "link"):
        wrap(os, n, [0, 1])
    wrap(os, "symlink", [1])
    for n in ("copyfile", "copy", "copy2", "copytree", "copymode", "copystat"):
        wrap(shutil, n, [1])
    wrap(shutil, "move", [0, 1])
    wrap(shutil, "rmtree", [0])
    try:
        yield log
    finally:
        for (mod, name), real in saved.items():
            setattr(mod, name, real)
