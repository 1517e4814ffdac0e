"""Running the real converter in process, in scratch directories."""
import logging
import os
import shutil
import tempfile

from .common import scratch, tb_short

_n = 0


class _Cap(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class Outcome:
    __slots__ = ("ok", "error", "ret", "out", "conv", "log", "files")

    def __init__(self):
        self.ok = False
        self.error = None
        self.ret = None
        self.out = None
        self.conv = None
        self.log = []
        self.files = {}


def fresh_helper_state():
    """Forget the process-wide helper object (what a new process would have)."""
    try:
        from paconvert.utils import UtilsFileHelper

        UtilsFileHelper._instance = None
    except Exception:
        pass


def new_dir(prefix="c"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch())


def make_converter(capture=False, **kw):
    from paconvert.converter import Converter

    logging.disable(logging.NOTSET)
    kw.setdefault("log_level", "WARNING" if capture else "CRITICAL")
    import io, contextlib

    with contextlib.redirect_stderr(io.StringIO()):
        c = Converter(log_dir=None, **kw)
    lg = getattr(c, "logger", None)
    cap = None
    if lg is not None:
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.propagate = False
        if capture:
            cap = _Cap()
            lg.addHandler(cap)
        else:
            lg.addHandler(logging.NullHandler())
    return c, cap


def convert(code, capture=False, name="a.py", keep_state=False, **kw):
    """Convert one program; never raises for errors of the code under test."""
    kw.setdefault("no_format", True)
    d = new_dir()
    o = Outcome()
    try:
        inp = os.path.join(d, name)
        with open(inp, "w", encoding="UTF-8") as f:
            f.write(code)
        outp = os.path.join(d, "out", name)
        os.mkdir(os.path.join(d, "out"))
        if not keep_state:
            fresh_helper_state()
        try:
            c, cap = make_converter(capture, **kw)
            o.conv = c
            o.ret = c.run(inp, outp)
            with open(outp, encoding="UTF-8") as f:
                o.out = f.read()
            o.ok = True
            if cap:
                o.log = cap.lines
        except (Exception, RecursionError) as e:
            o.error = tb_short(e)
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def convert_tree(files, capture=False, keep_state=False, **kw):
    """Convert a project {relpath: text}; output files in .files."""
    kw.setdefault("no_format", True)
    d = new_dir()
    o = Outcome()
    try:
        src = os.path.join(d, "src")
        dst = os.path.join(d, "dst")
        for rel, text in files.items():
            p = os.path.join(src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="UTF-8") as f:
                f.write(text)
        if not keep_state:
            fresh_helper_state()
        try:
            c, cap = make_converter(capture, **kw)
            o.conv = c
            o.ret = c.run(src, dst)
            for base, _, fs in os.walk(dst):
                for fn in fs:
                    p = os.path.join(base, fn)
                    with open(p, encoding="UTF-8") as f:
                        o.files[os.path.relpath(p, dst)] = f.read()
            o.ok = True
            if cap:
                o.log = cap.lines
        except (Exception, RecursionError) as e:
            o.error = tb_short(e)
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)
