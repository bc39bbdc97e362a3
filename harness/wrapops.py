"""Runs the real FortranWriter on statements (called in the fork server)."""
import os


def write(arg):
    from fortran_tools import FortranWriter
    res = []
    for k, (stmts, level, fill, mx) in enumerate(arg["items"]):
        f = os.path.join(arg["dir"], "w%d.F90" % k)
        kw = {} if fill is None else {"line_fill": fill, "line_max": mx}
        err = None
        try:
            with FortranWriter(f, "w", "d", "m", **kw) as w:
                w.write("! @@begin", 0)
                try:
                    w.write(stmts, level)
                except Exception as e:
                    err = "%s: %s" % (type(e).__name__, e)
                w.write("! @@end", 0)
            with open(f) as h:
                lines = h.read().split("\n")
            a, b = lines.index("! @@begin"), lines.index("! @@end")
            res.append([err, lines[a + 1:b]])
        except Exception as e:
            res.append([err or "%s: %s" % (type(e).__name__, e), []])
        if os.path.exists(f):
            os.unlink(f)
    return res
