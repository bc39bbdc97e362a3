"""Calls of the Fortran reader (run in the fork server)."""
import logging, contextlib, io


def env(defs):
    from framework_env import CCPPFrameworkEnv
    lg = logging.getLogger("fortops")
    lg.handlers = [logging.NullHandler()]
    lg.propagate = False
    return CCPPFrameworkEnv(lg, ndict={"host_files": "", "scheme_files": "", "suites": "", "preproc_directives": defs})


def routines(arg):
    """Names of the subroutines found in each of the files, in one session."""
    from fortran_tools import parse_fortran_file
    e = env(arg["defs"])
    res = []
    for f in arg["files"]:
        try:
            r = parse_fortran_file(f, e)
            res.append([None, list(r[1])])
        except Exception as x:
            res.append(["%s: %s" % (type(x).__name__, x), []])
    return res


def verdicts(cases):
    """For each case [mode, metadata files]: "" if accepted, else the error."""
    import ccpp_capgen, logging
    res = []
    for mode, files in cases:
        e = env("")
        out = []
        class H(logging.Handler):
            def emit(self, rec):
                if rec.levelno >= logging.ERROR:
                    out.append(rec.getMessage())
        e.logger.handlers = [H()]
        try:
            if mode == "scheme":
                ccpp_capgen.parse_scheme_files(files, e)
            else:
                ccpp_capgen.parse_host_model_files(files, "host", e)
            res.append(["", ""])
        except Exception as x:
            res.append([type(x).__name__, str(x)])
    return res
