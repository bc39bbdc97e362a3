"""Calls of the file list reader (run in the fork server)."""
import logging, os


def lists(cases):
    """For each case: {"v": the list} or {"e": class, "m": message}."""
    from file_utils import create_file_list
    from parse_tools import CCPPError
    lg = logging.getLogger("fileops")
    lg.handlers = [logging.NullHandler()]
    lg.propagate = False
    res = []
    for c in cases:
        os.chdir(c["cwd"])
        try:
            res.append({"v": create_file_list(c["files"], c["sufs"], "Test", lg, **c["kw"])})
        except CCPPError as x:
            res.append({"e": "CCPPError", "m": str(x)})
        except Exception as x:
            res.append({"e": type(x).__name__, "m": str(x)})
    os.chdir("/")
    return res
