"""Calls of the metadata reader (run in the fork server)."""
import json, logging, os


def shown(v):
    if v is None:
        return ["(none)"]
    if isinstance(v, bool):
        return ["T" if v else "F"]
    if isinstance(v, (list, tuple)):
        return [str(x) for x in v]
    return [str(v)]


def read(arg):
    """For each file: the tables found in it, or the error; and the names of its schemes (a process for each)."""
    res = []
    for f in arg["files"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "w") as out:
                out.write(json.dumps(one(f, arg["keys"])))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as inp:
            s = inp.read()
        os.waitpid(pid, 0)
        res.append(json.loads(s) if s else ["died", "", None, None])
    return res


def one(f, keys):
    from framework_env import CCPPFrameworkEnv
    from metadata_table import parse_metadata_file, find_scheme_names
    lg = logging.getLogger("metaops")
    lg.handlers = [logging.NullHandler()]
    lg.propagate = False
    env = CCPPFrameworkEnv(lg, ndict={"host_files": "", "scheme_files": "", "suites": ""})
    try:
        tabs = parse_metadata_file(f, [], env)
        out = []
        for t in tabs:
            secs = [{"n": s.title, "t": s.header_type, "m": s.module, "p": s.process_type,
                     "v": [{"n": str(v.get_prop_value("local_name")), "ps": {k: shown(v.get_prop_value(k)) for k in keys}}
                           for v in s.variable_list()]} for s in t.sections()]
            out.append({"n": t.table_name, "t": t.table_type, "d": t.dependencies, "s": secs})
        try:
            names = list(find_scheme_names(f))
        except Exception as x:
            names = ["%s: %s" % (type(x).__name__, x)]
        return ["", "", out, names]
    except BaseException as x:
        return [type(x).__name__, str(x), None, None]
