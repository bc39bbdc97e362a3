"""Run command line tools one after another in this process (argument: a JSON
file with "steps" [{script, argv, cwd, log}], "dir": how directory listings are
ordered).  Writes the exit codes to the file "res"."""
import contextlib, json, os, runpy, sys, traceback

job = json.load(open(sys.argv[1]))
k = job["dir"]
_listdir, _scandir = os.listdir, os.scandir


def order(names, key):
    names = sorted(names, key=key)
    if k == 1:
        names.reverse()
    elif k == 2:
        names = names[1::2] + names[::2]
    return names


def listdir(*a):
    return order(_listdir(*a), lambda x: x)


class Scan:
    def __init__(self, *a):
        with _scandir(*a) as it:
            self.it = iter(order(list(it), lambda e: e.name))

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


os.listdir, os.scandir = listdir, Scan
rcs = []
path0 = list(sys.path)
for s in job["steps"]:
    os.chdir(s["cwd"])
    sys.argv = [s["script"]] + s["argv"]
    sys.path[:] = [os.path.dirname(s["script"])] + path0
    rc = 0
    with open(s["log"], "w") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        try:
            runpy.run_path(s["script"], run_name="__main__")
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            rc = 1
            traceback.print_exc()
    rcs.append(rc)
json.dump(rcs, open(job["res"], "w"))
