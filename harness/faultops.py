"""Operations of the fork server that interrupt a program: the process ends
abruptly (as if killed) just before its k-th change to the given directory."""
import os, runpy, sys


def killed(arg):
    root, left = os.path.realpath(arg["root"]), [arg["k"]]
    os.chdir(arg["cwd"])

    def inside(p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(root)
        except TypeError:
            return False

    def hook(ev, args):
        hit = False
        if ev == "open":
            m, fl = args[1], args[2]
            wr = isinstance(m, str) and any(x in m for x in "wax+") or isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR)
            hit = wr and isinstance(args[0], (str, bytes)) and inside(args[0])
        elif ev in ("os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link"):
            hit = inside(args[0])
        elif ev in ("subprocess.Popen", "os.system"):
            hit = True
        if hit:
            left[0] -= 1
            if left[0] <= 0:
                os._exit(9)
    sys.addaudithook(hook)
    sys.argv = [arg["script"]] + arg["argv"]
    sys.path.insert(0, os.path.dirname(arg["script"]))
    runpy.run_path(arg["script"], run_name="__main__")
