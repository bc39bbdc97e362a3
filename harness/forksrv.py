"""Fork server run under the repository's Python: every request is executed in
a forked child in which the real code has been imported but nothing has run
yet, so that each request sees a fresh program.
Request (one JSON line): {"script": path, "argv": [...], "cwd": dir} runs a
command line tool as __main__;  {"ops": file, "fn": name, "arg": x} calls a
function of a file of the harness.  Answer: {"rc", "out", "val"}."""
import sys, os, json, importlib, runpy, io, traceback, signal, importlib.util


def child(req, w):
    rc, val = 0, None
    out = io.StringIO()
    real = sys.stdout, sys.stderr
    signal.alarm(int(req.get("timeout", 60)))
    if req.get("cwd"):
        os.chdir(req["cwd"])
    r1, f1 = None, os.path.join(req["tmp"], "o%d" % os.getpid())
    fd = os.open(f1, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = sys.stderr = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), write_through=True)
    try:
        if "script" in req:
            sys.argv = [req["script"]] + req["argv"]
            sys.path.insert(0, os.path.dirname(req["script"]))
            runpy.run_path(req["script"], run_name="__main__")
        else:
            sp = importlib.util.spec_from_file_location("ops", req["ops"])
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            val = getattr(m, req["fn"])(req["arg"])
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        rc = rc & 0xff
    except BaseException:
        rc = 1
        traceback.print_exc()
        print("UNCAUGHT")
    try:
        sys.stdout.flush()
    except Exception:
        pass
    with open(f1, "rb") as f:
        text = f.read().decode("utf8", "replace")
    os.unlink(f1)
    data = json.dumps({"rc": rc, "out": text[-4000000:], "val": val}).encode()
    while data:
        n = os.write(w, data)
        data = data[n:]
    os._exit(0)


def main():
    for m in sys.argv[1:]:
        try:
            importlib.import_module(m)
        except BaseException:
            pass
    inp = os.fdopen(os.dup(0), "r")
    outf = os.fdopen(os.dup(1), "w")
    for line in inp:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(req, w)
            finally:
                os._exit(7)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not buf:
            buf = json.dumps({"rc": 200 + (status & 0x7f), "out": "UNCAUGHT: killed by signal %d" % (status & 0x7f), "val": None}).encode()
        outf.write(buf.decode() + "\n")
        outf.flush()


if __name__ == "__main__":
    main()
