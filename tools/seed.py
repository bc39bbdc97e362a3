#!/usr/bin/env python3
"""Development aid: confirm a planted bug and record it.
   seed.py ID [--check]   reads /tmp/x/seeds/ID/{edit.py or patch.diff, demo.sh, meta.json, ...}"""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
src = f"/tmp/x/seeds/{sid}"
dst = f"/verif/seeded/{sid}"
if not os.path.isdir(src):
    src = dst
R = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


assert sh(f"git -C {R} status --short").stdout.strip() == "", "repo not clean"
meta = json.load(open(f"{src}/meta.json"))
d0 = sh(f"bash {src}/demo.sh", cwd=R)
print("demo clean:", d0.returncode, d0.stdout[-300:] if d0.returncode else "")
try:
    if os.path.exists(f"{src}/edit.py"):
        for e in [json.loads(x) if 0 else x for x in [None]]:
            pass
        ns = {}
        exec(open(f"{src}/edit.py").read(), ns)
        for path, old, new in ns["EDITS"]:
            p = f"{R}/{path}"
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {R} diff").stdout
        open(f"{src}/patch.diff", "w").write(diff)
    else:
        r = sh(f"git -C {R} apply {src}/patch.diff")
        assert r.returncode == 0, r.stdout
    st = sh("bash /verif/tools/stable.sh") if "--nostable" not in sys.argv else None
    if st:
        print("stable:", st.stdout.strip().splitlines()[0])
    d1 = sh(f"bash {src}/demo.sh", cwd=R)
    print("demo planted:", d1.returncode, d1.stdout[-300:])
    chk = None
    if "--check" in sys.argv:
        man = json.load(open("/verif/MANIFEST.json"))
        for c in man["checks"]:
            if c["property"] in [meta["property"]] + sys.argv[sys.argv.index("--check") + 1:]:
                r = sh(c["quick_cmd"] if "quick_cmd" in c else c["quick"]["cmd"], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                print("check", c["property"], r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "DISAGR" in l][:2])
finally:
    sh(f"git -C {R} checkout -- .")
ok = d0.returncode == 0 and d1.returncode != 0 and (st is None or "missing: []" in st.stdout)
print("OK" if ok else "NOT CONFIRMED")
if ok and src != dst:
    shutil.rmtree(dst, True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("edit.py", "__pycache__"))
