"""onestatic.py I DIR: build configuration I of C20 in DIR for inspection."""
import sys
sys.path[:0] = ["/verif/checks", "/verif/harness"]
from c20_data import *
i = int(sys.argv[1])
rng = random.Random(1 * 7577 + i)
cfg = rand_conf(rng, ["blocked", "chunked", "plain", "blocked"][i % 4])
d = sys.argv[2]
shutil.rmtree(d, True)
p = project(d, cfg, rng)
dbg = rng.random() < 0.3
print(p.generate(extra=["--debug"] if dbg else [])[0], p.compile())
