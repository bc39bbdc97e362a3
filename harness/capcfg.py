"""Random suite configurations for the life-cycle / order specification, as
TLA+ data (module CapCfg) and as a capgen project."""
from capgenlab import *

PH = ["register", "init", "ts_init", "run", "ts_final", "final"]


def q(s):
    return '"%s"' % s


def rand_config(rng, nsuites=None, depth=2, subcycles=True, big=False):
    ns = nsuites or rng.choice([1, 2, 2, 3])
    pool = rng.sample(["alpha", "beta", "gamma", "delta", "alp", "zeta", "run_it", "x1",
                       "init_stuff", "beta_b"], rng.randint(2, 5))
    entry = {}
    for c in pool:
        ph = [p for p in PH if rng.random() < 0.55]
        if rng.random() < 0.9 and "run" not in ph:
            ph.append("run")
        if not ph:
            ph = ["init"]
        rng.shuffle(ph)
        entry[c] = {p: rng.choice(SPELL[p]) for p in ph}
    names = rng.sample(["s", "st", "suite_one", "mid", "s_x", "Tiny"], ns)

    def items(d):
        out = []
        for _ in range(rng.randint(1, 3)):
            if d > 0 and subcycles and rng.random() < 0.45:
                out.append({"loop": rng.choice(["1", "2", "3", "num_subcycles", "num_subcycles"]),
                            "items": items(d - 1)})
            else:
                out.append(rng.choice(pool))
        return out
    suites = []
    for n in names:
        gn = rng.sample(["g1", "g2", "phys", "before", "after", "g"], rng.randint(1, 3))
        suites.append({"name": n, "groups": [{"name": g, "items": items(depth)} for g in gn]})
    used = set()

    def walk(its):
        for i in its:
            if isinstance(i, str):
                used.add(i)
            else:
                walk(i["items"])
    for s in suites:
        for g in s["groups"]:
            walk(g["items"])
    return {"suites": suites, "entry": entry, "pool": pool}


def tla_items(its):
    o = []
    for i in its:
        if isinstance(i, str):
            o.append('[k |-> "s", n |-> %s]' % q(i))
        else:
            c = -1 if not i["loop"].isdigit() else int(i["loop"])
            o.append('[k |-> "l", c |-> %d, b |-> %s]' % (c, tla_items(i["items"])))
    return "<< " + ", ".join(o) + " >>"


def tla_cfg(cfg, failtags, badsuites, badparts, loopvals, threads=(0,)):
    L = ["---- MODULE CapCfg ----", "EXTENDS Naturals, Integers, Sequences, TLC"]
    L.append("Suites == {" + ", ".join(q(s["name"]) for s in cfg["suites"]) + "}")
    L.append("Parts == " + " @@ ".join(
        "(%s :> << %s >>)" % (q(s["name"]), ", ".join(
            "<< %s, %s >>" % (q(g["name"]), tla_items(g["items"])) for g in s["groups"]))
        for s in cfg["suites"]))
    L.append("Entry == " + " @@ ".join(
        "(%s :> {%s})" % (q(c), ", ".join(q(p) for p in e)) for c, e in cfg["entry"].items()))
    L.append("BadSuites == {" + ", ".join(q(x) for x in badsuites) + "}")
    L.append("BadParts == {" + ", ".join(q(x) for x in badparts) + "}")
    L.append("FailTags == {" + ", ".join("<<%s, %s>>" % (q(a), q(b)) for a, b in failtags) + "}")
    L.append("LoopVals == {" + ", ".join(str(v) for v in loopvals) + "}")
    L.append("Threads == {" + ", ".join(map(str, threads)) + "}")
    L.append(f"LoopInit == {loopvals[0]}")
    L.append("====")
    return "\n".join(L) + "\n"


HOSTPOOL = [
    ("hq", "air_quantity", "K", ("horizontal_dimension", "vertical_layer_dimension"), ["ncols", "nlev"], {}),
    ("hi", "interface_quantity", "Pa", ("horizontal_dimension", "vertical_interface_dimension"), ["ncols", "nlevp"], {}),
    ("hs", "surface_quantity", "m", ("horizontal_dimension",), ["ncols"], {}),
    ("hc", "scalar_quantity", "s", (), None, {}),
    ("ho", "optional_quantity", "kg", ("horizontal_dimension",), ["ncols"], {"active": "(scalar_flag)"}),
]


def dim_args(hdim):
    """Schemes declare the dimensions of their arrays (as all example schemes do)."""
    return [A("ncol", hdim, "count", (), "integer", None, "in", log=False),
            A("nz", "vertical_layer_dimension", "count", (), "integer", None, "in", log=False),
            A("nzi", "vertical_interface_dimension", "count", (), "integer", None, "in", log=False)]


def rand_args(rng, phase, produced):
    """Arguments that do not influence which schemes run."""
    hdim = "horizontal_loop_extent" if phase == "run" else "horizontal_dimension"
    out = dim_args(hdim)
    for ln, sn, un, dims, shape, props in HOSTPOOL:
        if rng.random() > 0.3:
            continue
        d = tuple(hdim if x == "horizontal_dimension" else x for x in dims)
        pr = {"optional": "True"} if "active" in props else {}
        if rng.random() < 0.3 and un in ("m", "Pa", "s"):
            un = {"m": "cm", "Pa": "hPa", "s": "min"}[un]
        out.append(A(ln, sn, un, d, intent=rng.choice(["in", "inout", "in"]), log=False, **pr))
    if rng.random() < 0.15:
        # owned by the suite (or by the group)
        v = rng.choice(["va", "vb"])
        d = rng.choice([("horizontal_loop_extent",) if phase == "run" else ("horizontal_dimension",)])
        out.append(A(v, v + "_of_suite_%s" % phase, "1", d, intent="out", log=False,
                     code=f"{v} = 1"))
    return out


def project(d, cfg, rng, args=True, **kw):
    schemes = []
    for c in cfg["pool"]:
        schemes.append(Scheme(c, {f"{p}:{sp}": rand_args(rng, p, None) if args and p != "register" else []
                                  for p, sp in cfg["entry"][c].items()},
                              fail_late=rng.random() < 0.5))
    rng.shuffle(schemes)
    hv = [HostVar("nsub", "num_subcycles", "count", (), "integer", None, init="1")]
    if args:
        hv.append(HostVar("hflag", "scalar_flag", "flag", (), "logical", None, init=".true.", log=False))
        for ln, sn, un, dims, shape, props in HOSTPOOL:
            hv.append(HostVar(ln, sn, un, dims, shape=shape, init=f"{ln} = 1" if shape else "1.0", log=False, **props))
    p = Project(d, cfg["suites"], schemes, hv, **kw)
    p.driver_extra = ("    case ('setn')\n      read(a1,*) nsub\n      write(*,'(a)') '=>ok'\n"
                      "    case ('thread')\n      read(a1,*) vthread\n      write(*,'(a)') '=>ok'")
    p.write()
    return p
