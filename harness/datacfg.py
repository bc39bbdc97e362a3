"""Random configurations for CapData.tla: hosts, suites and schemes whose
arguments need conversions, activation and suite storage."""
from capgenlab import *

FAMS = [("length", "m", 1, 0, "km", 1000, 0), ("depth", "cm", 1, 0, "m", 100, 0),
        ("gap", "mm", 1, 0, "m", 1000, 0), ("duration", "s", 1, 0, "min", 60, 0),
        ("age", "s", 1, 0, "h", 3600, 0), ("spell", "h", 1, 0, "d", 24, 0),
        ("pressure", "Pa", 1, 0, "hPa", 100, 0), ("humidity", "g kg-1", 1, 0, "kg kg-1", 1000, 0),
        ("temperature", "K", 100, 0, "C", 100, 27315), ("wind", "km h-1", 5, 0, "m s-1", 18, 0),
        ("flux", "erg cm-2 s-1", 1, 0, "W m-2", 1000, 0), ("number", "1", 1, 0, "1", 1, 0)]
CLS = {"s": (), "h": ("H",), "v": ("vertical_layer_dimension",), "i": ("vertical_interface_dimension",),
       "hv": ("H", "vertical_layer_dimension"), "hi": ("H", "vertical_interface_dimension")}
SHP = {"s": None, "h": ["ncols"], "v": ["nlev"], "i": ["nlevp"], "hv": ["ncols", "nlev"], "hi": ["ncols", "nlevp"]}
LOCAL = ["x", "y", "temp", "q", "ncol_loc", "t", "zz", "hx0", "dq", "ptr", "tmp", "a1", "i", "errors", "lev",
         "host_t", "t_host", "x_local", "temp_l", "flag", "n", "suite_x"]
PHL = ["init", "ts_init", "run", "ts_final", "final"]


class Q:      # a quantity known under one standard name
    def __init__(self, **k):
        self.__dict__.update(k)


LOCALS = LOCAL + ["Temp", "X", "Hx0", "Flag", "DQ", "X_local"]      # Fortran names: case does not matter


def rand_data(rng, focus="conv", nsuites=None, recs=True):
    """focus: conv | opt | suite"""
    nc, nl = rng.choice([(4, 3), (3, 2), (5, 2), (2, 3)])
    stds = []
    nh = rng.randint(2, 5) if focus != "suite" else rng.randint(1, 3)
    flags, conds = {}, [()]
    if focus == "opt" or rng.random() < 0.4:
        for f in ["flag_one", "flag_two"][:rng.randint(1, 2)]:
            flags[f] = [0, 1]
        if rng.random() < 0.6:
            flags["index_three"] = rng.choice([[0, 3, 5], [-1, 0, 3]])
        fl = [("gt", f, rng.choice([2, 2, -1])) if f == "index_three" else ("is", f) for f in flags]
        for _ in range(3):
            c = rng.choice(fl)
            r = rng.random()
            if r < 0.25:
                c = ("not", c)
            elif r < 0.45:
                c = ("and", c, rng.choice(fl))
            elif r < 0.65:
                c = ("or", ("not", rng.choice(fl)), c)
            conds.append(c)
    host = {}
    names = [x for x in LOCAL if x not in ('n', 'i', 'q', 't', 'x', 'y', 'a1')] + ['hh', 'hy', 'xt']
    rng.shuffle(names)
    for i in range(nh):
        fam = rng.choice(FAMS)
        cls = rng.choice(["s", "h", "h", "hv", "hv", "hv", "v", "hi"])
        ty = rng.choice(["r8", "r8", "r8", "r4", "int"])
        if ty == "int":
            fam = FAMS[-1]
        cond = rng.choice(conds) if (focus == "opt" or rng.random() < 0.3) else ()
        v = Q(std=f"{fam[0]}_of_{rng.choice(['air', 'sea', 'ice'])}_{i}", fam=fam, cls=cls, ty=ty,
              u=rng.choice([fam[1], fam[4]]), flip=(cls in ("v", "hv", "hi") and rng.random() < 0.3),
              cond=cond, dyn=bool(cond) and cls != "s" and rng.random() < 0.6,
              init=rng.randint(1, 9), step=rng.randint(1, 4), name=names.pop(), where="mod")
        r = rng.random()
        if not v.dyn and cls in ("h", "hv") and ty == "r8" and r < 0.25:
            v.where = "slice"
        elif r < 0.45:
            v.where = "ddt"
        # an index range which starts at zero
        v.lo = rng.choice(["0", "base_index", "lit"]) if cls == "hi" and not v.flip and rng.random() < 0.5 else ""
        host[v.std] = v
    for f in flags:
        host[f] = Q(std=f, fam=FAMS[-1], cls="s", ty="int" if f == "index_three" else "log", u="1", flip=False,
                    cond=(), dyn=False, init=0, step=1, lo="", name="h" + f, where=rng.choice(["mod", "mod", "ddt"]))
    svars = []
    for i in range(rng.randint(2, 4) if focus == "suite" else rng.randint(0, 2)):
        fam = rng.choice(FAMS)
        ty = rng.choice(["r8", "r8", "r4", "int", "log"])
        cls = rng.choice(["s", "h", "hv", "hv", "v", "hi"])
        if ty == "log":
            cls = "s"
        if ty in ("int", "log"):
            fam = FAMS[-1]
        svars.append(Q(std=f"own_{fam[0]}_{i}", fam=fam, cls=cls, ty=ty,
                       flip=(cls in ("v", "hv", "hi") and rng.random() < 0.3)))
        svars[-1].rec = False
        if recs and cls in ("s", "h") and rng.random() < 0.35:      # of a derived type
            svars[-1].__dict__.update(rec=True, ty="r8", fam=FAMS[-1], std=f"own_{FAMS[-1][0]}_{i}")
        svars[-1].lo = rng.choice(["0", "base_index", "lit"]) if cls == "hi" and not svars[-1].flip and rng.random() < 0.4 else ""
    # schemes
    pool = rng.sample(["alpha", "beta", "gamma", "delta", "eps"], rng.randint(2, 4))
    entry = {}
    dynflags = set()

    def cflags(c):
        if not c:
            return set()
        if c[0] in ("is", "gt"):
            return {c[1]}
        return set().union(*[cflags(x) for x in c[1:]])
    for v in host.values():
        if v.dyn:
            dynflags |= cflags(v.cond)
    for c in pool:
        phs = ["run"] if rng.random() < 0.8 else []
        phs += [p for p in PHL if p != "run" and rng.random() < (0.5 if focus == "suite" else 0.3)]
        for p in phs or ["run"]:
            args, used = [], set()
            for v in rng.sample(list(host.values()) + svars, min(len(host) + len(svars), rng.randint(1, 5))):
                ishost = v.std in host
                it = rng.choice(["in", "inout", "inout", "out"] if ishost else ["in", "inout", "out", "out"])
                if v.std in dynflags and it != "in":
                    it = "in"
                if v.std == "index_three":
                    it = "in"
                nm = rng.choice([x for x in LOCALS if x.lower() not in used])
                used.add(nm.lower())
                opt = (ishost and bool(v.cond)) or rng.random() < (0.25 if focus == "opt" else 0.1)
                ty = v.ty
                rec = getattr(v, "rec", False)
                if rec:
                    opt = False
                elif ty in ("r8", "r4") and rng.random() < 0.3:
                    ty = "r4" if ty == "r8" else "r8"
                flip = v.flip
                if v.cls in ("v", "hv", "hi") and not v.lo and rng.random() < 0.3:
                    flip = not flip
                args.append(Q(n=nm, std=v.std, u=rng.choice([v.fam[1], v.fam[4]]), cls=v.cls, flip=flip,
                              int=it, opt=opt, k=rng.randint(0, 9), ty=ty, vcls=v.cls, lo=v.lo, rec=rec,
                              vflip=v.flip if ishost else False))
            if rng.random() < 0.4:      # some arguments receive a single level
                lv = [a for a in args if a.cls in ("hv", "hi") and not a.lo and (a.std in host or a.int != "out")]
                if lv:
                    a0 = rng.choice(lv)
                    for a in lv:
                        if (a is a0 or rng.random() < 0.5) and (a.cls, a.vflip) == (a0.vcls, a0.vflip):
                            a.cls, a.flip = "h", False
            entry[(c, p)] = args
    turned = {a.std for l in entry.values() for a in l if a.flip and a.std not in host}
    for l in entry.values():
        for a in l:
            if a.std in turned:
                a.cls = a.vcls
    # arguments nobody provides, with a default value
    dflts = {}
    if focus == "suite" and rng.random() < 0.5:
        for i in range(rng.randint(1, 3)):
            k = rng.choice(sorted(entry))
            fam = rng.choice(FAMS)
            ty = rng.choice(["r8", "r8", "r4", "int"])
            if ty == "int":
                fam = FAMS[-1]
            used = {a.n.lower() for a in entry[k]}
            if len(entry[k]) > 4:
                continue
            a = Q(n=rng.choice([x for x in LOCALS if x.lower() not in used]), std=f"own_{fam[0]}_dflt{i}", u=rng.choice([fam[1], fam[4]]),
                  cls="s", flip=False, int=rng.choice(["in", "inout"]), opt=False, k=rng.randint(0, 9), ty=ty, vcls="s", lo="",
                  vflip=False, dflt=rng.randint(-3, 9))
            entry[k].insert(rng.randint(0, len(entry[k])), a)
            dflts[a.std] = (fam[0] + "|" + a.u, a.dflt)
    # suites
    ns = nsuites or rng.choice([1, 1, 2])
    suites = []
    for s in rng.sample(["s", "phys", "other"], ns):
        ng = rng.randint(1, 3)
        suites.append({"name": s, "groups": [
            {"name": g, "items": [rng.choice(pool) for _ in range(rng.randint(1, 3))]}
            for g in rng.sample(["g1", "g2", "g3"], ng)]})
    # make every suite variable produced before it is consumed, everywhere
    changed = True
    while changed:
        changed = False
        for s in suites:
            have = set()
            listed = [c for g in s["groups"] for c in g["items"]]
            for p in PHL:
                for c in listed:
                    for a in list(entry.get((c, p), [])):
                        if a.std in host or a.std in dflts:
                            continue
                        if a.std not in have and (a.int != "out" or a.opt):
                            entry[(c, p)].remove(a)
                            changed = True
                        else:
                            have.add(a.std)
    # a variable with a default value belongs to one group
    for (c, p), l in entry.items():
        if p == "run" and any(sum(c in g["items"] for g in s["groups"]) > 1 for s in suites):
            for a in [x for x in l if x.std in dflts]:
                l.remove(a)
                del dflts[a.std]
    return Q(nc=nc, nl=nl, host=host, flags=flags, dflts=dflts, entry=entry, suites=suites, pool=pool,
             use=[c for c in pool if any(k[0] == c for k in entry)])


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (tuple, list)):
        return "<< " + ", ".join(tla(y) for y in x) + " >>"
    return str(x)


def fn(d, f):
    if not d:
        return "[zz \\in {} |-> << >>]"
    return " @@ ".join("(%s :> %s)" % (tla(k), f(v)) for k, v in d.items())


def rec(o, keys):
    return "[" + ", ".join(f"{k} |-> {tla(getattr(o, k))}" for k in keys) + "]"


def tla_module(d):
    L = ["---- MODULE CapDataCfg ----", "EXTENDS Naturals, Integers, Sequences, TLC", f"NC == {d.nc}", f"NL == {d.nl}"]
    un = {}
    for f in FAMS:
        un[f[0] + "|" + f[1]] = (f[2], f[3])
        un[f[0] + "|" + f[4]] = (f[5], f[6])
    L.append("Units == " + fn(un, tla))
    L.append("Suites == {" + ", ".join(tla(s["name"]) for s in d.suites) + "}")
    L.append("Parts == " + fn({s["name"]: tuple((g["name"], tuple(g["items"])) for g in s["groups"]) for s in d.suites}, tla))
    fam = dict((v.std, v.fam[0]) for v in d.host.values())

    def arg(a):
        f = a.std.split("_")[1] if a.std.startswith("own_") else fam[a.std]
        b = Q(**dict(a.__dict__, u=f + "|" + a.u))
        return rec(b, ["n", "std", "u", "cls", "vcls", "vflip", "flip", "int", "opt", "k", "ty"])
    L.append("Entry == " + fn(d.entry, lambda v: "<< " + ", ".join(arg(a) for a in v) + " >>"))

    def hostv(v):
        b = Q(**dict(v.__dict__, u=v.fam[0] + "|" + v.u))
        return rec(b, ["u", "cls", "flip", "cond", "dyn", "init", "step", "ty"])
    L.append("Host == " + fn(d.host, hostv))
    L.append("FlagVals == " + fn(d.flags, lambda v: "{" + ", ".join(map(str, v)) + "}"))
    L.append("Dflts == " + fn(getattr(d, "dflts", {}), tla))
    L.append("Inits == {2, 7}")
    L.append("====")
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ project
def ftype(ty):
    return {"r8": ("real", "kind_phys"), "r4": ("real", "kind_r4"), "int": ("integer", None), "log": ("logical", None)}[ty]


def cond_text(c, host):
    if c[0] == "is":
        return c[1]
    if c[0] == "gt":
        return f"{c[1]} > {c[2]}"
    if c[0] == "not":
        return f".not. {c[1][1]}" if c[1][0] == "is" else f".not. ({cond_text(c[1], host)})"
    return f"({cond_text(c[1], host)}) .{c[0]}. ({cond_text(c[2], host)})"


class RecA(A):
    """an argument of a derived type with one component"""
    def logstmt(self, tag, expr=None):
        b = A(self.name, self.std, "1", self.dims)
        return b.logstmt(tag, self.name + "%x")


def assign(a):
    nm = a.n
    if getattr(a, "rec", False):
        if not CLS[a.cls]:
            e = f"{nm}%x + {a.k + 1}" if a.int == "inout" else f"{a.k} + vl_n + 2"
            return f"{nm}%x = {e}"
        e = f"{nm}(vl_i)%x + ({a.k} + vl_i)" if a.int == "inout" else f"{a.k} + vl_n + 2 * vl_i"
        return f"do vl_i = 1, size({nm}, 1)\n  {nm}(vl_i)%x = {e}\nend do"
    if a.ty == "log":
        e = f".not. {nm}" if a.int == "inout" else f"mod({a.k} + vl_n + 1, 2) == 1"
        return f"{nm} = {e}"
    rk = len(CLS[a.cls])
    if rk == 0:
        return f"{nm} = {nm} + {a.k + 1}" if a.int == "inout" else f"{nm} = {a.k} + vl_n + 2"
    if rk == 1:
        el, ix = f"{nm}(vl_i)", "vl_i"
    else:
        el, ix = f"{nm}(vl_i, vl_j)", f"((vl_j - 1) * size({nm}, 1) + vl_i)"
    e = f"{el} + ({a.k} + {ix})" if a.int == "inout" else f"{a.k} + vl_n + 2 * {ix}"
    body = f"do vl_i = 1, size({nm}, 1)\n  {el} = {e}\nend do"
    if rk == 2:
        body = f"do vl_j = 1, size({nm}, 2)\n{body}\nend do"
    return body


def spelled(dims, lo, rng, nl):
    """the dimensions with their lower bounds: implied, explicit, not one; or
    the number of interfaces"""
    if lo == "lit":
        dims = tuple(str(nl + 1) if x == "vertical_interface_dimension" else x for x in dims)
    elif lo:
        dims = tuple(f"{lo}:vertical_layer_dimension" if x == "vertical_interface_dimension" else x for x in dims)
    return tuple(x if ":" in x or rng.random() < 0.85 else "ccpp_constant_one:" + x for x in dims)


UNIT_TEXT = {}


def project(d, cfg, rng, host="vhost", dims_args=True):
    phs = {}
    for (c, p), args in cfg.entry.items():
        hd = "horizontal_loop_extent" if p == "run" else "horizontal_dimension"
        al = [A("ncol", hd, "count", (), "integer", None, "in", log=False)]
        if rng.random() < 0.3:
            al.append(A("nlay", "vertical_layer_dimension", "count", (), "integer", None, "in", log=False))
        for a in args:
            t, k = ftype(a.ty)
            pr = {}
            if a.opt:
                pr["optional"] = rng.choice(["True", "True", "true"])
            if a.flip:
                pr["top_at_one"] = "True"
            if a.std in getattr(cfg, "dflts", {}):
                pr["default_value"] = f"{a.dflt}" if a.ty == "int" else f"{a.dflt}.0_{k}"
            dims = spelled((hd if x == "H" else x for x in CLS[a.cls]), getattr(a, "lo", ""), rng, cfg.nl)
            u = a.u if a.ty not in ("log",) else "flag"
            if getattr(a, "rec", False):
                al.append(RecA(a.n, a.std, "DDT", dims, "st_rec", None, a.int, log="size" if a.int == "out" else True,
                               code=assign(a) if a.int != "in" else None))
                continue
            al.append(A(a.n, a.std, u, dims, t, k, a.int, log="size" if a.int == "out" else True,
                        code=assign(a) if a.int != "in" else None, **pr))
        if rng.random() < 0.3:
            rng.shuffle(al)
        phs.setdefault(c, {})[p] = al
    schemes = [Scheme(c, phs.get(c, {"run": []})) for c in cfg.pool if c in phs]
    users = {c for (c, p), l in cfg.entry.items() if any(getattr(a, "rec", False) for a in l)}
    if users:       # the first scheme provides the type
        class Provider(Scheme):
            def meta(self):
                return (f"[ccpp-table-properties]\n  name = st_rec\n  type = ddt\n[ccpp-arg-table]\n  name = st_rec\n  type = ddt\n"
                        f"  module = {self.name}\n[ x ]\n  standard_name = component_of_st_rec\n  units = 1\n  dimensions = ()\n"
                        "  type = real\n  kind = kind_phys\n") + Scheme.meta(self)

            def fortran(self):
                return Scheme.fortran(self).replace("contains\n", "!> \\section arg_table_st_rec Argument Table\n"
                                                    "!! \\htmlinclude arg_table_st_rec.html\n!!\n  type, public :: st_rec\n"
                                                    "    real(kind_phys) :: x = 0\n  end type st_rec\ncontains\n", 1)
        schemes[0].__class__ = Provider
        for s in schemes[1:]:
            if s.name in users:
                s.use = f"use {schemes[0].name}, only: st_rec"
    hv, ddt, inner, extra, setters, dumps = [], [], [], [], [], []
    tnames = {}
    nslice = 0
    for v in cfg.host.values():
        t, k = ftype(v.ty)
        pr = {}
        if v.cond:
            pr["active"] = "(" + cond_text(v.cond, cfg.host) + ")"
        if v.flip:
            pr["top_at_one"] = "True"
        dims = spelled(("horizontal_dimension" if x == "H" else x for x in CLS[v.cls]), getattr(v, "lo", ""), rng, cfg.nl)
        ts = f"{t}(kind={k})" if k else t
        rank = "(" + ",".join(":" * len(dims)) + ")" if dims else ""
        shp = "(" + ",".join(SHP[v.cls]) + ")" if dims else ""
        if getattr(v, "lo", "") not in ("", "lit"):
            shp = shp.replace("nlevp", "0:nlev")
        u = v.u if v.ty != "log" else "flag"
        if v.where == "ddt":      # the type is declared before the dimensions
            for a, b in (("ncols", cfg.nc), ("nlevp", cfg.nl + 1), ("nlev", cfg.nl)):
                shp = shp.replace(a, str(b))
        if v.where == "slice":
            nslice += 1
            base = "qarr%d" % len(dims)
            ix = f"ix_{v.name}"
            hvar = HostVar(f"{base}({','.join([':'] * len(dims))},index_of_{v.std})", v.std, u, dims, t, k, decl="! " + v.std, log=False, **pr)
            hv.append(hvar)
            hv.append(HostVar(ix, "index_of_" + v.std, "index", (), "integer", None, log=False,
                              decl=f"integer, parameter :: {ix} = {rng.randint(1, 6)}", protected="True"))
            extra.append(base)
            expr = f"{base}({','.join([':'] * len(dims))},{ix})"
            # distinct indices per base array
            used = tnames.setdefault(base, [])
            i = rng.choice([x for x in range(1, 7) if x not in used])
            used.append(i)
            hv[-1].decl = f"integer, parameter :: {ix} = {i}"
        else:
            decl = ts + (", allocatable" if v.dyn else "") + (", target" if v.where == "mod" else "") + \
                f" :: {v.name}" + (rank if v.dyn else shp)
            hvar = HostVar(v.name, v.std, u, dims, t, k, decl=decl, log=False, **pr)
            expr = v.name if v.where == "mod" else "vd%" + v.name
            if v.where == "ddt" and rng.random() < 0.4:     # a component of a component
                expr = "vd%vdin%" + v.name
                inner.append(hvar)
            else:
                (ddt if v.where == "ddt" else hv).append(hvar)
        tnames[v.std] = expr
        # setter: values are sent in the variable's own units
        L = [f"    case ('set:{v.std}')"]
        if v.ty == "log":
            L += ["      read(line,*) vl_rv(1:2)", f"      {expr} = vl_rv(2) > 0.5"]
        else:
            if v.dyn:
                L += ["      read(line,*) vl_rv(1)", "      if (vl_rv(1) < 0.5) then",
                      f"        if (allocated({expr})) deallocate({expr})",
                      "        write(*,'(a)') '=>ok'", "        cycle", "      end if",
                      f"      if (.not. allocated({expr})) allocate({expr}{shp})"]
            sz = f"size({expr})" if dims else "1"
            L += ["      vl_m = " + sz, "      read(line,*) vl_rv(1:vl_m+1)"]
            if dims:
                L += [f"      {expr} = reshape(vl_rv(2:vl_m+1), shape({expr}))"]
            else:
                L += [f"      {expr} = vl_rv(2)"]
        L += ["      write(*,'(a)') '=>ok'"]
        setters += L
        st = hvar.logstmt("host", expr).replace(f"'host {hvar.name}'", f"'host {v.std}'")
        if v.dyn:
            st = f"if (allocated({expr})) then\n      {st}\n    else\n      call vl_absent('host {v.std}')\n    end if"
        dumps.append("    " + st)
    p = Project(d, cfg.suites, schemes, hv, host=host, ncols=cfg.nc, nlev=cfg.nl,
                kinds=["kind_phys=REAL64", "kind_r4=REAL32"])
    for base in sorted(set(extra)):
        sh = {"qarr1": "ncols,6", "qarr2": "ncols,nlev,6"}[base]
        dm = {"qarr1": ("horizontal_dimension", "number_of_slices"),
              "qarr2": ("horizontal_dimension", "vertical_layer_dimension", "number_of_slices")}[base]
        p.hostvars.insert(0, HostVar(base, base + "_all", "none", dm, log=False,
                                     decl=f"real(kind=kind_phys), target :: {base}({sh})"))
    if any(getattr(x, "lo", "") == "base_index" for x in cfg.host.values()) or any(getattr(a, "lo", "") == "base_index" for l in cfg.entry.values() for a in l):
        p.hostvars.insert(0, HostVar("first_lev", "base_index", "index", (), "integer", None, log=False,
                                     decl="integer, parameter :: first_lev = 0", protected="True"))
    if extra:
        p.hostvars.insert(0, HostVar("nslices", "number_of_slices", "count", (), "integer", None, log=False,
                                     decl="integer, parameter :: nslices = 6", protected="True"))
    def ddt_type(name, vs):
        meta = (f"[ccpp-table-properties]\n  name = {name}\n  type = ddt\n[ccpp-arg-table]\n  name = {name}\n  type = ddt\n"
                + "".join(v.meta(False) for v in vs))
        return meta, (f"!> \\section arg_table_{name}  Argument Table\n!! \\htmlinclude arg_table_{name}.html\n!!\n  type {name}\n" +
                      "".join("    " + v.decl + "\n" for v in vs) + f"  end type {name}\n")
    if ddt or inner:
        ims = its = ""
        if inner:
            ims, its = ddt_type("vtin", inner)
            ddt.insert(rng.randint(0, len(ddt)), HostVar("vdin", "inner_instance", "DDT", (), "vtin", None, log=False, decl="type(vtin) :: vdin"))
        m, t = ddt_type("vt", ddt)
        p.extra_meta, p.extra_types = ims + m, its + t
        p.hostvars.append(HostVar("vd", "instance_of_vt", "DDT", (), "vt", None, log=False, decl="type(vt), target :: vd"))
    p.driver_extra = "\n".join(setters)
    p.dumps = dumps
    p.write()
    return p
