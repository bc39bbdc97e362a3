"""Random configurations for StaticData.tla: hosts (blocked, chunked or plain
arrays), suites and schemes for the static API, as prebuild projects."""
from preblab import *
from datacfg import FAMS, LOCAL, Q, tla, fn, rec, ftype, assign as assign0

CLSD = {"s": (), "h": ("H",), "v": ("L",), "z": ("Z",), "hv": ("H", "L"), "vh": ("L", "H"), "hz": ("H", "Z")}
DIMN = {"L": "vertical_layer_dimension", "Z": "0:vertical_layer_dimension"}
STG = ["init", "ts_init", "run", "ts_final", "final"]
SPECIAL = {"cnt": ("ccpp_loop_counter", "index"), "max": ("ccpp_loop_extent", "count"),
           "inst": ("ccpp_instance", "index"), "blk": ("ccpp_block_number", "index"),
           "thr": ("ccpp_thread_number", "index"), "nthr": ("ccpp_thread_count", "index")}


def rand_conf(rng, mode=None):
    mode = mode or rng.choice(["blocked", "chunked", "plain"])
    nl = rng.choice([1, 2, 3])
    nc = rng.choice([3, 4, 5])
    if mode == "plain":
        blocks = [(1, nc)]
    else:
        cuts = sorted(rng.sample(range(1, nc), rng.randint(1, min(2, nc - 1))))
        e = [0] + cuts + [nc]
        blocks = [(e[i] + 1, e[i + 1]) for i in range(len(e) - 1)]
    insts = rng.choice([[1, 2], [1, 2], [1]])
    nt = rng.choice([1, 2, 3])
    flags, conds = {}, [()]
    if rng.random() < 0.7:
        for f in ["flag_one", "flag_two"][:rng.randint(1, 2)]:
            flags[f] = [0, 1]
        if rng.random() < 0.6:
            flags["index_three"] = [-1, 0, 3, 5]
        fl = [("gt", f, rng.choice([2, -1])) if f == "index_three" else ("is", f) for f in flags]
        for _ in range(3):
            c = rng.choice(fl)
            r = rng.random()
            if r < 0.25:
                c = ("not", c)
            elif r < 0.45:
                c = ("and", c, rng.choice(fl))
            elif r < 0.65:
                c = ("or", ("not", rng.choice(fl)), c)
            conds.append(c)
        if rng.random() < 0.15:
            conds.append(("no",))
    host = {}
    names = [x for x in LOCAL if x not in ("n", "i", "q", "t", "x", "y", "a1")] + ["hh", "hy", "xt", "cnt", "ib", "initialized"]
    rng.shuffle(names)
    for i in range(rng.randint(3, 6)):
        fam = rng.choice(FAMS)
        cls = rng.choice(["s", "h", "h", "h", "hv", "hv", "v", "vh", "hz", "z"])
        ty = rng.choice(["r8", "r8", "r8", "r4", "int", "log"])
        if ty in ("int", "log"):
            fam = FAMS[-1]
        if ty == "log" and rng.random() < 0.5:
            cls = "s"
        if ty == "log" and cls != "s":
            ty = "int"
        cond = rng.choice(conds) if rng.random() < 0.5 else ()
        where = "com"
        r = rng.random()
        hor = cls in ("h", "hv", "vh", "hz")
        if r < 0.12 and nt > 1:
            where = "thr"
        elif r < 0.24 and not (hor and mode == "blocked") and len(insts) > 1:
            where = "inst"
        # where it is kept: module, member of a type, slice of an array
        keep = "blk" if hor and mode == "blocked" and where == "com" else rng.choice(["mod", "mod", "ddt"]) if where == "com" else where
        v = Q(std=f"{fam[0]}_of_{rng.choice(['air', 'sea', 'ice'])}_{i}", fam=fam, cls=cls, ty=ty,
              u=rng.choice([fam[1], fam[4]]), cond=cond,
              dyn=bool(cond) and cond != ("no",) and cls != "s" and rng.random() < 0.6,
              init=rng.randint(1, 9), step=rng.randint(1, 4), name=names.pop(), where=where, keep=keep, slice=0)
        if not v.dyn and cls in ("h", "hv") and ty == "r8" and rng.random() < 0.25:
            v.slice = rng.choice([0, 1, 2])      # 1: constant index, 2: index variable
        host[v.std] = v
    for f in flags:
        host[f] = Q(std=f, fam=FAMS[-1], cls="s", ty="int" if f == "index_three" else "log", u="1", cond=(), dyn=False,
                    init=0, step=1, name="h" + f, where="com", keep=rng.choice(["mod", "mod", "ddt"]), slice=0)
    dynflags = set()
    cfg_cond = {v.std: v.cond for v in host.values()}

    def cflags(c):
        if not c or c[0] == "no":
            return set()
        if c[0] in ("is", "gt"):
            return {c[1]}
        return set().union(*[cflags(x) for x in c[1:]])
    for v in host.values():
        if v.dyn:
            dynflags |= cflags(v.cond)
    pool = rng.sample(["alpha", "beta", "gamma", "delta"], rng.randint(2, 4))
    entry = {}
    for c in pool:
        phs = ["run"] if rng.random() < 0.8 else []
        phs += [p for p in STG if p != "run" and rng.random() < 0.35]
        for p in phs or ["run"]:
            args, used = [], set()

            def name():
                nm = rng.choice([x for x in LOCAL if x not in used])
                used.add(nm)
                return nm
            for v in rng.sample(list(host.values()), min(len(host), rng.randint(1, 4))):
                if p != "run" and v.where == "thr":
                    continue
                it = rng.choice(["in", "inout", "inout", "out"])
                if v.std in dynflags or v.std == "index_three":
                    it = "in"
                args.append(Q(n=name(), std=v.std, u=rng.choice([v.fam[1], v.fam[4]]), cls=v.cls, int=it,
                              opt=bool(v.cond) or rng.random() < 0.1, k=rng.randint(0, 9), ty=v.ty, sp=""))
            sp = [x for x in SPECIAL if x not in ("blk", "thr") or p == "run"] + ["ncol"]
            # a scheme does not switch off what it is working on
            guards = set().union(set(), *[cflags(cfg_cond[x.std]) for x in args])
            for x in args:
                if x.std in guards:
                    x.int = "in"
            for s in rng.sample(sp, rng.choice([0, 1, 2, 2])):
                args.append(Q(n=name(), std="-", u="-", cls="s", int="in", opt=False, k=0, ty="int", sp=s))
            entry[(c, p)] = args
    suites = []
    for s in rng.sample(["s", "phys", "other"], rng.choice([1, 1, 2])):
        suites.append({"name": s, "groups": [
            {"name": g, "subcycles": [{"loop": k, "schemes": [rng.choice(pool) for _ in range(rng.randint(1, 3))]}
                                      for k in rng.choice([(1,), (2,), (3,), (1, 2), (3, 1), (2, 1), (2, 3)])]}
            for g in rng.sample(["g1", "g2", "g3"], rng.randint(1, 2))]})
    used = {x for s in suites for g in s["groups"] for sc in g["subcycles"] for x in sc["schemes"]}
    tags = [(c, p) for (c, p) in entry if c in used and p != "final" and
            not any(a.std in flags and a.int != "in" for a in entry[c, p])]
    return Q(mode=mode, nc=nc, nl=nl, blocks=blocks, insts=insts, nt=nt, host=host, flags=flags, entry=entry,
             pool=[c for c in pool if c in used], suites=suites, fails=rng.sample(tags, min(len(tags), 2)))


def module_of(d):
    L = ["---- MODULE StaticDataCfg ----", "EXTENDS Naturals, Integers, Sequences, TLC", f"NC == {d.nc}", f"NL == {d.nl}",
         "Blocks == " + tla(tuple(d.blocks)), "Insts == {" + ", ".join(str(i + 1) for i in range(len(d.insts))) + "}",
         "InstNo == " + tla(tuple(d.insts)), f"NT == {d.nt}"]
    un = {"-": (1, 0)}
    for f in FAMS:
        un[f[0] + "|" + f[1]] = (f[2], f[3])
        un[f[0] + "|" + f[4]] = (f[5], f[6])
    L.append("Units == " + fn(un, tla))
    L.append("Suites == {" + ", ".join(tla(s["name"]) for s in d.suites) + "}")
    L.append("Groups == " + fn({s["name"]: tuple((g["name"], tuple((sc["loop"], tuple(sc["schemes"])) for sc in g["subcycles"]))
                                                 for g in s["groups"]) for s in d.suites}, tla))
    fam = dict((v.std, v.fam[0]) for v in d.host.values())

    def arg(a):
        u = "-" if a.sp else fam[a.std] + "|" + a.u
        return rec(Q(**dict(a.__dict__, u=u)), ["n", "std", "u", "cls", "int", "opt", "k", "ty", "sp"])
    L.append("Entry == " + fn({k: v for k, v in d.entry.items() if k[0] in d.pool}, lambda v: "<< " + ", ".join(arg(a) for a in v) + " >>"))
    L.append("Host == " + fn(d.host, lambda v: rec(Q(**dict(v.__dict__, u=v.fam[0] + "|" + v.u)),
                                                   ["u", "cls", "cond", "dyn", "init", "step", "ty", "where"])))
    L.append("FlagVals == " + fn(d.flags, lambda v: "{" + ", ".join(map(str, v)) + "}"))
    L.append("FailTags == {" + ", ".join(tla(t) for t in d.fails) + "}")
    L.append("Inits == {2, 7}")
    L.append("====")
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ project
def cond_text(c, rng):
    if c[0] == "is":
        return rng.choice([c[1], f"({c[1]} .eqv. .true.)"])
    if c[0] == "gt":
        return rng.choice([f"{c[1]} > {c[2]}", f"{c[1]} .gt. {c[2]}", f"{c[1]}>{c[2]}"])
    if c[0] == "no":
        return ".false."
    if c[0] == "not":
        return f".not. ({cond_text(c[1], rng)})"
    return f"({cond_text(c[1], rng)}) .{c[0]}. ({cond_text(c[2], rng)})"


def assign(a):
    cls = {"v": "v", "z": "v", "h": "h", "s": "s"}.get(a.cls, "hv")
    return assign0(Q(**dict(a.__dict__, cls=cls)))


def project(d, cfg, rng):
    m = cfg.mode
    phs = {}
    for (c, p), args in cfg.entry.items():
        if c not in cfg.pool:
            continue
        hd = "horizontal_loop_extent" if p == "run" else "horizontal_dimension"
        al = []
        for a in args:
            if a.sp:
                std, u = (hd, "count") if a.sp == "ncol" else SPECIAL[a.sp]
                al.append(A(a.n, std, u, (), "integer", None, "in"))
                continue
            t, k = ftype(a.ty)
            pr = {"optional": "True"} if a.opt else {}
            dims = tuple(hd if x == "H" else DIMN[x] for x in CLSD[a.cls])
            al.append(A(a.n, a.std, a.u if a.ty != "log" else "flag", dims, t, k, a.int, log="size" if a.int == "out" else True,
                        code=assign(a) if a.int != "in" else None, **pr))
        rng.shuffle(al)
        key = {"ts_final": "ts_final:timestep_finalize", "final": "final:finalize"}.get(p, p)
        phs.setdefault(c, {})[key] = al
    schemes = [Scheme(c, phs[c], fail_late=rng.random() < 0.5) for c in cfg.pool]
    mods, types, setters, dumps = [], {"blkt": [], "ddtt": [], "thrt": [], "inst_t": []}, [], []
    allocs = []
    base = [HostVar("nlev", "vertical_layer_dimension", "count", (), "integer", None, decl=f"integer, parameter :: nlev = {cfg.nl}"),
            HostVar("ncd", "horizontal_dimension", "count", (), "integer", None, decl=f"integer, parameter :: ncd = {cfg.nc}")]
    nb = len(cfg.blocks)
    sizes = [e - b + 1 for b, e in cfg.blocks]
    if m == "blocked":
        base += [HostVar("nblks", "ccpp_block_count", "count", (), "integer", None, decl=f"integer, parameter :: nblks = {nb}"),
                 HostVar("blksz", "ccpp_block_sizes", "count", ("ccpp_block_count",), "integer", None,
                         decl=f"integer :: blksz({nb}) = (/ {', '.join(map(str, sizes))} /)"),
                 HostVar("blksz(ccpp_block_number)", "horizontal_loop_extent", "count", (), "integer", None, decl="")]
    elif m == "plain":
        base += [HostVar("ncols", "horizontal_loop_extent", "count", (), "integer", None, decl=f"integer, parameter :: ncols = {cfg.nc}")]
    else:
        base += [HostVar("nchunks", "ccpp_chunk_extent", "count", (), "integer", None, decl=f"integer, parameter :: nchunks = {nb}"),
                 HostVar("cbeg", "horizontal_loop_begin_all_chunks", "index", ("ccpp_chunk_extent",), "integer", None,
                         decl=f"integer :: cbeg({nb}) = (/ {', '.join(str(b) for b, e in cfg.blocks)} /)"),
                 HostVar("cbeg(ccpp_chunk_number)", "horizontal_loop_begin", "index", (), "integer", None, decl=""),
                 HostVar("cend", "horizontal_loop_end_all_chunks", "index", ("ccpp_chunk_extent",), "integer", None,
                         decl=f"integer :: cend({nb}) = (/ {', '.join(str(e) for b, e in cfg.blocks)} /)"),
                 HostVar("cend(ccpp_chunk_number)", "horizontal_loop_end", "index", (), "integer", None, decl=""),
                 # arrays of a thread hold the columns of one chunk
                 HostVar("csz", "chunk_sizes", "count", ("ccpp_chunk_extent",), "integer", None,
                         decl=f"integer :: csz({nb}) = (/ {', '.join(map(str, sizes))} /)"),
                 HostVar("csz(ccpp_chunk_number)", "horizontal_loop_extent", "count", (), "integer", None, decl="")]
    hdim = {"blk": "horizontal_loop_extent", "thr": "horizontal_loop_extent"}
    one = rng.choice(["horizontal_dimension", "ccpp_constant_one:horizontal_dimension"])
    slices = {}     # keep -> {cls: [next index]}
    idxvars = []
    for v in cfg.host.values():
        t, k = ftype(v.ty)
        pr = {"active": "(" + cond_text(v.cond, rng) + ")"} if v.cond else {}
        if v.cond == ("no",):
            pr = {"active": ".false."}
        dims = tuple(hdim.get(v.keep, one) if x == "H" else DIMN[x] for x in CLSD[v.cls])
        ts = f"{t}(kind={k})" if k else t
        u = v.u if v.ty != "log" else "flag"
        ext = {"H": "ncd", "L": "nlev", "Z": "0:nlev"}
        blkn = v.keep == "blk"
        dfr = v.dyn or blkn
        rank = len(dims)
        shp = "(" + ",".join(":" if dfr else ext[x] for x in CLSD[v.cls]) + ")" if dims else ""
        pre = {"mod": "", "ddt": "dd%", "blk": "blk(nb)%", "thr": "thr(kc)%", "inst": "dinst(kc)%"}[v.keep]
        bounds = ",".join(("ncd" if not blkn else "blksz(nb)") if x == "H" else ext[x] for x in CLSD[v.cls])
        if v.slice:
            bn = "qarr%d" % rank
            sl = slices.setdefault((v.keep, rank), [])
            ix = rng.choice([x for x in range(1, 7) if x not in sl])
            sl.append(ix)
            colon = ",".join([":"] * rank)
            if v.slice == 1:
                ref = f"{bn}({colon},{ix})"
            else:
                idxvars.append(HostVar(f"ix_{v.name}", "index_of_" + v.std, "index", (), "integer", None,
                                       decl=f"integer :: ix_{v.name} = {ix}"))
                ref = f"{bn}({colon},index_of_{v.std})"
            hv = HostVar(ref, v.std, u, dims, t, k, decl="", log=False, **pr)
            name, tail = bn, f",{ix}"
        else:
            attr = ", allocatable" if dfr and dims else ""
            hv = HostVar(v.name, v.std, u, dims, t, k, decl=f"{ts}{attr}{', target' if v.keep == 'mod' else ''} :: {v.name}{shp}",
                         log=False, **pr)
            name, tail = v.name, ""
            if blkn and not v.dyn:
                allocs.append(f"    allocate({pre}{name}({bounds}))")
        {"mod": mods, "ddt": types["ddtt"], "blk": types["blkt"], "thr": types["thrt"], "inst": types["inst_t"]}[v.keep].append(hv)
        # element (column vc, layer vk) of copy kc (block nb)
        el = [{"H": "vc", "L": "vk", "Z": "vk-1"}[x] for x in CLSD[v.cls]]
        elem = pre + name + ("(" + ",".join(el) + tail + ")" if el else "")
        nlv = {"v": cfg.nl, "hv": cfg.nl, "vh": cfg.nl, "z": cfg.nl + 1, "hz": cfg.nl + 1}.get(v.cls, 1)
        hor = "H" in CLSD[v.cls]
        ncell = nlv * (cfg.nc if hor else 1)
        whole = pre + name
        ncopy = cfg.nt if v.where == "thr" else len(cfg.insts) if v.where == "inst" else 1
        kcs = "k" if v.where != "inst" else "insts(k)"

        def loops(body):
            L = [f"      kc = {kcs}"] + ([f"      do nb = 1, {nb}"] if blkn else ["      nb = 1"])
            if v.dyn and body[0].startswith("vl_rv"):
                L.append(f"      if (allocated({whole})) then")
            L += [f"      do vk = 1, {nlv}"]
            if hor:
                L += [f"      do vc = 1, {'blksz(nb)' if blkn else 'ncd'}",
                      f"        vl_m = (vk - 1) * {cfg.nc} + {'bfirst(nb) - 1 + ' if blkn else ''}vc"]
            else:
                L += ["        vl_m = vk"]
            L += ["        " + b for b in body] + (["      end do"] if hor else []) + ["      end do"]
            if v.dyn and body[0].startswith("vl_rv"):
                L.append("      end if")
            L += ["      end do"] if blkn else []
            return L
        S = [f"    case ('set:{v.std}')", "      read(a1,*) k"]
        S += [f"      kc = {kcs}"]
        if v.dyn:
            blkl = [f"      do nb = 1, {nb}"] if blkn else ["      nb = 1"]
            S += blkl + [f"        if (allocated({whole})) deallocate({whole})",
                         f"        if (a2(1:1) /= '-') allocate({whole}({bounds}))"] + (["      end do"] if blkn else [])
            S += ["      if (a2(1:1) == '-') then", "        write(*,'(a)') '=>ok'", "        cycle", "      end if"]
        S += ["      n = index(line, ' ')", f"      read(line(n+1:),*) vl_rv(1:{ncell})"]
        S += loops([f"{elem} = vl_rv(vl_m)" + (" > 0.5" if v.ty == "log" else "")])
        setters += S + ["      write(*,'(a)') '=>ok'"]
        if v.ty == "log":
            cv = f"merge(1.0d0, 0.0d0, {elem})"
        else:
            cv = f"real({elem}, 8)"
        dumps += [f"      do k = 1, {ncopy}", "      vl_rv = -7777.0d0"]
        G = loops([f"vl_rv(vl_m) = {cv}"])
        dumps += G + [f"      write(vtag,'(a,i0)') 'host {v.std}#', k",
                      f"      call vl_rn(trim(vtag), 1, vl_rv(1:{ncell}))"]
        if v.dyn:
            dumps += ["      nb = 1", f"      kc = {kcs}", f"      if (.not. allocated({whole})) call vl_absent(trim(vtag))"]
        dumps += ["      end do"]
    hostvars = base + idxvars
    nsl = False
    for (keep, rank), _ in sorted(slices.items()):
        nsl = True
        dm = ((hdim.get(keep, one),) if rank == 1 else (hdim.get(keep, one), DIMN["L"])) + ("number_of_slices",)
        ex = ["ncd"] + (["nlev"] if rank == 2 else []) + ["6"]
        blkn = keep == "blk"
        decl = "real(kind=kind_phys)" + (", allocatable" if blkn else "") + (", target" if keep == "mod" else "") + \
            f" :: qarr{rank}(" + ",".join(":" if blkn else x for x in ex) + ")"
        x = HostVar(f"qarr{rank}", f"qarr{rank}_{keep}_all", "none", dm, log=False, decl=decl)
        if blkn:
            allocs.append(f"    allocate(blk(nb)%qarr{rank}(blksz(nb)," + ",".join(ex[1:]) + "))")
        lst = {"mod": mods, "ddt": types["ddtt"], "blk": types["blkt"], "thr": types["thrt"], "inst": types["inst_t"]}[keep]
        lst.insert(0, x)
    if nsl:
        hostvars.append(HostVar("nslices", "number_of_slices", "count", (), "integer", None, decl="integer, parameter :: nslices = 6"))
    ddts = {}

    class TypeEntry(HostVar):
        def meta(self, with_intent=True):
            return f"[{self.name}]\n  standard_name = {self.std}\n  units = DDT\n  dimensions = ({','.join(self.dims)})\n  type = {self.type}\n"
    tail = []
    if types["ddtt"]:
        ddts["ddtt"] = ("dd", types["ddtt"])
        tail += [TypeEntry("ddtt", "ddtt", "DDT", (), "ddtt", None, decl=""),
                 TypeEntry("dd", "ddtt_instance", "DDT", (), "ddtt", None, decl="type(ddtt), target :: dd")]
    if types["blkt"]:
        ddts["blkt"] = ("blk(cdata%blk_no)", types["blkt"])
        tail += [TypeEntry("blkt", "blkt", "DDT", (), "blkt", None, decl=""),
                 TypeEntry("blk(ccpp_block_number)", "blkt_instance", "DDT", (), "blkt", None, decl=""),
                 TypeEntry("blk", "blkt_instance_all_blocks", "DDT", ("ccpp_block_count",), "blkt", None,
                           decl=f"type(blkt), target :: blk({nb})")]
    if types["thrt"]:
        ddts["thrt"] = ("thr(cdata%thrd_no)", types["thrt"])
        tail += [TypeEntry("thrt", "thrt", "DDT", (), "thrt", None, decl=""),
                 TypeEntry("thr(ccpp_thread_number)", "thrt_instance", "DDT", (), "thrt", None, decl=""),
                 TypeEntry("thr", "thrt_instance_all_threads", "DDT", ("ccpp_thread_count",), "thrt", None,
                           decl=f"type(thrt), target :: thr({cfg.nt})")]
    if types["inst_t"]:
        ddts["inst_t"] = ("dinst(cdata%ccpp_instance)", types["inst_t"])
        tail += [TypeEntry("inst_t", "inst_t", "DDT", (), "inst_t", None, decl=""),
                 TypeEntry("dinst(ccpp_instance)", "inst_t_instance", "DDT", (), "inst_t", None, decl=""),
                 TypeEntry("ninst", "number_of_instances_of_host", "count", (), "integer", None, decl=f"integer, parameter :: ninst = {max(cfg.insts)}"),
                 TypeEntry("dinst", "inst_t_instance_all", "DDT", ("number_of_instances_of_host",), "inst_t", None,
                           decl="type(inst_t), target :: dinst(ninst)")]
        tail[-2] = HostVar("ninst", "number_of_instances_of_host", "count", (), "integer", None, decl=f"integer, parameter :: ninst = {max(cfg.insts)}")
    # sizes have to be declared before the types that use them
    p = DataProject(d, cfg.suites, schemes, hostvars + mods + tail, ddts, insts=cfg.insts, namespace=rng.choice(["", "", "nsp"]))
    p.first = base
    p.driver_extra = "\n".join(setters)
    p.dumps = dumps
    p.bfirst = [b for b, e in cfg.blocks]
    p.allocs = allocs
    p.nb = nb
    p.write()
    return p


class DataProject(PreProject):
    """Sizes come before the types; the driver knows blocks and instances."""
    def data_files(self):
        f, m = super().data_files()
        dec = [v.declare() for v in self.first if v.declare()]
        for x in dec:
            f = f.replace("  " + x + "\n", "", 1)
        return f.replace("  public\n", "  public\n" + "".join("  " + x + "\n" for x in dec), 1), m

    def driver(self):
        t = super().driver()
        ni = len(self.insts)
        al = "".join(x + "\n" for x in self.allocs)
        t = t.replace("  type(ccpp_t), pointer :: pc\n",
                      "  type(ccpp_t), pointer :: pc\n  character(len=200) :: vtag\n  integer :: nb, kc, vk, vc\n"
                      f"  integer :: bfirst({self.nb}) = (/ {', '.join(map(str, self.bfirst))} /)\n"
                      f"  integer :: insts({ni}) = (/ {', '.join(map(str, self.insts))} /)\n"
                      + (f"  do nb = 1, {self.nb}\n{al}  end do\n" if al else ""), 1)
        return t
