"""Fortran sources and metadata of FortDecl.tla as text."""

TYS_META = """[ccpp-table-properties]
  name = ty_t
  type = ddt
[ccpp-arg-table]
  name = ty_t
  type = ddt
"""
TYS = r"""module kinds
  integer, parameter :: kind_phys = 8, r4 = 4, i8 = 8, l1 = 1
end module kinds
module tys
  !> \section arg_table_ty_t
  !! \htmlinclude ty_t.html
  type ty_t
    integer :: a
  end type ty_t
  type ty2_t
    integer :: b
  end type ty2_t
  type ty3_t
    integer :: b
  end type ty3_t
end module tys
"""


MARKS = ("!> \\section arg_table_%s  Argument Table\n", "  !! \\section arg_table_%s\n", "!> arg_table_%s\n")
HTML = ("!! \\htmlinclude %s.html\n!!\n", "!! \\htmlinclude %s.html\n", "")


def text(i):
    s, c = i["s"], i["c"]
    return s if s[0] in "'\"" else s.upper() if c == 1 else s.capitalize() if c == 2 else s


def mark(i):
    return MARKS[i["c"]] % i["s"] + (HTML[i["b"]] % i["s"] if i["b"] < 2 else HTML[2])


def source(t):
    """The layout as text."""
    if t["fixed"]:
        return fixed(t)
    out = ""
    for i in t["items"]:
        k, s, c, b = i["k"], i["s"], i["c"], i["b"]
        if k == "tok":
            out += " " * b + text(i)
        elif k == "brk":
            out += " &" + (" " + s if s else "") + "\n" + ("", "\n", "   ! still going on, it's\n\n")[b] + ("   & " if c and b else "  &" if c else "    ")
        elif k == "eol":
            out += (" " * b + s if s else "") + "\n"
        elif k == "sep":
            out += ";" + " " * b
        elif k == "line":
            out += s + "\n"
        else:
            out += mark(i)
    return out


def fixed(t):
    """The layout as fixed-form text: statements in columns 7 to 72."""
    out, line = "", ""
    for i in t["items"]:
        k, s, c, b = i["k"], i["s"], i["c"], i["b"]
        if k == "tok":
            x = " " * b + text(i)
            line = line or "      "
            if len(line) + len(x) > 72:
                out += line + "\n"
                line = "      " if line.rstrip().endswith(";") else "     +"
            line += x
        elif k == "brk":
            out += line + (" " + s if s else "") + "\n" + ("", "C it's\n", "*  ! still going on, it's\n\n")[b]
            line = "     &" if c else "     1 "
        elif k == "eol":
            if len(line) > 70 and s == ";":
                s = ""
            out += line.ljust(72) + "SEQ(12'\n" if b == 2 and not s else line + (" " * b + s if s else "") + "\n"
            line = ""
        elif k == "sep":
            if len(line) + b > 71:
                out += line + "\n"
                line = ""
            else:
                line += ";" + " " * b
        elif k == "line":
            out += ("! " + s.strip() if s.strip() else "") + "\n"
        else:
            out += mark({**i, "c": 0 if i["c"] == 1 else i["c"]})
    return out


DIMS = ["horizontal_dimension", "vertical_layer_dimension", "number_of_things", "number_of_more_things"]


def variable(v, mode):
    n, rk = v["n"], v["rk"]
    std = "std_" + n
    if v["sec"]:
        rk -= 1
        n += "(" + ":," * rk + "1)"
        std += "_one"
    s = f"[ {n} ]\n  standard_name = {std}\n  units = 1\n  dimensions = ({', '.join(DIMS[:rk])})\n  type = {v['t']}\n"
    if v["k"]:
        s += f"  kind = {v['k']}\n"
    if v["it"]:
        s += f"  intent = {v['it']}\n"
    if v["op"]:
        s += "  optional = True\n"
    return s


def metadata(t):
    s, M = "", t["meta"]
    if t["mode"] == "scheme":
        c = M[0]["c"] if M else 0
        sch = ("sch", "SCH", "Sch")[c]
        s = f"[ccpp-table-properties]\n  name = {sch}\n  type = scheme\n"
        for m in M:
            s += f"\n[ccpp-arg-table]\n  name = {sch}{m['n'][3:]}\n  type = scheme\n" + "".join(variable(v, "scheme") for v in m["v"])
    else:
        for m in M:
            n = (m["n"], m["n"].upper(), m["n"].capitalize())[m["c"]]
            s += f"\n[ccpp-table-properties]\n  name = {n}\n  type = {m['kind']}\n[ccpp-arg-table]\n  name = {n}\n  type = {m['kind']}\n" + "".join(variable(v, "host") for v in m["v"])
    return s

