"""Execution of calls (and simulations) on the real VHDL sources with GHDL: the concrete side of replay and validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from collections import namedtuple
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from .sym import *
from .types import *

REPO = os.environ.get("VERIF_REPO", "/repo")
GHDL = shutil.which("ghdl") or "/usr/bin/ghdl"
Call = namedtuple("Call", "fn args ret pkg named proc files out", defaults=(None, None))
Sim = namedtuple("Sim", "entity generics stim outs opts")

VECNAME = {id(SLV): ("slv", "ieee.std_logic_1164.std_ulogic_vector"), id(NSU): ("nsu", "ieee.numeric_std.unsigned"),
           id(NSS): ("nss", "ieee.numeric_std.signed"), id(NBU): ("nbu", "ieee.numeric_bit.unsigned"),
           id(NBS): ("nbs", "ieee.numeric_bit.signed"), id(BITV): ("bv", "bit_vector"), id(STRING): ("str", "string")}
VECTY = {"slv": SLV, "nsu": NSU, "nss": NSS, "nbu": NBU, "nbs": NBS, "bv": BITV, "str": STRING}
VTYPE = {k: t for k, t in VECNAME.values()}


def dump(v):
    """canonical text of a concrete value"""
    if isinstance(v, list):
        return "!" + dump(v[0])
    if isinstance(v, bool):
        return f"b{int(v)}"
    if isint(v):
        return f"i{ival(v)}"
    if isinstance(v, R):
        return f"r{v.x.frac()}"
    if isinstance(v, EV):
        return f"e{v.ty.name}:{v.v}"
    if isinstance(v, Vec):
        return f"v{v.ty.name if v.ty else 'lit'}:{v.left}:{v.right}:{int(v.to)}:" + \
            (f"b{v.bv}" if v.bv is not None else ",".join(map(str, v.lst)))
    if isinstance(v, Arr):
        return f"a{v.ty.name}:{v.left}:{v.right}:{int(v.to)}[" + ";".join(dump(x) for x in v.lst) + "]"
    if isinstance(v, Rec):
        return f"R{v.ty.name}(" + ";".join(dump(x) for x in v.f.values()) + ")"
    if isinstance(v, Ref):
        return "l" + dump(v.cell.val)
    if isinstance(v, Null):
        return "null"
    raise Unsupported(f"no concrete text for {v}")


def callkey(fn, args, ret, pkg, named, proc, files=None, out=None):
    return "|".join([fn, pkg, str(ret), str(int(proc))] + [dump(a) for a in args] +
                    [k + "=" + dump(a) for k, a in sorted((named or {}).items())] +
                    ([repr(files), str(out)] if files or out else []))


class Sim:
    """a simulation of an entity: stim = one dict of input port values per clock cycle"""
    def __init__(self, entity, generics, stim, outs, k):
        self.entity, self.generics, self.stim, self.outs, self.k = entity, generics, stim, outs, k


def simkey(entity, generics, stim, outs, k):
    return "|".join(["sim", entity] + [n + "=" + dump(v) for n, v in generics.items()] +
                    [",".join(n + "=" + dump(v) for n, v in c.items()) for c in stim] + list(outs) + [f"{n}={v}" for n, v in sorted(k.items())])


# ---------------------------------------------------------------------- values
def kind(v):
    if isinstance(v, bool):
        return "bool"
    if isint(v):
        return "int"
    if isinstance(v, R):
        return "real"
    if isinstance(v, EV):
        return "enum:" + v.ty.name
    if isinstance(v, Vec):
        return VECNAME[id(v.ty)][0]
    if isinstance(v, Rec):
        return "fmt" if v.ty.name == "fixformat_t" else "rec:" + v.ty.name
    if isinstance(v, (Ref, Null)):
        return "line"
    if isinstance(v, Arr):
        e = kind(v.lst[0]) if v.lst else "int" if v.ty.elem.ty.kind == "int" else "bool" if v.ty.elem.ty.kind == "bool" else "slv"
        if v.est is not None and v.est.ty.kind == "array" and id(v.est.ty) in VECNAME:
            e = VECNAME[id(v.est.ty)][0]
        return f"arr:{v.ty.name}:{e}"
    raise Unsupported(f"kind of {v}")


ENUMNAME = {"std_ulogic": "ieee.std_logic_1164.std_ulogic", "character": "character", "bit": "bit"}
TYPEEXPR = {"bool": "boolean", "int": "integer", "real": "real", "fmt": "FixFormat_t", "line": "line", **VTYPE}


def typename(k):
    if k in TYPEEXPR:
        return TYPEEXPR[k]
    if k.startswith("enum:"):
        return ENUMNAME.get(k[5:], k[5:])
    if k.startswith("arr:"):
        return k.split(":")[1]
    raise Unsupported("type of " + k)


def reader(k):
    if k.startswith("enum:"):
        return f"{typename(k)}'val(rd_int)"
    return f"rd_{k}"


def vecchars(v):
    et = v.ty.elem.ty
    if et is CHAR:
        return [chr(c) for c in v.raws()]
    return [et.lits[r][1] for r in v.raws()]


def data(v):
    """tokens read by the reader of kind(v)"""
    k = kind(v)
    if k == "bool":
        return [str(int(v))]
    if k == "int":
        return [str(ival(v))]
    if k.startswith("enum:"):
        return [str(v.v)]
    if k == "real":
        f = v.x.frac()
        if f == 0:
            return ["0", "0", "0", "0"]
        s, f = (1, -f) if f < 0 else (0, f)
        e = 0
        n, d = f.numerator, f.denominator
        e = -(d.bit_length() - 1)
        while n % 2 == 0:
            n //= 2
            e += 1
        if n.bit_length() > 53:
            raise Unsupported("real argument is not a double")
        return [str(s), str(n >> 27), str(n & (2**27 - 1)), str(e)]
    if k == "fmt":
        return [str(ival(x)) for x in v.f.values()]
    if k == "str":
        return [str(v.left), str(v.right), "1" if v.to else "0"] + [str(c) for c in v.raws()]
    if k in VTYPE:
        return [str(v.left), str(v.right), "1" if v.to else "0", "".join(vecchars(v)) or "-"]
    if k == "line":
        return ["0"] if isinstance(v, Null) else ["1"] + data(v.cell.val)
    raise Unsupported("data of " + k)


def literal(v):
    k = kind(v)
    if k in VTYPE and k != "str":
        return '"' + "".join(vecchars(v)) + '"'
    if k == "int":
        return f"({ival(v)})" if ival(v) != INTMIN else "(-2147483647-1)"
    if k == "bool":
        return str(v).lower()
    if k.startswith("enum:"):
        return f"{typename(k)}'val({v.v})"
    raise Unsupported("literal of " + k)


def rangetext(v):
    return f"({v.left} {'to' if v.to else 'downto'} {v.right})"


def arrdecl(v):
    """(type text, literal) of an array of vectors / integers"""
    t = v.ty.name + rangetext(v)
    e = v.lst[0] if v.lst else None
    if isinstance(e, Vec):
        t += rangetext(e)
    elif e is None and v.est is not None and v.est.rng is not None and v.est.ty.kind == "array":
        l, r, to = v.est.rng
        t += f"({l} {'to' if to else 'downto'} {r})"
    if v.n == 0:
        return t, None
    return t, "(" + ", ".join(f"{i} => {literal(x)}" for i, x in zip(v.idx(), v.lst)) + ")"


RD = """
    impure function rd_int return integer is
        variable x : integer;
    begin
        std.textio.read(ln, x);
        return x;
    end function;
    impure function rd_bool return boolean is
    begin
        return rd_int = 1;
    end function;
    impure function rd_tok return string is
        variable c : character;
        variable l : integer := ln'low;
        variable h : integer;
    begin
        std.textio.read(ln, c);
        while c = ' ' loop
            std.textio.read(ln, c);
        end loop;
        l := 0;
        tok(1) := c;
        l := 1;
        while ln'length > 0 loop
            std.textio.read(ln, c);
            exit when c = ' ';
            l := l + 1;
            tok(l) := c;
        end loop;
        return tok(1 to l);
    end function;
    impure function rd_real return real is
        constant s : integer := rd_int;
        constant hi : integer := rd_int;
        constant lo : integer := rd_int;
        variable e : integer := rd_int;
        variable v : real := real(hi) * 2.0**27 + real(lo);
    begin
        while e < -500 loop
            v := v * 2.0**(-500);
            e := e + 500;
        end loop;
        while e > 500 loop
            v := v * 2.0**500;
            e := e - 500;
        end loop;
        v := v * 2.0**e;
        if s = 1 then
            v := -v;
        end if;
        return v;
    end function;
    impure function rd_str return string is
        constant l : integer := rd_int;
        constant r : integer := rd_int;
        constant d : integer := rd_int;
        variable v : string(l to r);
    begin
        for i in l to r loop
            v(i) := character'val(rd_int);
        end loop;
        return v;
    end function;
    impure function rd_line return line is
    begin
        if rd_int = 0 then
            return null;
        end if;
        return new string'(rd_str);
    end function;
    procedure p_int(x : integer) is
    begin
        report "#R " & to_string(x);
    end procedure;
    procedure p_bool(x : boolean) is
    begin
        report "#R " & to_string(boolean'pos(x));
    end procedure;
    procedure p_real(x : real) is
    begin
        report "#R " & to_string(x, "%.20e");
    end procedure;
    procedure p_str(x : string) is
        variable o : line;
    begin
        write(o, string'("#R ") & to_string(x'left) & " " & to_string(x'right) & " " & to_string(boolean'pos(x'ascending)));
        for i in x'range loop
            write(o, " " & to_string(character'pos(x(i))));
        end loop;
        report o.all;
    end procedure;
    procedure wr_file(name : string) is
        file g : text open write_mode is name;
        variable o : line;
        variable n : integer := rd_int;
        variable m : integer;
    begin
        for i in 1 to n loop
            m := rd_int;
            for j in 1 to m loop
                std.textio.write(o, character'val(rd_int));
            end loop;
            std.textio.writeline(g, o);
        end loop;
        file_close(g);
    end procedure;
    procedure pr_file(name : string) is
        file g : text open read_mode is name;
        variable i : line;
        variable o : line;
    begin
        while not endfile(g) loop
            std.textio.readline(g, i);
            std.textio.write(o, string'("#R F"));
            for j in i'range loop
                std.textio.write(o, string'(" ") & to_string(character'pos(i(j))));
            end loop;
            report o.all;
            deallocate(o);
        end loop;
        file_close(g);
    end procedure;
    procedure p_line(variable x : inout line) is
    begin
        if x = null then
            report string'("#R null");
        else
            p_str(x.all);
        end if;
    end procedure;
"""
RDFMT = """
    impure function rd_fmt return FixFormat_t is
        constant s : integer := rd_int;
        constant i : integer := rd_int;
        constant f : integer := rd_int;
    begin
        return (s, i, f);
    end function;
    procedure p_fmt(x : FixFormat_t) is
    begin
        report "#R " & to_string(x.S) & " " & to_string(x.I) & " " & to_string(x.F);
    end procedure;
"""


def vecio(k):
    t = VTYPE[k]
    e = "bit" if k in ("nbu", "nbs", "bv") else "std_ulogic"
    return f"""
    impure function rd_{k} return {t} is
        constant l : integer := rd_int;
        constant r : integer := rd_int;
        constant d : integer := rd_int;
        constant s : string := rd_tok;
        variable vt : {t}(l to r);
        variable vd : {t}(l downto r);
    begin
        if d = 1 then
            for i in vt'range loop
                vt(i) := {e}'value("'" & s(i-l+1) & "'");
            end loop;
            return vt;
        end if;
        for i in vd'range loop
            vd(i) := {e}'value("'" & s(l-i+1) & "'");
        end loop;
        return vd;
    end function;
    procedure p_{k}(x : {t}) is
        variable s : string(1 to x'length);
        variable p : integer := 1;
    begin
        for i in x'range loop
            s(p) := character'value({e}'image(x(i)));
            p := p + 1;
        end loop;
        report "#R " & to_string(x'left) & " " & to_string(x'right) & " " & to_string(boolean'pos(x'ascending)) & " " & s & " ";
    end procedure;
"""


def arrio(k):
    _, ty, e = k.split(":")
    return f"""
    procedure p_arr_{ty}(x : {ty}) is
    begin
        report "#R " & to_string(x'left) & " " & to_string(x'right) & " " & to_string(boolean'pos(x'ascending));
        for i in x'range loop
            p_{e}(x(i));
        end loop;
        report string'("#E");
    end procedure;
"""


def printer(k):
    if k.startswith("enum:"):
        return "p_int"
    if k.startswith("arr:"):
        return "p_arr_" + k.split(":")[1]
    return "p_" + k


class TB:
    """one testbench executing many calls"""
    def __init__(self, items, dirs, interp):
        self.items, self.dirs, self.interp = items, dirs, interp
        self.handlers, self.hid, self.lines = [], {}, []
        self.kinds = set()
        self.arrs = set()
        self.expect = []
        for key, (c, r, err) in items:
            self.add(c, r)

    def usek(self, k):
        if k.startswith("arr:"):
            self.arrs.add(k)
            self.usek(k.split(":")[2])
        elif k in VTYPE and k != "str":
            self.kinds.add(k)
        elif k == "fmt":
            self.kinds.add(k)

    def add(self, c, r):
        args = [(None, a) for a in c.args] + sorted((c.named or {}).items())
        sig, toks, decl, actual, outs = [], [], [], [], []
        for i, (nm, a) in enumerate(args):
            out = isinstance(a, list)
            v = a[0] if out else a
            k = kind(v)
            self.usek(k)
            cls = "variable" if out else "constant"
            if k.startswith("arr:"):
                t, lit = arrdecl(v)
                decl.append(f"        {cls} a{i} : {t}" + (f" := {lit};" if lit is not None else ";") )
                if lit is None and not out:
                    decl[-1] = f"        variable a{i} : {t};"
            else:
                t = typename(k)
                if out and k in VTYPE:
                    t += rangetext(v)
                    if k in ("str",):
                        pass
                decl.append(f"        {cls} a{i} : {t} := {reader(k)};")
                toks += data(v)
            actual.append((f"{nm} => " if nm else "") + f"a{i}")
            if out:
                outs.append((i, k))
        q = f"work.{c.pkg}." if "fileio" in c.pkg else ""
        if c.proc:
            rk = None
            body = [f"        {q}{c.fn}({', '.join(actual)});"]
        else:
            res = r[0] if outs and isinstance(r, tuple) else r
            rk = c.ret or (kind(res) if res is not None else None)
            if rk is None:
                raise Unsupported(f"result type of {c.fn} unknown")
            self.usek(rk)
            call = f"{q}{c.fn}({', '.join(actual)})" if actual else q + c.fn
            if rk.startswith("enum:"):
                call = f"{typename(rk)}'pos({call})"
            body = [f"        {printer(rk)}({call});"]
        for i, k in outs:
            self.usek(k)
            x = f"a{i}"
            if k.startswith("enum:"):
                x = f"{typename(k)}'pos({x})"
            body.append(f"        {printer(k)}({x});")
        pre = []
        for n, ls in (c.files or {}).items():
            pre.append(f'        wr_file("{n}");')
            toks += [str(len(ls))] + [t for l in ls for t in [str(len(l))] + [str(x) for x in l]]
        if c.out is not None:
            body.append(f'        pr_file("{c.out}");')
        text = "\n".join(decl) + "\n    begin\n" + "\n".join(pre + body)
        if text not in self.hid:
            self.hid[text] = len(self.handlers)
            self.handlers.append(text)
        self.lines.append(" ".join([str(self.hid[text])] + toks))
        self.expect.append((rk, [k for _, k in outs]))

    def source(self):
        pk = "\n".join(f"    use work.{p}.all;" for p in self.pkgs())
        s = f"""library std;
    use std.textio.all;
library ieee;
    use ieee.std_logic_1164.all;
library work;
{pk}
entity verif_tb is generic (start : integer := 0); end entity;
architecture a of verif_tb is
begin
process
    file f : text open read_mode is "calls.txt";
    variable ln : line;
    variable tok : string(1 to 5000);
    variable k : integer := 0;
{RD}
"""
        if "fmt" in self.kinds:
            s += RDFMT
        for k in sorted(self.kinds - {"fmt"}):
            s += vecio(k)
        for k in sorted(self.arrs):
            s += arrio(k)
        for i, h in enumerate(self.handlers):
            s += f"    procedure h{i} is\n{h}\n    end procedure;\n"
        s += """
begin
    while not endfile(f) loop
        std.textio.readline(f, ln);
        if k >= start then
            report "#B " & to_string(k);
            case rd_int is
"""
        for i in range(len(self.handlers)):
            s += f"            when {i} => h{i};\n"
        s += """
            when others => null;
            end case;
            report "#D " & to_string(k);
        end if;
        k := k + 1;
    end loop;
    report string'("#END");
    wait;
end process;
end architecture;
"""
        return s

    def pkgs(self):
        return [p for p in PKGS if p in {u[1] for u in self.interp.units if u[0] == "package"}]

    def run(self, lib):
        with tempfile.TemporaryDirectory(prefix="verif_ghdl_") as d:
            open(os.path.join(d, "tb.vhd"), "w").write(self.source())
            open(os.path.join(d, "calls.txt"), "w").write("\n".join(self.lines) + "\n")
            ghdl(["-a", "--std=08", f"--workdir={d}", f"-P{lib}", "tb.vhd"], d, libwork=lib)
            ghdl(["-e", "--std=08", f"--workdir={d}", f"-P{lib}", "-o", "tb", "verif_tb"], d)
            out = []
            start = 0
            while start < len(self.lines):
                p = subprocess.run(["./tb", f"-gstart={start}", "--ieee-asserts=enable"], cwd=d, capture_output=False, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=600, errors="replace")
                done = self.parse(p.stdout, out)
                if done:
                    break
                if len(out) <= start:
                    raise RuntimeError("GHDL testbench made no progress: " + p.stdout[-1500:])
                start = len(out)
        return out

    def parse(self, text, out):
        cur = None
        for l in text.splitlines():
            m = re.match(r"^(.*?):@\w+:\((report|assertion) (\w+)\): ?(.*)$", l)
            if m:
                src, how, sev, msg = m.groups()
                if msg.startswith("#B "):
                    cur = dict(res=[], reps=[], err=None, done=False)
                    out.append(cur)
                elif msg.startswith("#D "):
                    cur["done"] = True
                elif msg.startswith("#R "):
                    cur["res"].append(msg[3:])
                elif msg.startswith("#END"):
                    return True
                elif msg.startswith("#E"):
                    cur["res"].append("#E")
                elif cur is not None:
                    if sev == "failure":
                        cur["err"] = f"{how} failure: {msg}"
                    else:
                        cur["reps"].append((("lib" if "/ieee" in src or "numeric_std" in src or "std_logic" in src else sev), msg))
                continue
            if "error" in l and cur is not None and not cur["done"]:
                cur["err"] = cur["err"] or l.strip()
        if cur is not None and not cur["done"] and cur["err"] is None:
            cur["err"] = "stopped"
        return False

    def results(self, out):
        res = {}
        for (key, (c, r, err)), o, (rk, oks) in zip(self.items, out, self.expect):
            if o["err"] is not None:
                res[key] = (None, o["err"], o["reps"])
                continue
            toks = list(o["res"])
            v = self.unpack(rk, toks) if rk else None
            if oks:
                v = (v, [self.unpack(k, toks) for k in oks])
            if c.out is not None:
                v = (v, [[int(x) for x in t.split(" ")[1:]] for t in toks])
            res[key] = (v, None, o["reps"])
        return res

    def unpack(self, k, toks):
        t = toks.pop(0)
        if k == "int":
            return int(t)
        if k == "bool":
            return t.strip() == "1"
        if k == "real":
            return R(exf(Fraction(float(t))))
        if k.startswith("enum:"):
            return EV(self.enumty(k[5:]), int(t))
        w = t.split(" ")
        if k == "line":
            if t == "null":
                return NULL
            return Ref(Cell("line", St(STRING), "variable", self.unpack("str", [t])))
        if k == "fmt":
            ty = self.interp.package("work", "en_cl_fix_pkg").d["fixformat_t"][0].ty
            return Rec(ty, dict(zip([n for n, _ in ty.fields], map(int, w))))
        if k == "str":
            return Vec(STRING, int(w[0]), int(w[1]), w[2] == "1", len(w) - 3, lst=[int(c) for c in w[3:]])
        if k in VTYPE:
            ty = VECTY[k]
            bits = w[3] if len(w) > 3 else ""
            return mkvec(ty, [ty.elem.ty.lits.index("'" + c) for c in bits], int(w[0]), int(w[1]), w[2] == "1")
        if k.startswith("arr:"):
            _, tn, e = k.split(":")
            ty = self.findty(tn)
            lst = []
            while toks[0] != "#E":
                lst.append(self.unpack(e, toks))
            toks.pop(0)
            return Arr(ty, int(w[0]), int(w[1]), w[2] == "1", lst)
        raise Unsupported("unpack " + k)

    def enumty(self, n):
        if n in ("std_ulogic", "bit", "character"):
            return {"std_ulogic": LOGIC, "bit": BIT, "character": CHAR}[n]
        return self.findty(n)

    def findty(self, n):
        if n == "integer_vector":
            return INTV
        for p in self.pkgs():
            it = self.interp.package("work", p).d.get(n)
            if it and hasattr(it[0], "ty"):
                return it[0].ty
        raise Unsupported("type " + n)


PKGS = ["en_cl_fix_pkg", "en_cl_fix_private_pkg", "en_tb_base_pkg", "en_tb_fileio_text_private_pkg", "en_tb_fileio_text_pkg"]
_LIBS = {}


class Compile(Exception):
    pass


def ghdl(args, cwd, libwork=None):
    if libwork:
        shutil.copytree(libwork, cwd, dirs_exist_ok=True)
    p = subprocess.run([GHDL] + args, cwd=cwd, capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise Compile("ghdl " + " ".join(args[:2]) + ": " + (p.stdout + p.stderr)[-3000:])
    return p.stdout


def order(files):
    """analysis order: packages before the units that use them"""
    rest = list(files)
    texts = {f: open(f, errors="replace").read().lower() for f in files}
    defs = {f: set(re.findall(r"^\s*(?:package|entity|context)\s+(\w+)\s+is", t, re.M)) for f, t in texts.items()}
    allu = set().union(*defs.values()) if defs else set()
    out, have = [], set()
    while rest:
        for f in rest:
            used = (set(re.findall(r"\bwork\.(\w+)", texts[f])) & allu) - defs[f]
            if used <= have:
                break
        else:
            f = rest[0]
        rest.remove(f)
        out.append(f)
        have |= defs[f]
    return out


def build(dirs):
    """compile the sources once per process; returns the library directory"""
    if dirs in _LIBS:
        return _LIBS[dirs].name
    td = tempfile.TemporaryDirectory(prefix="verif_lib_")
    _LIBS[dirs] = td
    files = []
    for d in dirs:
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(r, f) for f in fs if f.endswith((".vhd", ".vhdl"))]
    extra = []
    if any("en_tb" in d for d in dirs):
        stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vunit_stub.vhd")
        ghdl(["-a", "--std=08", f"--workdir={td.name}", "--work=vunit_lib", stub], td.name)
    files = [f for f in files if re.search(r"^\s*(package|entity)\s", open(f, errors="replace").read(), re.M | re.I)]
    for f in order(sorted(files)):
        ghdl(["-a", "--std=08", f"--workdir={td.name}", f"-P{td.name}", f], td.name)
    return td.name


def execute(need, dirs, interp):
    lib = build(dirs)
    res = {}
    calls = [(k, v) for k, v in need.items() if isinstance(v[0], Call)]
    sims = [(k, v) for k, v in need.items() if not isinstance(v[0], Call)]
    if calls:
        njob = max(1, min(8, len(calls) // 40))
        # group by function so that each testbench has few handlers
        calls.sort(key=lambda kv: kv[0])
        n = (len(calls) + njob - 1) // njob
        tbs = [TB(calls[i:i + n], dirs, interp) for i in range(0, len(calls), n)]
        with ThreadPoolExecutor(8) as ex_:
            for tb, out in zip(tbs, ex_.map(lambda t: t.run(lib), tbs)):
                res.update(tb.results(out))
    if sims:
        from . import simrun
        res.update(simrun.execute(sims, dirs, interp, lib))
    return res
