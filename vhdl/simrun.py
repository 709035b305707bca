"""Clocked simulations of entities with GHDL (the counterpart of simu.py)."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .sym import *
from .types import *


LCHARS = [l[1].lower() for l in LOGIC.lits]


def literal(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isint(v):
        return str(ival(v)) if ival(v) >= 0 else f"({ival(v)})"
    if isinstance(v, EV):
        return v.ty.lits[v.v]
    if isinstance(v, Rec):
        return "(" + ", ".join(f"{n} => {literal(x)}" for n, x in v.f.items()) + ")"
    raise Unsupported("generic value")


def sigtype(v):
    if isinstance(v, EV) and v.ty is LOGIC:
        return "std_logic"
    if isinstance(v, Vec) and v.ty is SLV:
        return f"std_logic_vector({v.left} {'to' if v.to else 'downto'} {v.right})"
    raise Unsupported("port type")


def chars(v):
    if isinstance(v, EV):
        return LOGIC.lits[v.v][1]
    return "".join(LOGIC.lits[r][1] for r in v.raws())


def source(sim, res):
    first = sim.stim[0]
    ins = list(first)
    clk = sim.k.get("clk", "clk")
    sigs = {n: sigtype(v) for n, v in first.items()}
    for o in sim.outs:
        sigs[o] = sigtype(res[0][0][o])
    decl = "".join(f"    signal p_{n} : {t};\n" for n, t in sigs.items())
    gm = ",\n        ".join(f"{n} => {literal(v)}" for n, v in sim.generics.items())
    pm = ",\n        ".join([f"{clk} => p_clk"] + [f"{n} => p_{n}" for n in sigs])
    rd = ""
    for n in ins:
        v = first[n]
        if isinstance(v, EV):
            rd += f"            std.textio.read(ln, c); std.textio.read(ln, c2); p_{n} <= std_ulogic'value(\"'\" & c & \"'\");\n"
        else:
            rd += f"""            for i in p_{n}'range loop
                std.textio.read(ln, c);
                p_{n}(i) <= std_ulogic'value("'" & c & "'");
            end loop;
            std.textio.read(ln, c2);
"""

    def dump(tag):
        s = f'            write(o, string\'("{tag}"));\n'
        for n in sim.outs:
            v = res[0][0][n]
            s += "            write(o, string'(\" \"));\n"
            if isinstance(v, EV):
                s += f"            write(o, std_ulogic'image(p_{n})(2));\n"
            else:
                s += f"            for i in p_{n}'range loop write(o, std_ulogic'image(p_{n}(i))(2)); end loop;\n"
        return s + "            writeline(f_out, o);\n"
    g = f"    generic map(\n        {gm})\n" if gm else ""
    return f"""library ieee; use ieee.std_logic_1164.all;
use std.textio.all;
use work.en_cl_fix_pkg.all;
entity verif_sim is end entity;
architecture tb of verif_sim is
    signal p_clk : std_logic := '0';
{decl}begin
    dut : entity work.{sim.entity}
{g}    port map(
        {pm});
    process
        file f_in : text open read_mode is "stim.txt";
        file f_out : text open write_mode is "out.txt";
        variable ln, o : line;
        variable c, c2 : character;
    begin
        while not endfile(f_in) loop
            readline(f_in, ln);
            p_clk <= '0';
            if now > 0 ns then
                wait for 1 ns;
            end if;
{rd}            wait for 5 ns;
{dump("pre")}            p_clk <= '1';
            wait for 4 ns;
{dump("post")}        end loop;
        wait;
    end process;
end architecture;
"""


def execute(sims, dirs, interp, lib):
    from .ghdl import ghdl, Compile
    groups = {}
    for key, (sim, r, err) in sims:
        if err is not None or r is None:
            raise Unsupported("simulation failed in the interpreter: " + str(err))
        groups.setdefault(source(sim, r), []).append((key, sim, r))

    def one(item):
        src, lst = item
        out = {}
        with tempfile.TemporaryDirectory(prefix="verif_sim_") as d:
            open(os.path.join(d, "tb.vhd"), "w").write(src)
            ghdl(["-a", "--std=08", f"--workdir={d}", f"-P{lib}", "tb.vhd"], d, libwork=lib)
            ghdl(["-e", "--std=08", f"--workdir={d}", f"-P{lib}", "-o", "tb", "verif_sim"], d)
            for key, sim, r in lst:
                with open(os.path.join(d, "stim.txt"), "w") as f:
                    for cyc in sim.stim:
                        f.write("".join(chars(v) + " " for v in cyc.values()) + "\n")
                p = subprocess.run(["./tb"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, errors="replace", text=True)
                lines = open(os.path.join(d, "out.txt")).read().splitlines()
                if p.returncode or len(lines) != 2 * len(sim.stim):
                    m = re.search(r"(error|failure).*", p.stdout)
                    out[key] = (None, m.group(0) if m else "simulation stopped", [])
                    continue
                vals = []
                for i in range(len(sim.stim)):
                    pair = []
                    for l in lines[2 * i:2 * i + 2]:
                        w = l.split(" ")[1:]
                        dd = {}
                        for o, t in zip(sim.outs, w):
                            ref = r[0][0][o]
                            raws = [LCHARS.index(c.lower()) for c in t]
                            dd[o] = EV(LOGIC, raws[0]) if isinstance(ref, EV) else mkvec(SLV, raws, ref.left, ref.right, ref.to)
                        pair.append(dd)
                    vals.append(tuple(pair))
                out[key] = (vals, None, [])
        return out
    res = {}
    with ThreadPoolExecutor(8) as ex_:
        for o in ex_.map(one, groups.items()):
            res.update(o)
    return res
