"""VHDL-2008 parser (the subset that synthesizable and test-bench packages use).  Nodes are `Nd` objects."""
import re


class VhdlSyntax(Exception):
    pass


class Nd:
    def __init__(self, k, line, **a):
        self.__dict__ = a
        self.k = k
        self.line = line

    @property
    def a(self):
        return {x: y for x, y in self.__dict__.items() if x not in ("k", "line", "file")}

    def __repr__(self):
        return f"{self.k}{self.a}"


TOK = re.compile(r"""
 (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
|(?P<bitstr>\d*(?:[us]?[box]|d)"[^"\n]*")
|(?P<num>\d[\d_]*\#[0-9a-f_]+(?:\.[0-9a-f_]+)?\#(?:e[+-]?\d+)?|\d[\d_]*(?:\.\d[\d_]*)?(?:e[+-]?\d+)?)
|(?P<id>[a-z][a-z0-9_]*|\\[^\\\n]+\\)
|(?P<str>"(?:[^"\n]|"")*")
|(?P<op>\*\*|:=|<=|>=|=>|/=|\?/=|\?<=|\?>=|\?=|\?<|\?>|\?\?|<<|>>|<>|[-+*/&=<>()|,;:.'@\[\]?^])
""", re.X | re.I | re.S)

KEYWORDS = set("""abs access after alias all and architecture array assert attribute begin block body buffer bus case
component configuration constant context default disconnect downto else elsif end entity exit file for force function
generate generic group guarded if impure in inertial inout is label library linkage literal loop map mod nand new next nor
not null of on open or others out package parameter port postponed procedure process protected pure range record register
reject release rem report return rol ror select severity signal shared sla sll sra srl subtype then to transport type
unaffected units until use variable wait when while with xnor xor""".split())


def lex(text, fname):
    out = []
    i, n, line = 0, len(text), 1
    prev = None
    while i < n:
        c = text[i]
        if c == "'":
            tick = prev is not None and (prev[0] == "id" and (prev[1] not in KEYWORDS or prev[1] == "all")
                                         or prev[0] == "str" or prev[0] == "op" and prev[1] in (")", "]")
                                         or prev[0] == "chr")
            if not tick and i + 2 < n and text[i + 2] == "'":
                prev = ("chr", text[i + 1], line)
                out.append(prev)
                i += 3
                continue
            prev = ("op", "'", line)
            out.append(prev)
            i += 1
            continue
        m = TOK.match(text, i)
        if not m:
            raise VhdlSyntax(f"{fname}:{line}: cannot read {text[i:i+20]!r}")
        k = m.lastgroup
        t = m.group()
        if k != "ws":
            if k == "id":
                t = t.lower()
            elif k == "str":
                t = t[1:-1].replace('""', '"')
            prev = (k, t, line)
            out.append(prev)
        line += t.count("\n") if k == "ws" else 0
        i = m.end()
    out.append(("eof", "", line))
    return out


class Parser:
    def __init__(self, text, fname):
        self.f = fname
        self.t = lex(text, fname)
        self.p = 0

    # ---- helpers
    def peek(self, o=0):
        return self.t[min(self.p + o, len(self.t) - 1)]

    def err(self, msg):
        k, t, l = self.peek()
        raise VhdlSyntax(f"{self.f}:{l}: {msg}, found {t!r}")

    def isop(self, *ops):
        k, t, _ = self.peek()
        return k == "op" and t in ops

    def iskw(self, *kw):
        k, t, _ = self.peek()
        return k == "id" and t in kw

    def op(self, o):
        if not self.isop(o):
            self.err(f"expected {o!r}")
        self.p += 1

    def kw(self, o):
        if not self.iskw(o):
            self.err(f"expected {o!r}")
        self.p += 1

    def acc_op(self, o):
        if self.isop(o):
            self.p += 1
            return True
        return False

    def acc_kw(self, o):
        if self.iskw(o):
            self.p += 1
            return True
        return False

    def ident(self):
        k, t, _ = self.peek()
        if k != "id" or t in KEYWORDS:
            self.err("expected identifier")
        self.p += 1
        return t

    def nd(self, k, line=None, **a):
        return Nd(k, line if line is not None else self.peek()[2], **a)

    # ---- expressions
    LOG = ("and", "or", "xor", "nand", "nor", "xnor")
    REL = ("=", "/=", "<", "<=", ">", ">=", "?=", "?/=", "?<", "?<=", "?>", "?>=")
    SHF = ("sll", "srl", "sla", "sra", "rol", "ror")

    def expr(self):
        l = self.peek()[2]
        if self.acc_op("??"):
            return self.nd("un", l, op="??", x=self.primary())
        x = self.relation()
        while self.iskw(*self.LOG):
            o = self.peek()[1]
            self.p += 1
            x = self.nd("bin", l, op=o, x=x, y=self.relation())
        return x

    def relation(self):
        l = self.peek()[2]
        x = self.shiftx()
        if self.isop(*self.REL):
            o = self.peek()[1]
            self.p += 1
            x = self.nd("bin", l, op=o, x=x, y=self.shiftx())
        return x

    def shiftx(self):
        l = self.peek()[2]
        x = self.simple()
        if self.iskw(*self.SHF):
            o = self.peek()[1]
            self.p += 1
            x = self.nd("bin", l, op=o, x=x, y=self.simple())
        return x

    def simple(self):
        l = self.peek()[2]
        sign = None
        if self.isop("+", "-"):
            sign = self.peek()[1]
            self.p += 1
        x = self.term()
        if sign:
            x = self.nd("un", l, op=sign, x=x)
        while self.isop("+", "-", "&"):
            o = self.peek()[1]
            self.p += 1
            x = self.nd("bin", l, op=o, x=x, y=self.term())
        return x

    def term(self):
        l = self.peek()[2]
        x = self.factor()
        while self.isop("*", "/") or self.iskw("mod", "rem"):
            o = self.peek()[1]
            self.p += 1
            x = self.nd("bin", l, op=o, x=x, y=self.factor())
        return x

    def factor(self):
        l = self.peek()[2]
        if self.iskw("abs", "not", *self.LOG):
            o = self.peek()[1]
            self.p += 1
            return self.nd("un", l, op=o, x=self.primary())
        x = self.primary()
        if self.acc_op("**"):
            x = self.nd("bin", l, op="**", x=x, y=self.primary())
        return x

    def primary(self):
        k, t, l = self.peek()
        if k == "num":
            self.p += 1
            if "#" in t:
                b, d = t.split("#")[:2]
                return self.nd("int", l, v=int(d.replace("_", ""), int(b)))
            t = t.replace("_", "").lower()
            if "." in t:
                return self.nd("real", l, v=t)
            if "e" in t:
                m, e = t.split("e")
                return self.nd("int", l, v=int(m) * 10 ** int(e))
            # physical literal (ns, ...): value and unit
            k2, t2, _ = self.peek()
            if k2 == "id" and t2 in ("fs", "ps", "ns", "us", "ms", "sec", "min", "hr"):
                self.p += 1
                return self.nd("phys", l, v=int(t), unit=t2)
            return self.nd("int", l, v=int(t))
        if k == "bitstr":
            self.p += 1
            m = re.match(r"(\d*)([us]?)([boxd])\"(.*)\"", t, re.I)
            n, sg, b, d = m.groups()
            d = d.replace("_", "")
            per = {"b": 1, "o": 3, "x": 4}.get(b.lower())
            if per is None:
                s = format(int(d), "b")
            else:
                s = "".join(format(int(c, 16), f"0{per}b") if c in "0123456789abcdefABCDEF" else c * per for c in d)
            if n:
                n = int(n)
                s = s[-n:] if len(s) >= n else (s[0] if sg.lower() == "s" and s else "0") * (n - len(s)) + s
            return self.nd("str", l, v=s)
        if k == "str":
            # operator symbol used as a function name: "+"(a, b)
            self.p += 1
            if self.isop("(") and re.fullmatch(r"[-+*/&=<>]+|[a-z]+", t.lower()) and False:
                pass
            return self.nd("str", l, v=t)
        if k == "chr":
            self.p += 1
            return self.nd("chr", l, v=t)
        if k == "op" and t == "(":
            return self.paren()
        if k == "id":
            if t == "new":
                self.p += 1
                n = self.name()
                return self.nd("new", l, x=n)
            if t == "null":
                self.p += 1
                return self.nd("null", l)
            if t == "open":
                self.p += 1
                return self.nd("open", l)
            return self.name()
        self.err("expected expression")

    def paren(self):
        """parenthesised expression or aggregate"""
        l = self.peek()[2]
        self.op("(")
        items = []
        while True:
            choices = [self.choice()]
            while self.acc_op("|"):
                choices.append(self.choice())
            if self.acc_op("=>"):
                items.append((choices, self.expr()))
            else:
                items.append((None, choices[0]))
            if self.acc_op(","):
                continue
            self.op(")")
            break
        if len(items) == 1 and items[0][0] is None and items[0][1].k not in ("range", "others"):
            x = items[0][1]
            return self.nd("paren", l, x=x)
        return self.nd("agg", l, items=items)

    def choice(self):
        l = self.peek()[2]
        if self.acc_kw("others"):
            return self.nd("others", l)
        return self.expr_or_range()

    def expr_or_range(self):
        l = self.peek()[2]
        x = self.expr()
        if self.iskw("to", "downto"):
            d = self.peek()[1]
            self.p += 1
            return self.nd("range", l, left=x, dir=d, right=self.expr(), mark=None)
        if self.iskw("range"):     # subtype indication range l to r
            self.p += 1
            r = self.expr_or_range()
            if r.k == "range":
                r.mark = x
            return r
        return x

    def name(self):
        k, t, l = self.peek()
        self.p += 1
        x = self.nd("id", l, n=t)
        return self.suffixes(x)

    def suffixes(self, x):
        while True:
            l = self.peek()[2]
            if self.acc_op("."):
                k, t, _ = self.peek()
                if k not in ("id", "str", "chr"):
                    self.err("expected selected name")
                self.p += 1
                if k == "id" and t == "all":
                    x = self.nd("deref", l, x=x)
                else:
                    x = self.nd("sel", l, x=x, n=t)
            elif self.isop("("):
                x = self.nd("apply", l, x=x, args=self.args())
            elif self.isop("'"):
                if self.peek(1)[0] == "op" and self.peek(1)[1] == "(":
                    self.p += 1
                    x = self.nd("qual", l, t=x, x=self.paren())
                else:
                    self.p += 1
                    k, t, _ = self.peek()
                    if k != "id":
                        self.err("expected attribute")
                    self.p += 1
                    arg = None
                    if self.isop("(") and t not in ("length", "range", "left", "right", "high", "low", "reverse_range",
                                                    "ascending", "element", "subtype", "base", "event"):
                        self.op("(")
                        arg = self.expr()
                        self.op(")")
                    elif self.isop("(") and t in ("length", "range", "left", "right", "high", "low") and \
                            self.peek(1)[0] == "num" and self.peek(2)[1] == ")":
                        self.p += 1
                        arg = self.expr()
                        self.op(")")
                    x = self.nd("attr", l, x=x, n=t, arg=arg)
            elif self.isop("[") :     # signature
                while not self.isop("]"):
                    self.p += 1
                self.p += 1
            else:
                return x

    def args(self):
        self.op("(")
        r = []
        if self.acc_op(")"):
            return r
        while True:
            a = self.choice()
            if self.acc_op("=>"):
                r.append((a, self.expr() if not self.iskw("open") else self.primary()))
            else:
                r.append((None, a))
            if self.acc_op(","):
                continue
            self.op(")")
            return r

    # ---- subtype indication: returns Nd("subtype", mark, cons)
    def subtype(self):
        l = self.peek()[2]
        # optional resolution function: ident ident
        k, t, _ = self.peek()
        x = self.nd("id", l, n=t)
        if k != "id":
            self.err("expected type")
        self.p += 1
        cons = []
        rng = None
        while True:
            if self.acc_op("."):
                x = self.nd("sel", l, x=x, n=self.peek()[1])
                self.p += 1
            elif self.isop("'"):
                self.p += 1
                x = self.nd("attr", l, x=x, n=self.peek()[1], arg=None)
                self.p += 1
            else:
                break
        if self.peek()[0] == "id" and self.peek()[1] not in KEYWORDS and not self.isop("("):
            # resolution function name
            x = self.nd("id", l, n=self.peek()[1])
            self.p += 1
        while self.isop("("):
            self.op("(")
            c = []
            while True:
                if self.iskw("open"):
                    self.p += 1
                    c.append(self.nd("open", l))
                else:
                    c.append(self.expr_or_range())
                if self.acc_op(","):
                    continue
                self.op(")")
                break
            cons.append(c)
        if self.acc_kw("range"):
            rng = self.expr_or_range()
        return self.nd("subtype", l, mark=x, cons=cons, rng=rng)

    # ---- declarations
    def idlist(self):
        r = [self.ident()]
        while self.acc_op(","):
            r.append(self.ident())
        return r

    def interface(self, default_mode="in", kind=None):
        """parameter / generic / port list including parentheses"""
        self.op("(")
        r = []
        while True:
            l = self.peek()[2]
            cls = None
            if self.iskw("constant", "variable", "signal", "file"):
                cls = self.peek()[1]
                self.p += 1
            elif self.iskw("type", "function", "procedure", "package"):
                self.err("generic types and subprograms are not supported")
            names = self.idlist()
            self.op(":")
            mode = None
            if self.iskw("in", "out", "inout", "buffer", "linkage"):
                mode = self.peek()[1]
                self.p += 1
            st = self.subtype()
            self.acc_kw("bus")
            dflt = None
            if self.acc_op(":="):
                dflt = self.expr()
            for n in names:
                r.append(self.nd("param", l, n=n, cls=cls, mode=mode or default_mode, st=st, dflt=dflt))
            if self.acc_op(";"):
                if self.acc_op(")"):
                    return r
                continue
            self.op(")")
            return r

    def subprogram(self):
        l = self.peek()[2]
        impure = False
        if self.iskw("pure", "impure"):
            impure = self.peek()[1] == "impure"
            self.p += 1
        kind = self.peek()[1]
        self.p += 1
        k, t, _ = self.peek()
        if k not in ("id", "str"):
            self.err("expected designator")
        self.p += 1
        name = t.lower()
        params = []
        if self.acc_kw("parameter"):
            pass
        if self.isop("("):
            params = self.interface()
        ret = None
        if kind == "function":
            self.kw("return")
            ret = self.subtype()
        if self.acc_op(";"):
            return self.nd("subdecl", l, kind=kind, n=name, params=params, ret=ret)
        self.kw("is")
        if self.iskw("new"):
            self.err("generic subprogram instantiation is not supported")
        decls = self.decls(("begin",))
        self.kw("begin")
        body = self.stmts(("end",))
        self.kw("end")
        if self.iskw("function", "procedure"):
            self.p += 1
        if not self.isop(";"):
            self.p += 1
        self.op(";")
        return self.nd("subbody", l, kind=kind, n=name, params=params, ret=ret, decls=decls, body=body)

    def decls(self, stop):
        r = []
        while not self.iskw(*stop):
            r.extend(self.decl())
        return r

    def skip_semi(self):
        d = 0
        while True:
            k, t, _ = self.peek()
            if k == "eof":
                self.err("unexpected end of file")
            self.p += 1
            if k == "op" and t == "(":
                d += 1
            elif k == "op" and t == ")":
                d -= 1
            elif k == "op" and t == ";" and d == 0:
                return

    def decl(self):
        k, t, l = self.peek()
        if t in ("function", "procedure", "pure", "impure"):
            return [self.subprogram()]
        if t == "use":
            return [self.useclause()]
        if t in ("constant", "variable", "signal", "shared"):
            if t == "shared":
                self.p += 1
                t = "variable"
            self.p += 1
            names = self.idlist()
            self.op(":")
            st = self.subtype()
            self.acc_kw("bus") or self.acc_kw("register")
            init = None
            if self.acc_op(":="):
                init = self.expr()
            self.op(";")
            return [self.nd("obj", l, cls=t, n=n, st=st, init=init) for n in names]
        if t == "file":
            self.p += 1
            names = self.idlist()
            self.op(":")
            st = self.subtype()
            mode = None
            fn = None
            if self.acc_kw("open"):
                mode = self.expr()
            if self.acc_kw("is"):
                fn = self.expr()
            self.op(";")
            return [self.nd("file", l, n=n, st=st, mode=mode, fn=fn) for n in names]
        if t == "type":
            self.p += 1
            n = self.ident()
            if self.acc_op(";"):
                return []
            self.kw("is")
            d = self.typedef()
            self.op(";")
            return [self.nd("type", l, n=n, d=d)]
        if t == "subtype":
            self.p += 1
            n = self.ident()
            self.kw("is")
            st = self.subtype()
            self.op(";")
            return [self.nd("subtypedecl", l, n=n, st=st)]
        if t == "alias":
            self.p += 1
            k2, n, _ = self.peek()
            self.p += 1
            st = None
            if self.acc_op(":"):
                st = self.subtype()
            self.kw("is")
            x = self.name()
            self.op(";")
            return [self.nd("alias", l, n=n, st=st, x=x)]
        if t == "component":
            while not (self.iskw("end") and self.peek(1)[1] == "component"):
                self.p += 1
            self.skip_semi()
            return []
        if t in ("attribute", "disconnect", "group", "for"):
            self.skip_semi()
            return []
        self.err("unsupported declaration")

    def typedef(self):
        l = self.peek()[2]
        if self.acc_op("("):
            lits = []
            while True:
                k, t, _ = self.peek()
                if k == "chr":
                    lits.append("'" + t)
                else:
                    lits.append(t)
                self.p += 1
                if self.acc_op(","):
                    continue
                self.op(")")
                return self.nd("enum", l, lits=lits)
        if self.acc_kw("record"):
            fs = []
            while not self.iskw("end"):
                ns = self.idlist()
                self.op(":")
                st = self.subtype()
                self.op(";")
                fs += [(n, st) for n in ns]
            self.kw("end")
            self.acc_kw("record")
            if not self.isop(";"):
                self.p += 1
            return self.nd("record", l, fields=fs)
        if self.acc_kw("array"):
            self.op("(")
            idx = []
            while True:
                x = self.expr()
                if self.acc_kw("range"):
                    if self.acc_op("<>"):
                        idx.append(None)
                    else:
                        idx.append(self.expr_or_range())
                elif self.iskw("to", "downto"):
                    d = self.peek()[1]
                    self.p += 1
                    idx.append(self.nd("range", l, left=x, dir=d, right=self.expr()))
                else:
                    idx.append(x)
                if self.acc_op(","):
                    continue
                self.op(")")
                break
            self.kw("of")
            return self.nd("array", l, idx=idx, elem=self.subtype())
        if self.acc_kw("range"):
            r = self.expr_or_range()
            if self.acc_kw("units"):
                self.err("physical types are not supported")
            return self.nd("rangetype", l, rng=r)
        if self.acc_kw("access"):
            return self.nd("access", l, st=self.subtype())
        if self.acc_kw("file"):
            self.kw("of")
            return self.nd("filetype", l, st=self.subtype())
        if self.acc_kw("protected"):
            # opaque
            body = self.acc_kw("body")
            d = 1
            while not (self.iskw("end") and self.peek(1)[1] == "protected"):
                self.p += 1
            self.kw("end")
            self.kw("protected")
            self.acc_kw("body")
            if not self.isop(";"):
                self.p += 1
            return self.nd("opaque", l)
        self.err("unsupported type definition")

    def useclause(self):
        l = self.peek()[2]
        self.kw("use")
        r = []
        while True:
            x = [self.ident()]
            while self.acc_op("."):
                x.append(self.peek()[1])
                self.p += 1
            r.append(x)
            if self.acc_op(","):
                continue
            self.op(";")
            return self.nd("use", l, names=r)

    # ---- sequential statements
    def stmts(self, stop):
        r = []
        while not self.iskw(*stop):
            r.append(self.stmt())
        return r

    def stmt(self):
        k, t, l = self.peek()
        label = None
        if k == "id" and t not in KEYWORDS and self.peek(1)[1] == ":" and self.peek(1)[0] == "op":
            label = t
            self.p += 2
            k, t, l = self.peek()
        if k == "id":
            if t == "if":
                return self.ifstmt(l)
            if t == "case":
                return self.casestmt(l)
            if t in ("for", "while", "loop"):
                return self.loopstmt(l, label)
            if t in ("exit", "next"):
                self.p += 1
                lab = None
                if self.peek()[0] == "id" and self.peek()[1] not in KEYWORDS:
                    lab = self.ident()
                c = self.expr() if self.acc_kw("when") else None
                self.op(";")
                return self.nd(t, l, label=lab, cond=c)
            if t == "return":
                self.p += 1
                x = None if self.isop(";") else self.expr()
                self.op(";")
                return self.nd("return", l, x=x)
            if t == "null":
                self.p += 1
                self.op(";")
                return self.nd("nop", l)
            if t == "assert":
                s = self.assertion()
                self.op(";")
                return s
            if t == "report":
                self.p += 1
                m = self.expr()
                sv = self.expr() if self.acc_kw("severity") else None
                self.op(";")
                return self.nd("report", l, msg=m, sev=sv)
            if t == "wait":
                self.p += 1
                on, until = None, None
                if self.acc_kw("on"):
                    on = [self.name()]
                    while self.acc_op(","):
                        on.append(self.name())
                if self.acc_kw("until"):
                    until = self.expr()
                timed = self.iskw("for")
                self.skip_semi()
                return self.nd("wait", l, on=on, until=until, timed=timed)
            if t == "block" or t == "with":
                self.err("unsupported statement")
        # assignment or procedure call
        if self.isop("("):
            target = self.paren()
        else:
            target = self.name()
        if self.acc_op(":="):
            x = self.condexpr()
            self.op(";")
            return self.nd("vassign", l, t=target, x=x)
        if self.acc_op("<="):
            for w in ("transport", "inertial"):
                self.acc_kw(w)
            x = self.condexpr(wave=True)
            self.op(";")
            return self.nd("sassign", l, t=target, x=x)
        self.op(";")
        return self.nd("pcall", l, x=target)

    def condexpr(self, wave=False):
        """expr {when cond else expr}"""
        l = self.peek()[2]
        x = self.expr()
        if wave and self.acc_kw("after"):
            self.expr()
        if self.acc_kw("when"):
            c = self.expr()
            y = None
            if self.acc_kw("else"):
                y = self.condexpr(wave)
            return self.nd("when", l, c=c, x=x, y=y)
        return x

    def assertion(self):
        l = self.peek()[2]
        self.kw("assert")
        c = self.expr()
        m = self.expr() if self.acc_kw("report") else None
        sv = self.expr() if self.acc_kw("severity") else None
        return self.nd("assert", l, c=c, msg=m, sev=sv)

    def ifstmt(self, l):
        self.kw("if")
        arms = []
        c = self.expr()
        self.kw("then")
        arms.append((c, self.stmts(("elsif", "else", "end"))))
        els = []
        while True:
            if self.acc_kw("elsif"):
                c = self.expr()
                self.kw("then")
                arms.append((c, self.stmts(("elsif", "else", "end"))))
            elif self.acc_kw("else"):
                els = self.stmts(("end",))
            else:
                break
        self.kw("end")
        self.kw("if")
        if not self.isop(";"):
            self.p += 1
        self.op(";")
        r = els
        for c, b in reversed(arms):
            r = [self.nd("if", l, c=c, th=b, el=r)]
        return r[0]

    def casestmt(self, l):
        self.kw("case")
        match = self.acc_op("?")
        x = self.expr()
        self.kw("is")
        arms = []
        while self.acc_kw("when"):
            ch = [self.choice()]
            while self.acc_op("|"):
                ch.append(self.choice())
            self.op("=>")
            arms.append((ch, self.stmts(("when", "end"))))
        self.kw("end")
        self.kw("case")
        self.acc_op("?")
        if not self.isop(";"):
            self.p += 1
        self.op(";")
        if match:
            self.err("matching case is not supported")
        return self.nd("case", l, x=x, arms=arms)

    def loopstmt(self, l, label):
        var = rng = cond = None
        if self.acc_kw("for"):
            var = self.ident()
            self.kw("in")
            rng = self.expr_or_range()
        elif self.acc_kw("while"):
            cond = self.expr()
        self.kw("loop")
        b = self.stmts(("end",))
        self.kw("end")
        self.kw("loop")
        if not self.isop(";"):
            self.p += 1
        self.op(";")
        return self.nd("loop", l, var=var, rng=rng, cond=cond, body=b, label=label)

    # ---- concurrent statements
    def cstmts(self, stop):
        r = []
        while not self.iskw(*stop):
            r.append(self.cstmt())
        return r

    def cstmt(self):
        k, t, l = self.peek()
        label = None
        if k == "id" and t not in KEYWORDS and self.peek(1)[1] == ":" and self.peek(1)[0] == "op":
            label = t
            self.p += 2
            k, t, l = self.peek()
        self.acc_kw("postponed")
        if t == "process":
            self.p += 1
            sens = None
            if self.acc_op("("):
                if self.acc_kw("all"):
                    sens = "all"
                else:
                    sens = [self.name()]
                    while self.acc_op(","):
                        sens.append(self.name())
                self.op(")")
            self.acc_kw("is")
            d = self.decls(("begin",))
            self.kw("begin")
            b = self.stmts(("end",))
            self.kw("end")
            self.acc_kw("postponed")
            self.kw("process")
            if not self.isop(";"):
                self.p += 1
            self.op(";")
            return self.nd("process", l, sens=sens, decls=d, body=b, label=label)
        if t == "block":
            self.p += 1
            self.acc_kw("is")
            d = self.decls(("begin",))
            self.kw("begin")
            b = self.cstmts(("end",))
            self.kw("end")
            self.kw("block")
            if not self.isop(";"):
                self.p += 1
            self.op(";")
            return self.nd("block", l, decls=d, body=b)
        if t == "assert":
            s = self.assertion()
            self.op(";")
            return self.nd("cassert", l, s=s)
        if t == "for":
            self.p += 1
            v = self.ident()
            self.kw("in")
            r = self.expr_or_range()
            self.kw("generate")
            d, b = self.genbody()
            self.endgen()
            return self.nd("forgen", l, var=v, rng=r, decls=d, body=b)
        if t == "if":
            self.p += 1
            arms = []
            if self.peek(1)[1] == ":" and self.peek()[0] == "id":
                self.p += 2
            c = self.expr()
            self.kw("generate")
            arms.append((c,) + self.genbody())
            while True:
                if self.acc_kw("elsif"):
                    if self.peek(1)[1] == ":" and self.peek()[0] == "id":
                        self.p += 2
                    c = self.expr()
                    self.kw("generate")
                    arms.append((c,) + self.genbody())
                elif self.acc_kw("else"):
                    if self.peek(1)[1] == ":" and self.peek()[0] == "id":
                        self.p += 2
                    self.kw("generate")
                    arms.append((None,) + self.genbody())
                else:
                    break
            self.endgen()
            return self.nd("ifgen", l, arms=arms)
        if t == "case":
            self.p += 1
            x = self.expr()
            self.kw("generate")
            arms = []
            while self.acc_kw("when"):
                if self.peek()[0] == "id" and self.peek(1)[1] == ":":
                    self.p += 2
                ch = [self.choice()]
                while self.acc_op("|"):
                    ch.append(self.choice())
                self.op("=>")
                arms.append((ch,) + self.genbody(("when", "end")))
            self.endgen()
            return self.nd("casegen", l, x=x, arms=arms)
        if t == "with":
            self.p += 1
            sel = self.expr()
            self.kw("select")
            self.acc_op("?")
            target = self.name()
            self.op("<=")
            arms = []
            while True:
                x = self.expr()
                self.kw("when")
                ch = [self.choice()]
                while self.acc_op("|"):
                    ch.append(self.choice())
                arms.append((ch, x))
                if self.acc_op(","):
                    continue
                self.op(";")
                break
            return self.nd("csel", l, sel=sel, t=target, arms=arms)
        if t == "entity" or t == "component" or label is not None and k == "id" and self.is_inst():
            if t == "entity" or t == "component":
                self.p += 1
            x = self.nd("id", l, n=self.ident())
            while self.acc_op("."):
                x = self.nd("sel", l, x=x, n=self.ident())
            arch = None
            if self.acc_op("("):
                arch = self.ident()
                self.op(")")
            g = p = []
            if self.acc_kw("generic"):
                self.kw("map")
                g = self.args()
            if self.acc_kw("port"):
                self.kw("map")
                p = self.args()
            self.op(";")
            return self.nd("inst", l, x=x, arch=arch, g=g, p=p, label=label)
        # concurrent signal assignment / procedure call
        target = self.name() if not self.isop("(") else self.paren()
        if self.acc_op("<="):
            x = self.condexpr(wave=True)
            self.op(";")
            return self.nd("cassign", l, t=target, x=x)
        self.op(";")
        return self.nd("cpcall", l, x=target)

    def is_inst(self):
        o = 1
        while self.peek(o)[1] == "." or self.peek(o)[0] == "id" and self.peek(o)[1] not in KEYWORDS:
            o += 1
        return self.peek(o)[1] in ("generic", "port", ";") and self.peek(o)[0] in ("id", "op")

    def genbody(self, stop=("end", "elsif", "else")):
        save = self.p
        d = []
        try:
            while not self.iskw("begin", *stop):
                d.extend(self.decl())
            if self.iskw("begin"):
                self.p += 1
            else:
                raise VhdlSyntax("no begin")
        except VhdlSyntax:
            self.p = save
            d = []
        b = self.cstmts(stop)
        # optional alternative "end [label];" before end generate
        if self.iskw("end") and not self.peek(1)[1] == "generate" and "when" not in stop:
            self.p += 1
            if not self.isop(";"):
                self.p += 1
            self.op(";")
        return d, b

    def endgen(self):
        self.kw("end")
        self.kw("generate")
        if not self.isop(";"):
            self.p += 1
        self.op(";")

    # ---- design units
    def units(self):
        r = []
        ctx = []
        while self.peek()[0] != "eof":
            k, t, l = self.peek()
            if t == "library":
                self.skip_semi()
            elif t == "use":
                ctx.append(self.useclause())
            elif t == "context":
                # context reference: context a.b; (declarations of contexts are skipped)
                o = 1
                while self.peek(o)[1] not in (";", "is"):
                    o += 1
                if self.peek(o)[1] == "is":
                    while not (self.iskw("end") and (self.peek(1)[1] in ("context", ";"))):
                        self.p += 1
                    self.skip_semi()
                    ctx = []
                else:
                    self.p += 1
                    n = [self.ident()]
                    while self.acc_op("."):
                        n.append(self.ident())
                    self.op(";")
                    ctx.append(self.nd("context", l, n=n))
            elif t == "package":
                self.p += 1
                body = self.acc_kw("body")
                n = self.ident()
                self.kw("is")
                if self.iskw("new", "generic"):
                    self.err("generic packages are not supported")
                d = self.decls(("end",))
                self.kw("end")
                self.skip_semi()
                r.append(self.nd("packbody" if body else "package", l, n=n, decls=d, ctx=ctx))
                ctx = []
            elif t == "entity":
                self.p += 1
                n = self.ident()
                self.kw("is")
                g, p = [], []
                if self.acc_kw("generic"):
                    g = self.interface()
                    self.op(";")
                if self.acc_kw("port"):
                    p = self.interface()
                    self.op(";")
                d = self.decls(("begin", "end"))
                b = []
                if self.acc_kw("begin"):
                    b = self.cstmts(("end",))
                self.kw("end")
                self.skip_semi()
                r.append(self.nd("entity", l, n=n, g=g, p=p, decls=d, body=b, ctx=ctx))
                ctx = []
            elif t == "architecture":
                self.p += 1
                n = self.ident()
                self.kw("of")
                e = self.ident()
                self.kw("is")
                d = self.decls(("begin",))
                self.kw("begin")
                b = self.cstmts(("end",))
                self.kw("end")
                self.skip_semi()
                r.append(self.nd("arch", l, n=n, ent=e, decls=d, body=b, ctx=ctx))
                ctx = []
            else:
                self.err("unsupported design unit")
        return r


def parse_file(fn):
    with open(fn, encoding="latin-1") as f:
        return Parser(f.read(), fn).units()
