"""Reader for synthesizable Verilog (the subset Yosys' Verilog back end can
write), translated to RTLIL so that the installed Yosys, which has no Verilog
front end, can compile what the generator emitted.

The reader is independent of Yosys and of Amaranth: it gives the text its
meaning by the Verilog standard (context-determined widths and signedness,
blocking and non-blocking assignment, casez) and rejects anything outside the
subset rather than guessing.
"""
import re


class VlogError(Exception):
    pass


TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<attr>\(\*(?!\s*\)))
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<eid>\\[^\s]+)
  | (?P<num>(?:\d[\d_]*)?\s*'[sS]?[bBdDhHoO]\s*[0-9a-fA-FxXzZ?_]+|\d[\d_]*)
  | (?P<id>[A-Za-z_][A-Za-z0-9_$]*|\$[A-Za-z_]+)
  | (?P<op><<<|>>>|===|!==|<=|>=|==|!=|&&|\|\||<<|>>|~\^|\^~|~&|~\||[-+*/%&|^~!<>=?:;,.(){}\[\]@#])
""", re.X | re.S)


def tokens(text):
    pos, out, n = 0, [], len(text)
    skip = False
    while pos < n:
        if skip and text.startswith("*)", pos):
            skip = False
            pos += 2
            continue
        m = TOK.match(text, pos)
        if not m:
            if skip:
                pos += 1
                continue
            raise VlogError(f"cannot read {text[pos:pos + 40]!r}")
        pos = m.end()
        k = m.lastgroup
        if k == "attr":
            skip = True
        elif k != "ws" and not skip:
            t = m.group()
            if k == "eid":
                out.append(("id", t[1:]))
            elif k == "id" and t in KEYW:
                out.append(("kw", t))
            else:
                out.append((k, t))
    if skip:
        raise VlogError("attribute is never closed")
    return out


KEYW = set("""module endmodule input output inout wire reg assign always
posedge negedge or if else case casez casex endcase default begin end initial
parameter localparam integer genvar for while function task generate specify
signed""".split())


class P:
    """Recursive-descent parser."""

    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("", "")

    def next(self):
        t = self.peek()
        if not t[0]:
            raise VlogError("unexpected end of file")
        self.i += 1
        return t

    def at(self, v):
        t = self.peek()
        return t[1] == v and t[0] in ("op", "kw")

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            near = " ".join(x[1] for x in self.t[max(0, self.i - 4):
                                                 self.i + 5])
            raise VlogError(f"expected {v!r} near {near!r}")

    def ident(self):
        k, v = self.next()
        if k != "id":
            raise VlogError(f"expected a name, found {v!r}")
        return v

    # ------------------------------------------------------------ structure
    def file(self):
        mods = {}
        while self.peek()[0]:
            self.need("module")
            m = self.module()
            if m["name"] in mods:
                raise VlogError(f"module {m['name']} defined twice")
            mods[m["name"]] = m
        return mods

    def rng(self):
        if not self.eat("["):
            return None
        a = self.const()
        self.need(":")
        b = self.const()
        self.need("]")
        return a, b

    def const(self):
        neg = self.eat("-")
        k, v = self.next()
        if k != "num":
            raise VlogError(f"expected a constant, found {v!r}")
        v = number(v)[0]
        if set(v) - {"0", "1"}:
            raise VlogError("undefined digits in a constant")
        return -int(v, 2) if neg else int(v, 2)

    def module(self):
        m = dict(name=self.ident(), ports=[], nets={}, dirs={}, mems={},
                 assigns=[], always=[], inst=[], init={}, meminit=[])
        if self.eat("("):
            while not self.eat(")"):
                if self.at("input") or self.at("output"):
                    self.decl(m, True)
                else:
                    m["ports"].append(self.ident())
                self.eat(",")
        self.need(";")
        while not self.eat("endmodule"):
            k, v = self.peek()
            if v in ("input", "output", "wire", "reg") and k == "kw":
                self.decl(m, False)
            elif self.eat("assign"):
                lhs = self.expr()
                self.need("=")
                m["assigns"].append((lhs, self.expr()))
                self.need(";")
            elif self.eat("always"):
                m["always"].append(self.always())
            elif self.eat("initial"):
                self.initial(m, self.stmt())
            elif k == "id":
                self.instance(m)
            else:
                raise VlogError(f"unsupported item {v!r}")
        for p in m["ports"]:
            if p not in m["dirs"]:
                raise VlogError(f"port {p} has no direction")
        for d in m["dirs"]:
            if d not in m["ports"]:
                raise VlogError(f"{d} is not in the port list")
        return m

    def decl(self, m, inline):
        d, reg = None, False
        while True:
            if self.eat("input"):
                d = "input"
            elif self.eat("output"):
                d = "output"
            elif self.eat("wire"):
                pass
            elif self.eat("reg"):
                reg = True
            else:
                break
        sg = self.eat("signed")
        r = self.rng()
        while True:
            n = self.ident()
            w = 1 if r is None else abs(r[0] - r[1]) + 1
            if r is not None and (r[1] != 0 or r[0] < 0):
                raise VlogError(f"range {r} of {n} is not [n:0]")
            if not inline and self.at("["):
                a, b = self.rng()
                if d or not reg:
                    raise VlogError(f"array {n} is not a reg")
                m["mems"][n] = (w, min(a, b), abs(a - b) + 1)
            else:
                o = m["nets"].get(n)
                if o and o[0] != w:
                    raise VlogError(f"{n} declared with widths {o[0]}, {w}")
                m["nets"][n] = (w, sg or bool(o and o[1]),
                                reg or bool(o and o[2]))
                if d:
                    if n in m["dirs"]:
                        raise VlogError(f"{n} given a direction twice")
                    m["dirs"][n] = d
                if inline:
                    m["ports"].append(n)
                if self.eat("="):
                    e = self.expr()
                    if reg:
                        if e[0] != "num":
                            raise VlogError(f"initial value of {n}")
                        m["init"][n] = e
                    else:
                        m["assigns"].append((("id", n), e))
            if inline:
                return
            if not self.eat(","):
                break
        self.need(";")

    def always(self):
        self.need("@")
        if self.eat("*"):
            return "comb", None, self.stmt()
        self.need("(")
        if self.eat("*"):
            self.need(")")
            return "comb", None, self.stmt()
        if not self.eat("posedge"):
            raise VlogError("unsupported sensitivity list")
        clk = self.expr()
        self.need(")")
        return "sync", clk, self.stmt()

    def stmt(self):
        if self.eat(";"):
            return ("seq", [])
        if self.eat("begin"):
            out = []
            while not self.eat("end"):
                out.append(self.stmt())
            return ("seq", out)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return ("if", c, a, b)
        for kw in ("case", "casez"):
            if self.eat(kw):
                self.need("(")
                c = self.expr()
                self.need(")")
                arms = []
                while not self.eat("endcase"):
                    if self.eat("default"):
                        self.eat(":")
                        arms.append((None, self.stmt()))
                        continue
                    pats = [self.expr()]
                    while self.eat(","):
                        pats.append(self.expr())
                    self.need(":")
                    arms.append((pats, self.stmt()))
                return ("case", kw, c, arms)
        lhs = self.primary()
        if self.eat("<="):
            k = "nb"
        else:
            self.need("=")
            k = "ba"
        e = self.expr()
        self.need(";")
        return (k, lhs, e)

    def initial(self, m, s):
        if s[0] == "seq":
            for x in s[1]:
                self.initial(m, x)
            return
        if s[0] != "ba" or s[2][0] != "num":
            raise VlogError("unsupported initial block")
        lhs = s[1]
        if lhs[0] == "idx" and lhs[1] in m["mems"] and lhs[2][0] == "num":
            m["meminit"].append((lhs[1], int(lhs[2][1], 2), s[2]))
        elif lhs[0] == "id":
            m["init"][lhs[1]] = s[2]
        else:
            raise VlogError("unsupported initial block")

    def instance(self, m):
        mod, name = self.ident(), self.ident()
        self.need("(")
        con = {}
        while not self.eat(")"):
            self.need(".")
            p = self.ident()
            self.need("(")
            if p in con:
                raise VlogError(f"port {p} of {name} connected twice")
            con[p] = None if self.at(")") else self.expr()
            self.need(")")
            self.eat(",")
        self.need(";")
        m["inst"].append((mod, name, con))

    # ---------------------------------------------------------- expressions
    LEVELS = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"],
              ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="],
              ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"]]

    def expr(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            b = self.expr()
            return ("?", c, a, b)
        return c

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek()[0] == "op" and self.peek()[1] in self.LEVELS[lv]:
            op = self.next()[1]
            a = ("bin", op, a, self.binary(lv + 1))
        return a

    def unary(self):
        k, v = self.peek()
        if k == "op" and v in ("~", "!", "-", "+", "&", "|", "^", "~&", "~|",
                               "~^", "^~"):
            self.i += 1
            return ("un", v, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.next()
        if k == "num":
            b, w, s = number(v)
            return ("num", b, w, s)
        if k == "id" and v in ("$signed", "$unsigned"):
            self.need("(")
            e = self.expr()
            self.need(")")
            return ("sgn", v == "$signed", e)
        if k == "id":
            e = ("id", v)
            while self.at("["):
                self.i += 1
                a = self.expr()
                if self.eat(":"):
                    b = self.expr()
                    self.need("]")
                    if a[0] != "num" or b[0] != "num":
                        raise VlogError("part select is not constant")
                    e = ("part", e, int(a[1], 2), int(b[1], 2))
                else:
                    self.need("]")
                    e = ("idx", v, a) if e == ("id", v) else ("bit", e, a)
            return e
        if v == "(":
            e = self.expr()
            self.need(")")
            return e
        if v == "{":
            a = self.expr()
            if self.eat("{"):
                parts = [self.expr()]
                while self.eat(","):
                    parts.append(self.expr())
                self.need("}")
                self.need("}")
                if a[0] != "num":
                    raise VlogError("replication count is not constant")
                return ("cat", parts * int(a[1], 2))
            parts = [a]
            while self.eat(","):
                parts.append(self.expr())
            self.need("}")
            return ("cat", parts)
        raise VlogError(f"unexpected {v!r} in an expression")


def number(s):
    """-> (bits MSB first, width, signed)."""
    s = re.sub(r"[\s_]", "", s)
    if "'" not in s:
        v = int(s)
        w = max(32, v.bit_length() + 1)
        return format(v, f"0{w}b"), w, True
    size, rest = s.split("'")
    sg = rest[0] in "sS"
    rest = rest[sg:]
    base, dig = rest[0].lower(), rest[1:].lower().replace("?", "z")
    w = int(size) if size else 32
    if w == 0:
        raise VlogError("zero-width constant")
    if base == "d":
        if dig in ("x", "z"):
            return dig * w, w, sg
        bits = format(int(dig), "b")
    else:
        n = {"b": 1, "o": 3, "h": 4}[base]
        bits = "".join(c * n if c in "xz" else format(int(c, 16), f"0{n}b")
                       for c in dig)
        if base != "h" and any(len(format(int(c, 16), "b")) > n for c in dig
                               if c not in "xz"):
            raise VlogError(f"digit out of range in {s}")
    fill = bits[0] if bits[0] in "xz" else "0"
    bits = bits.rjust(w, fill)
    return bits[-w:], w, sg


def rid(n):
    if re.search(r"\s", n):
        raise VlogError(f"name {n!r}")
    return "\\" + n


BIN = {"+": "$add", "-": "$sub", "*": "$mul", "/": "$div", "%": "$mod",
       "&": "$and", "|": "$or", "^": "$xor", "~^": "$xnor", "^~": "$xnor",
       "==": "$eq", "!=": "$ne", "===": "$eq", "!==": "$ne", "<": "$lt",
       "<=": "$le", ">": "$gt", ">=": "$ge", "<<": "$shl", ">>": "$shr",
       "<<<": "$sshl", ">>>": "$sshr", "&&": "$logic_and",
       "||": "$logic_or"}
RED = {"&": "$reduce_and", "|": "$reduce_or", "^": "$reduce_xor",
       "~^": "$reduce_xnor", "^~": "$reduce_xnor"}
CMP = ("==", "!=", "===", "!==", "<", "<=", ">", ">=")
SHF = ("<<", ">>", "<<<", ">>>")


def runs(bits):
    """Contiguous (lo, width) ranges of a set of bits."""
    out = []
    for b in sorted(bits):
        if out and out[-1][0] + out[-1][1] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return [tuple(x) for x in out]


class Mod:
    """Translates one module."""

    def __init__(self, m, mods, names):
        self.m, self.mods, self.names = m, mods, names
        self.out, self.tail, self.n = [], [], 0

    def fresh(self, w, hint="e"):
        self.n += 1
        nm = f"$v{hint}{self.n}"
        self.out.append(f"  wire width {w} {nm}")
        return nm

    def net(self, n):
        if n not in self.m["nets"]:
            raise VlogError(f"{n} is not declared in {self.m['name']}")
        return self.m["nets"][n]

    # width and signedness of an expression on its own
    def self_(self, e):
        k = e[0]
        if k == "num":
            return e[2], e[3]
        if k == "id":
            w, s, _ = self.net(e[1])
            return w, s
        if k == "idx":
            if e[1] in self.m["mems"]:
                return self.m["mems"][e[1]][0], False
            return 1, False
        if k == "bit":
            return 1, False
        if k == "part":
            if e[2] < e[3]:
                raise VlogError("reversed part select")
            return e[2] - e[3] + 1, False
        if k == "cat":
            return sum(self.self_(x)[0] for x in e[1]), False
        if k == "sgn":
            return self.self_(e[2])[0], e[1]
        if k == "un":
            if e[1] in ("~", "-", "+"):
                return self.self_(e[2])
            return 1, False
        if k == "bin":
            if e[1] in CMP or e[1] in ("&&", "||"):
                return 1, False
            a, b = self.self_(e[2]), self.self_(e[3])
            if e[1] in SHF:
                return a
            return max(a[0], b[0]), a[1] and b[1]
        if k == "?":
            a, b = self.self_(e[2]), self.self_(e[3])
            return max(a[0], b[0]), a[1] and b[1]
        raise VlogError(f"unsupported expression {k}")

    def ext(self, spec, w, to, signed):
        if w == to:
            return spec
        if w > to:
            o = self.fresh(w)
            self.tail.append(f"  connect {o} {spec}")
            return f"{o} [{to - 1}:0]"
        if signed:
            o = self.fresh(to)
            self.cell("$pos", dict(A=(spec, w)), o, to, True)
            return o
        return f"{{ {to - w}'{'0' * (to - w)} {spec} }}"

    def cell(self, ty, ins, y, yw, signed):
        self.n += 1
        t = [f"  cell {ty} $c{self.n}"]
        for p, (s, w) in ins.items():
            sg = signed if isinstance(signed, bool) else signed[p]
            t.append(f"    parameter \\{p}_SIGNED {int(sg)}")
            t.append(f"    parameter \\{p}_WIDTH {w}")
        t.append(f"    parameter \\Y_WIDTH {yw}")
        for p, (s, w) in ins.items():
            t.append(f"    connect \\{p} {s}")
        t.append(f"    connect \\Y {y}")
        t.append("  end")
        self.tail.append("\n".join(t))

    def slice(self, e):
        """(net, lo, width) of an id / constant bit / part select."""
        k = e[0]
        if k == "id":
            return e[1], 0, self.net(e[1])[0]
        if k == "idx" and e[1] not in self.m["mems"]:
            w = self.net(e[1])[0]
            if e[2][0] != "num":
                return None
            i = int(e[2][1], 2)
            if i >= w:
                raise VlogError(f"bit {i} of {e[1]}, which has {w}")
            return e[1], i, 1
        if k == "part" and e[1][0] == "id":
            w = self.net(e[1][1])[0]
            if e[2] >= w or e[2] < e[3]:
                raise VlogError(f"bits {e[2]}:{e[3]} of {e[1][1]}, {w} wide")
            return e[1][1], e[3], e[2] - e[3] + 1
        return None

    def ev(self, e, w=None, signed=None):
        """Sigspec of e, evaluated in a context w wide (None: its own)."""
        sw, ss = self.self_(e)
        if w is None:
            w = sw
        w = max(w, sw)
        if signed is None:
            signed = ss
        k = e[0]
        if k == "num":
            b = e[1].replace("z", "x")
            return self.ext(f"{sw}'{b}", sw, w, signed)
        s = self.slice(e)
        if s:
            if self.busy.get(s[0], set()) & set(range(s[1], s[1] + s[2])):
                raise VlogError(f"{s[0]} is read in the block that sets it")
            n, lo, ww = s
            full = self.net(n)[0]
            sp = rid(n) if ww == full else f"{rid(n)} [{lo + ww - 1}:{lo}]"
            return self.ext(sp, sw, w, signed)
        if k in ("idx", "bit"):
            if k == "idx" and e[1] in self.m["mems"]:
                return self.ext(self.memrd(e[1], e[2]), sw, w, signed)
            base = ("id", e[1]) if k == "idx" else e[1]
            bw, o = self.self_(base)[0], self.fresh(1)
            iw = self.self_(e[2])[0]
            self.cell("$shr", dict(A=(self.ev(base), bw),
                                   B=(self.ev(e[2]), iw)), o, 1, False)
            return self.ext(o, 1, w, signed)
        if k == "part":
            bw = self.self_(e[1])[0]
            if e[2] >= bw:
                raise VlogError("part select out of range")
            o = self.fresh(bw)
            self.tail.append(f"  connect {o} {self.ev(e[1])}")
            return self.ext(f"{o} [{e[2]}:{e[3]}]", sw, w, signed)
        if k == "cat":
            sp = "{ " + " ".join(self.ev(x) for x in e[1]) + " }"
            return self.ext(sp, sw, w, signed)
        if k == "sgn":
            return self.ext(self.ev(e[2]), sw, w, signed)
        if k == "un":
            op = e[1]
            if op == "+":
                return self.ev(e[2], w, signed)
            if op in ("~", "-"):
                o = self.fresh(w)
                self.cell({"~": "$not", "-": "$neg"}[op],
                          dict(A=(self.ev(e[2], w, signed), w)), o, w, signed)
                return o
            aw = self.self_(e[2])[0]
            a = self.ev(e[2])
            o = self.fresh(1)
            if op == "!":
                self.cell("$logic_not", dict(A=(a, aw)), o, 1, False)
            elif op in ("~&", "~|"):
                t = self.fresh(1)
                self.cell(RED[op[1]], dict(A=(a, aw)), t, 1, False)
                self.cell("$logic_not", dict(A=(t, 1)), o, 1, False)
            else:
                self.cell(RED[op], dict(A=(a, aw)), o, 1, False)
            return self.ext(o, 1, w, False)
        if k == "bin":
            op = e[1]
            (aw, as_), (bw, bs) = self.self_(e[2]), self.self_(e[3])
            if op in CMP:
                cw, cs = max(aw, bw), as_ and bs
                o = self.fresh(1)
                self.cell(BIN[op], dict(A=(self.ev(e[2], cw, cs), cw),
                                        B=(self.ev(e[3], cw, cs), cw)),
                          o, 1, cs)
                return self.ext(o, 1, w, False)
            if op in ("&&", "||"):
                o = self.fresh(1)
                self.cell(BIN[op], dict(A=(self.ev(e[2]), aw),
                                        B=(self.ev(e[3]), bw)), o, 1, False)
                return self.ext(o, 1, w, False)
            o = self.fresh(w)
            if op in SHF:
                self.cell(BIN[op], dict(A=(self.ev(e[2], w, signed), w),
                                        B=(self.ev(e[3]), bw)), o, w,
                          dict(A=signed, B=False))
            else:
                self.cell(BIN[op], dict(A=(self.ev(e[2], w, signed), w),
                                        B=(self.ev(e[3], w, signed), w)),
                          o, w, signed)
            return o
        if k == "?":
            c = self.truth(e[1])
            o = self.fresh(w)
            self.n += 1
            self.tail.append(
                f"  cell $mux $c{self.n}\n    parameter \\WIDTH {w}\n"
                f"    connect \\A {self.ev(e[3], w, signed)}\n"
                f"    connect \\B {self.ev(e[2], w, signed)}\n"
                f"    connect \\S {c}\n    connect \\Y {o}\n  end")
            return o
        raise VlogError(f"unsupported expression {k}")

    def truth(self, e):
        w = self.self_(e)[0]
        if w == 1:
            return self.ev(e)
        o = self.fresh(1)
        self.cell("$reduce_bool", dict(A=(self.ev(e), w)), o, 1, False)
        return o

    def memrd(self, mem, adr):
        w, base, size = self.m["mems"][mem]
        aw = self.self_(adr)[0]
        o = self.fresh(w, "rd")
        self.n += 1
        self.tail.append(
            f"  cell $memrd_v2 $c{self.n}\n"
            f"    parameter \\MEMID \"\\\\{mem}\"\n"
            f"    parameter \\ABITS {aw}\n    parameter \\WIDTH {w}\n"
            f"    parameter \\TRANSPARENCY_MASK {self.wmask('0', mem)}\n"
            f"    parameter \\COLLISION_X_MASK {self.wmask('0', mem)}\n"
            f"    parameter \\ARST_VALUE {w}'{'x' * w}\n"
            f"    parameter \\SRST_VALUE {w}'{'x' * w}\n"
            f"    parameter \\INIT_VALUE {w}'{'x' * w}\n"
            "    parameter \\CE_OVER_SRST 0\n    parameter \\CLK_ENABLE 0\n"
            "    parameter \\CLK_POLARITY 1\n"
            f"    connect \\ADDR {self.ev(adr)}\n    connect \\DATA {o}\n"
            "    connect \\ARST 1'0\n    connect \\SRST 1'0\n"
            "    connect \\EN 1'1\n    connect \\CLK 1'0\n  end")
        return o

    def wmask(self, bit, mem):
        n = self.nw.get(mem, 0)
        return f"{n}'{bit * n}" if n else "0"

    # ------------------------------------------------------------ statements
    def targets(self, s, acc, mems):
        k = s[0]
        if k == "seq":
            for x in s[1]:
                self.targets(x, acc, mems)
        elif k == "if":
            self.targets(s[2], acc, mems)
            if s[3]:
                self.targets(s[3], acc, mems)
        elif k == "case":
            for _, b in s[3]:
                self.targets(b, acc, mems)
        else:
            self.lhs_names(s[1], acc, mems)

    def lhs_names(self, e, acc, mems):
        if e[0] == "cat":
            for x in e[1]:
                self.lhs_names(x, acc, mems)
        elif e[0] in ("idx", "id") and e[1] in self.m["mems"]:
            mems.append(e[1])
        elif e[0] == "part" and e[1][0] == "idx" or e[0] == "bit":
            raise VlogError("partial memory write")
        else:
            s = self.slice(e)
            if s is None:
                raise VlogError("unsupported assignment target")
            acc.setdefault(s[0], set()).update(range(s[1], s[1] + s[2]))

    def lhs_parts(self, e):
        """[(net, lo, width)] most significant first."""
        if e[0] == "cat":
            return [y for x in e[1] for y in self.lhs_parts(x)]
        s = self.slice(e)
        if s is None:
            raise VlogError("unsupported assignment target")
        return [s]

    def body(self, s, sync, ind):
        """RTLIL process lines for a statement."""
        pad = "  " * ind
        k = s[0]
        if k == "seq":
            out, wrap = [], 0
            for x in s[1]:
                b = self.body(x, sync, ind + 2 * 0)
                if not b:
                    continue
                if wrap:
                    # keeps source order: assignments of a case precede its
                    # switches in RTLIL
                    out += [f"{pad}switch {{ }}", f"{pad}case"] + \
                        ["  " + q for q in b] + [f"{pad}end"]
                else:
                    out += b
                if any(q.lstrip().startswith("switch") for q in b):
                    wrap = 1
            return out
        if k == "if":
            a = self.body(s[2], sync, ind + 2)
            b = self.body(s[3], sync, ind + 2) if s[3] else []
            if not a and not b:
                return []
            c = self.truth(s[1])
            return [f"{pad}switch {c}", f"{pad}  case 1'1"] + a + \
                [f"{pad}  case"] + b + [f"{pad}end"]
        if k == "case":
            cw = self.self_(s[2])[0]
            for ps, _ in s[3]:
                for p in ps or ():
                    if p[0] != "num":
                        raise VlogError("case label is not a constant")
                    cw = max(cw, p[2])
            out = [f"{pad}switch {self.ev(s[2], cw)}"]
            dflt = None
            for ps, b in s[3]:
                if ps is None:
                    dflt = b
                    continue
                lab = []
                for p in ps:
                    bits = p[1]
                    if "x" in bits or ("z" in bits and s[1] == "case"):
                        raise VlogError("undefined digit in a case label")
                    lab.append(f"{cw}'" + bits.replace("z", "-")
                               .rjust(cw, "0"))
                out.append(f"{pad}  case {' , '.join(lab)}")
                out += self.body(b, sync, ind + 2)
            out.append(f"{pad}  case")
            if dflt is not None:
                out += self.body(dflt, sync, ind + 2)
            out.append(f"{pad}end")
            return out
        if (k == "nb") != sync:
            raise VlogError("blocking and non-blocking assignments mixed")
        lhs, e = s[1], s[2]
        if lhs[0] == "idx" and lhs[1] in self.m["mems"]:
            mem = lhs[1]
            w = self.m["mems"][mem][0]
            aw = self.self_(lhs[2])[0]
            ad, da, en = (self.fresh(aw, "wa"), self.fresh(w, "wd"),
                          self.fresh(1, "we"))
            self.writes.append((mem, aw, w, ad, da, en, self.clk))
            self.dflt += [f"    assign {en} 1'0",
                          f"    assign {ad} {aw}'{'x' * aw}",
                          f"    assign {da} {w}'{'x' * w}"]
            v = self.fit(e, w)
            return [f"{pad}assign {ad} {self.ev(lhs[2])}",
                    f"{pad}assign {da} {v}", f"{pad}assign {en} 1'1"]
        parts = self.lhs_parts(lhs)
        w = sum(p[2] for p in parts)
        v = self.fit(e, w)
        if len(parts) > 1 or parts[0][2] != self.net(parts[0][0])[0]:
            t = self.fresh(w)
            self.tail.append(f"  connect {t} {v}")
            v = t
        out, hi = [], w
        for n, lo, pw in parts:
            src = v if pw == w else f"{v} [{hi - 1}:{hi - pw}]"
            hi -= pw
            d = f"${self.pid}{rid(n)}"
            if pw != self.net(n)[0]:
                d += f" [{lo + pw - 1}:{lo}]"
            out.append(f"{pad}assign {d} {src}")
        return out

    def fit(self, e, w):
        """Value of e assigned to something w wide."""
        sw = self.self_(e)[0]
        v = self.ev(e, max(w, sw))
        return v if max(w, sw) == w else self.ext(v, sw, w, False)

    def drive(self, n, lo, w, who):
        if self.m["dirs"].get(n) == "input":
            raise VlogError(f"input {n} is driven by {who}")
        bits = self.driven.setdefault(n, {})
        for b in range(lo, lo + w):
            if b in bits:
                raise VlogError(f"{n}[{b}] of {self.m['name']} is driven "
                                f"by {bits[b]} and by {who}")
            bits[b] = who

    def convert(self):
        m = self.m
        self.busy, self.writes, self.driven, self.nw = {}, [], {}, {}
        hdr = [f"module {rid(self.names[m['name']])}"]
        syncset = set()
        info = []
        for kind, clk, s in m["always"]:
            acc, mems = {}, []
            self.targets(s, acc, mems)
            for x in mems:
                self.nw[x] = self.nw.get(x, 0) + 1
            if kind == "sync":
                syncset |= set(acc)
            elif mems:
                raise VlogError("combinational memory write")
            for x in acc:
                if not self.net(x)[2]:
                    raise VlogError(f"{x} is assigned but is not a reg")
                for lo, w in runs(acc[x]):
                    self.drive(x, lo, w, "an always block")
            info.append((kind, clk, s, acc))
        for n, (w, s, _) in m["nets"].items():
            if n in m["mems"]:
                raise VlogError(f"{n} is declared twice")
            if n in m["init"] and n in syncset:
                b = self.m["init"][n]
                v = b[1].rjust(w, "0")[-w:]
                hdr.append(f"  attribute \\init {w}'{v}")
            d = ""
            if n in m["dirs"]:
                d = f" {m['dirs'][n]} {m['ports'].index(n) + 1}"
            hdr.append(f"  wire width {w}{d} {rid(n)}")
        for n, (w, base, size) in m["mems"].items():
            if base:
                raise VlogError("memory does not start at 0")
            hdr.append(f"  memory width {w} size {size} {rid(n)}")
        init = {}
        for n, a, v in m["meminit"]:
            w, _, size = m["mems"][n]
            if a >= size:
                raise VlogError(f"{n}[{a}] initialized, {size} long")
            init.setdefault(n, {})[a] = v[1].rjust(w, "0")[-w:]
        for n, d in init.items():
            w, _, size = m["mems"][n]
            bits = "".join(d.get(a, "x" * w) for a in reversed(range(size)))
            self.n += 1
            self.tail.append(
                f"  cell $meminit_v2 $c{self.n}\n"
                f"    parameter \\MEMID \"\\\\{n}\"\n"
                "    parameter \\ABITS 1\n"
                f"    parameter \\WIDTH {w}\n    parameter \\WORDS {size}\n"
                "    parameter \\PRIORITY 0\n    connect \\ADDR 1'0\n"
                f"    connect \\DATA {w * size}'{bits}\n"
                f"    connect \\EN {w}'{'1' * w}\n  end")
        procs = []
        for j, (kind, clk, s, acc) in enumerate(info):
            sync = kind == "sync"
            if not acc and sync is False:
                continue
            self.busy = {} if sync else acc
            self.dflt = []
            self.pid = j
            self.clk = self.ev(clk) if sync else None
            b = self.body(s, sync, 2)
            self.busy = {}
            p = [f"  process $p{j}"] + self.dflt
            upd = []
            for n in acc:
                w = self.net(n)[0]
                p.append(f"    assign ${self.pid}{rid(n)} " +
                         (rid(n) if sync else f"{w}'{'x' * w}"))
                self.out.append(f"  wire width {w} ${self.pid}{rid(n)}")
                upd += [f"      update {rid(n)} [{lo + x - 1}:{lo}] "
                        f"${self.pid}{rid(n)} [{lo + x - 1}:{lo}]"
                        for lo, x in runs(acc[n])]
            p += b
            p.append(f"    sync posedge {self.clk}" if sync else
                     "    sync always")
            procs += p + upd + ["  end"]
        cnt = {}
        for mem, aw, w, ad, da, en, clk in self.writes:
            i = cnt.get(mem, 0)
            cnt[mem] = i + 1
            self.n += 1
            pm = "0" if i == 0 else f"{i}'{'1' * i}"
            self.tail.append(
                f"  cell $memwr_v2 $c{self.n}\n"
                f"    parameter \\MEMID \"\\\\{mem}\"\n"
                f"    parameter \\ABITS {aw}\n    parameter \\WIDTH {w}\n"
                "    parameter \\CLK_ENABLE 1\n"
                "    parameter \\CLK_POLARITY 1\n"
                f"    parameter \\PORTID {i}\n"
                f"    parameter \\PRIORITY_MASK {pm}\n"
                f"    connect \\ADDR {ad}\n    connect \\DATA {da}\n"
                f"    connect \\EN {{ {' '.join([en] * w)} }}\n"
                f"    connect \\CLK {clk}\n  end")
        for lhs, e in m["assigns"]:
            parts = self.lhs_parts(lhs)
            for n, lo, w in parts:
                if self.net(n)[2]:
                    raise VlogError(f"reg {n} has a continuous assignment")
                self.drive(n, lo, w, "an assignment")
            w = sum(p[2] for p in parts)
            v = self.fit(e, w)
            self.tail.append("  connect { " + " ".join(
                f"{rid(n)} [{lo + pw - 1}:{lo}]" for n, lo, pw in parts)
                + f" }} {v}")
        seen = set()
        for mod, name, con in m["inst"]:
            if mod not in self.mods:
                raise VlogError(f"module {mod} is not defined")
            if name in seen:
                raise VlogError(f"instance {name} appears twice")
            seen.add(name)
            sub = self.mods[mod]
            t = [f"  cell {rid(self.names[mod])} {rid(name + '.i')}"]
            for p, e in con.items():
                if p not in sub["dirs"]:
                    raise VlogError(f"{mod} has no port {p}")
                if e is None:
                    continue
                pw = sub["nets"][p][0]
                if sub["dirs"][p] == "output":
                    parts = self.lhs_parts(e)
                    for n, lo, w in parts:
                        self.drive(n, lo, w, f"instance {name}")
                    w = sum(x[2] for x in parts)
                    if w != pw:
                        raise VlogError(f"port {p} of {name} is {pw} wide, "
                                        f"connected to {w} bits")
                    v = "{ " + " ".join(f"{rid(n)} [{lo + x - 1}:{lo}]"
                                        for n, lo, x in parts) + " }"
                else:
                    v = self.fit(e, pw)
                t.append(f"    connect {rid(p)} {v}")
            t.append("  end")
            self.tail.append("\n".join(t))
        for p, d in m["dirs"].items():
            w = m["nets"][p][0]
            if d == "output" and len(self.driven.get(p, {})) != w:
                raise VlogError(f"output {p} of {m['name']} is not driven")
        return "\n".join(hdr + self.out + self.tail + procs + ["end", ""])


def parse(text):
    return P(text).file()


def ports(mods, top):
    m = mods[top]
    return {p: (m["dirs"][p], m["nets"][p][0]) for p in m["ports"]}


def to_rtlil(mods, top, name="sentinel"):
    """RTLIL text with `top` renamed and the other modules numbered."""
    order, todo = [], [top]
    while todo:
        x = todo.pop(0)
        if x in order:
            continue
        if x not in mods:
            raise VlogError(f"module {x} is not defined")
        order.append(x)
        todo += [i[0] for i in mods[x]["inst"]]
    names = {x: name if x == top else f"sub{k}" for k, x in enumerate(order)}
    return "\n".join(Mod(mods[x], mods, names).convert() for x in order)
