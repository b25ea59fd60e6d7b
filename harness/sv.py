"""A two-state, event-driven simulator for the synthesisable SystemVerilog that
/repo/hw is written in.

There is no Verilog simulator in the sandbox, so the RTL is compiled to Python:
preprocessor, parser, elaboration (parameters, generate, instances), width and
sign rules of IEEE 1800 (context-determined operands), and a scheduler in which
all continuous and combinational processes settle before clocked processes run
and non-blocking assignments take effect together.

Anything outside the subset raises Unsupported: a check that meets it reports
the module as not decided instead of guessing.  Registers start from a
pseudo-random state (`seed`), so that nothing can rely on a power-up value that
the hardware does not give.
"""
import os
import re
import random


class Unsupported(Exception):
    pass


# --------------------------------------------------------------- preprocessing
_COMMENT = re.compile(r"//[^\n]*|/\*.*?\*/", re.S)
_IGNORED = {"timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"}


def _read(path):
    with open(path, "r", encoding="utf-8", errors="replace", newline=None) as f:
        text = f.read()
    return _COMMENT.sub(lambda m: "\n" * m.group(0).count("\n") + " ", text)


class Pre:
    def __init__(self, incdirs=(), defines=None):
        self.incdirs = list(incdirs)
        self.defs = dict(defines or {})
        self.depth = 0

    def expand(self, s, depth=0):
        if depth > 40:
            raise Unsupported("macro recursion")
        out, i = [], 0
        for m in re.finditer(r"`([A-Za-z_]\w*)", s):
            name = m.group(1)
            if name not in self.defs:
                raise Unsupported("undefined macro " + name)
            out.append(s[i:m.start()])
            out.append(self.expand(self.defs[name], depth + 1))
            i = m.end()
        out.append(s[i:])
        return "".join(out)

    def file(self, path):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("include depth")
        out = []
        conds = []                      # (active, taken, parent active)
        active = True
        text = _read(path).replace("\\\n", " ")
        for line in text.split("\n"):
            m = re.match(r"\s*`(\w+)\s*(.*)$", line)
            d = m.group(1) if m else None
            rest = m.group(2).strip() if m else ""
            if d in ("ifdef", "ifndef"):
                nm = rest.split()[0]
                c = (nm in self.defs) == (d == "ifdef")
                conds.append([active, c])
                active = active and c
                if len(rest.split()) > 1:
                    raise Unsupported("text after `ifdef")
            elif d == "elsif":
                par, taken = conds[-1]
                c = not taken and rest.split()[0] in self.defs
                conds[-1][1] = taken or c
                active = par and c
            elif d == "else":
                par, taken = conds[-1]
                active = par and not taken
                conds[-1][1] = True
            elif d == "endif":
                par, _ = conds.pop()
                active = par
            elif not active:
                pass
            elif d == "include":
                mm = re.match(r'"([^"]+)"', rest)
                if not mm:
                    raise Unsupported("include " + rest)
                out.append(self.file(self.find(mm.group(1), path)))
            elif d == "define":
                mm = re.match(r"(\w+)(\()?\s*(.*)$", rest)
                if mm.group(2):
                    raise Unsupported("macro with arguments")
                self.defs[mm.group(1)] = mm.group(3).strip()
            elif d == "undef":
                self.defs.pop(rest.split()[0], None)
            elif d in _IGNORED:
                pass
            else:
                out.append(self.expand(line))
        if conds:
            raise Unsupported("unterminated `ifdef")
        self.depth -= 1
        return "\n".join(out) + "\n"

    def find(self, name, path):
        for d in [os.path.dirname(path)] + self.incdirs:
            p = os.path.normpath(os.path.join(d, name))
            if os.path.exists(p):
                return p
        raise Unsupported("no include file " + name)


# ----------------------------------------------------------------------- lexer
_TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<num>(?:\d[\d_]*\s*)?'[sS]?[bBdDhHoO]\s*[0-9a-fA-F_xXzZ?]+|'[01]|\d[\d_]*)
 | (?P<str>"[^"\n]*")
 | (?P<id>[A-Za-z_$][\w$]*)
 | (?P<op><<<=|>>>=|<<<|>>>|===|!==|==\?|!=\?|<<=|>>=|\+\+|--|\+=|-=|\*=|/=|&=|\|=|\^=|<=|>=|==|!=|&&|\|\||<<|>>|~&|~\||~\^|\^~|\*\*|\+:|-:|::|'\(|'\{|[-+*/%&|^~!<>=?:;,.(){}\[\]@\#'])
""", re.X)


def lex(text):
    pos, out = 0, []
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise Unsupported("lex at %r" % text[pos:pos + 20])
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group(0)))
    out.append(("eof", ""))
    return out


def number(t):
    """-> (value, width or None, signed)"""
    t = t.replace("_", "")
    if "'" not in t:
        return int(t), None, True
    size, rest = t.split("'", 1)
    size = size.strip()
    if rest in ("0", "1") and not size:
        return ("fill", int(rest)), None, False
    signed = rest[0] in "sS"
    if signed:
        rest = rest[1:]
    base = {"b": 2, "d": 10, "h": 16, "o": 8}[rest[0].lower()]
    digs = rest[1:].strip()
    if re.search(r"[xXzZ?]", digs):
        raise Unsupported("x/z literal")
    v = int(digs, base)
    w = int(size) if size else None
    if w is None and v >= 1 << 32:
        raise Unsupported("wide unsized literal")
    if w is not None:
        v &= (1 << w) - 1
    return v, w, signed


# ---------------------------------------------------------------------- parser
TYPES = {"logic", "wire", "reg", "bit", "tri", "var"}
INTS = {"int": 32, "integer": 32, "genvar": 32, "byte": 8, "shortint": 16, "longint": 64}


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0

    # helpers
    def peek(self, k=0):
        return self.t[self.i + k][1]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def at(self, s):
        return self.t[self.i][1] == s and self.t[self.i][0] != "str"

    def accept(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported("expected %r, found %r" % (s, " ".join(x[1] for x in self.t[self.i:self.i + 6])))

    def ident(self):
        if self.kind() != "id":
            raise Unsupported("identifier expected, found %r" % self.peek())
        return self.next()

    # modules
    def modules(self):
        out = {}
        while self.kind() != "eof":
            if self.at("module"):
                m = self.module()
                out[m["name"]] = m
            elif self.accept(";"):
                pass
            else:
                raise Unsupported("top-level " + self.peek())
        return out

    def module(self):
        self.expect("module")
        self.accept("automatic") or self.accept("static")
        m = {"name": self.ident(), "ports": [], "items": []}
        if self.accept("#"):
            self.expect("(")
            while not self.at(")"):
                local = self.at("localparam")
                self.accept("parameter") or self.accept("localparam")
                m["items"] += self.param(local)
                if not self.accept(","):
                    break
            self.expect(")")
        if self.accept("("):
            d = ("input", None, False, [])
            while not self.at(")"):
                d = self.port(m, d)
                if not self.accept(","):
                    break
            self.expect(")")
        self.expect(";")
        while not self.at("endmodule"):
            m["items"] += self.item()
        self.next()
        if self.accept(":"):
            self.ident()
        return m

    def port(self, m, prev):
        dirn, rng, sgn, packed = prev
        new = False
        if self.peek() in ("input", "output", "inout"):
            dirn, new = self.next(), True
            if dirn == "inout":
                raise Unsupported("inout")
        width = None
        if self.peek() in TYPES or self.peek() in INTS or self.peek() in ("signed", "unsigned") or self.at("["):
            new = True
        if new:
            width, sgn, packed = self.dtype()
        name = self.ident()
        m["ports"].append(name)
        m["items"].append(("decl", dirn, width if new else rng, sgn, packed, name, self.unpacked(), None))
        if self.accept("="):
            raise Unsupported("port default")
        return (dirn, width if new else rng, sgn, packed)

    def dtype(self):
        width, sgn = None, False
        while self.peek() in TYPES:
            self.next()
        if self.peek() in INTS:
            width, sgn = INTS[self.next()], True
        if self.accept("signed"):
            sgn = True
        elif self.accept("unsigned"):
            sgn = False
        dims = []
        while self.at("["):
            dims.append(self.range())
        return width, sgn, dims

    def range(self):
        self.expect("[")
        a = self.expr()
        b = None
        if self.accept(":"):
            b = self.expr()
        self.expect("]")
        return a, b

    def unpacked(self):
        dims = []
        while self.at("["):
            dims.append(self.range())
        return dims

    def param(self, local=False):
        w, sgn, dims = self.dtype() if (self.peek() in TYPES or self.peek() in INTS or self.at("[")
                                        or self.peek() in ("signed", "unsigned")) else (None, None, [])
        name = self.ident()
        if self.at("["):
            raise Unsupported("array parameter")
        self.expect("=")
        return [("param", name, self.expr(), local, (w, sgn, dims))]

    def item(self):
        p = self.peek()
        if p in ("parameter", "localparam"):
            self.next()
            out = self.param(p == "localparam")
            while self.accept(","):
                out += self.param(p == "localparam")
            self.expect(";")
            return out
        if p in ("input", "output") or p in TYPES or p in INTS or p in ("signed",):
            dirn = self.next() if p in ("input", "output") else None
            if p == "genvar":
                self.next()
                out = [("genvar", self.ident())]
                while self.accept(","):
                    out.append(("genvar", self.ident()))
                self.expect(";")
                return out
            w, sgn, dims = self.dtype()
            out = []
            while True:
                name = self.ident()
                un = self.unpacked()
                init = self.expr() if self.accept("=") else None
                out.append(("decl", dirn, w, sgn, dims, name, un, init))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p == "assign":
            self.next()
            if self.at("#"):
                raise Unsupported("delay")
            out = []
            while True:
                lv = self.lvalue()
                self.expect("=")
                out.append(("assign", lv, self.expr()))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p == "always_comb" or p == "always_latch":
            self.next()
            if p == "always_latch":
                raise Unsupported("latch")
            return [("comb", self.stmt())]
        if p in ("always_ff", "always"):
            self.next()
            if not self.accept("@"):
                raise Unsupported("always without event")
            if self.accept("*"):
                return [("comb", self.stmt())]
            self.expect("(")
            if self.accept("*"):
                self.expect(")")
                return [("comb", self.stmt())]
            evs = []
            while True:
                e = self.next() if self.peek() in ("posedge", "negedge") else None
                evs.append((e, self.expr()))
                if not (self.accept("or") or self.accept(",")):
                    break
            self.expect(")")
            st = self.stmt()
            if all(e is None for e, _ in evs):
                return [("comb", st)]
            if any(e is None for e, _ in evs):
                raise Unsupported("mixed sensitivity list")
            return [("ff", evs, st)]
        if p == "generate":
            self.next()
            out = []
            while not self.accept("endgenerate"):
                out += self.item()
            return [("block", None, out)]
        if p == "for":
            self.next()
            self.expect("(")
            self.accept("genvar") or self.accept("int") or self.accept("integer")
            v = self.ident()
            self.expect("=")
            a = self.expr()
            self.expect(";")
            c = self.expr()
            self.expect(";")
            st = self.step()
            self.expect(")")
            return [("gfor", v, a, c, st, self.gblock())]
        if p == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.gblock()
            b = self.gblock() if self.accept("else") else ("block", None, [])
            return [("gif", c, a, b)]
        if p == "begin":
            return [self.gblock()]
        if p == ";":
            self.next()
            return []
        if self.kind() == "id" and p not in KEYWORDS and self.kind(1) in ("id", "op"):
            return self.instance()
        raise Unsupported("item " + p)

    def gblock(self):
        if self.accept("begin"):
            label = self.ident() if self.accept(":") else None
            out = []
            while not self.accept("end"):
                out += self.item()
            if self.accept(":"):
                self.ident()
            return ("block", label, out)
        return ("block", None, self.item())

    def step(self):
        if self.peek() in ("++", "--"):
            o = self.next()
            v = self.ident()
            return (v, ("bin", o[0], ("id", v), ("num", 1, None, True)))
        v = self.ident()
        o = self.next()
        if o in ("++", "--"):
            return (v, ("bin", o[0], ("id", v), ("num", 1, None, True)))
        if o == "=":
            return (v, self.expr())
        if o in ("+=", "-=", "*=", "<<=", ">>="):
            return (v, ("bin", o[:-1], ("id", v), self.expr()))
        raise Unsupported("loop step")

    def instance(self):
        mod = self.ident()
        pars = []
        if self.accept("#"):
            self.expect("(")
            pars = self.conns()
        out = []
        while True:
            name = self.ident()
            if self.at("["):
                raise Unsupported("instance array")
            self.expect("(")
            out.append(("inst", mod, pars, name, self.conns()))
            if not self.accept(","):
                break
        self.expect(";")
        return out

    def conns(self):
        """(name or None, expr or None) pairs, after the opening parenthesis"""
        out = []
        if self.accept(")"):
            return out
        while True:
            if self.accept("."):
                if self.accept("*"):
                    out.append(("*", None))
                else:
                    n = self.ident()
                    if self.accept("("):
                        e = None if self.at(")") else self.expr()
                        self.expect(")")
                        out.append((n, e))
                    else:
                        out.append((n, ("id", n)))
            else:
                out.append((None, self.expr()))
            if not self.accept(","):
                break
        self.expect(")")
        return out

    # statements
    def stmt(self):
        p = self.peek()
        if p == "begin":
            self.next()
            if self.accept(":"):
                self.ident()
            out = []
            while not self.accept("end"):
                out.append(self.stmt())
            if self.accept(":"):
                self.ident()
            return ("seq", out)
        if p in ("unique", "unique0", "priority"):
            self.next()
            p = self.peek()
        if p == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.stmt()
            b = self.stmt() if self.accept("else") else None
            return ("if", c, a, b)
        if p == "case":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            arms = []
            while not self.accept("endcase"):
                if self.accept("default"):
                    self.accept(":")
                    arms.append((None, self.stmt()))
                    continue
                es = [self.expr()]
                while self.accept(","):
                    es.append(self.expr())
                self.expect(":")
                arms.append((es, self.stmt()))
            return ("case", c, arms)
        if p == "for":
            self.next()
            self.expect("(")
            self.accept("int") or self.accept("integer")
            v = self.ident()
            self.expect("=")
            a = self.expr()
            self.expect(";")
            c = self.expr()
            self.expect(";")
            st = self.step()
            self.expect(")")
            return ("for", v, a, c, st, self.stmt())
        if p == ";":
            self.next()
            return ("seq", [])
        if p in TYPES or p in INTS:
            w, sgn, dims = self.dtype()
            out = []
            while True:
                n = self.ident()
                if self.at("["):
                    raise Unsupported("local array")
                out.append(("local", n, w, sgn, dims, self.expr() if self.accept("=") else None))
                if not self.accept(","):
                    break
            self.expect(";")
            return ("locals", out)
        if p in KEYWORDS or p.startswith("$"):
            raise Unsupported("statement " + p)
        lv = self.lvalue()
        o = self.next()
        if o in ("<=", "="):
            if self.at("#"):
                raise Unsupported("delay")
            e = self.expr()
        elif o in ("++", "--"):
            e, o = ("bin", o[0], lv, ("num", 1, None, True)), "="
        elif o in ("+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>="):
            e, o = ("bin", o[:-1], lv, self.expr()), "="
        else:
            raise Unsupported("assignment " + o)
        self.expect(";")
        return ("set", o, lv, e)

    def lvalue(self):
        if self.accept("{"):
            out = [self.lvalue()]
            while self.accept(","):
                out.append(self.lvalue())
            self.expect("}")
            return ("cat", out)
        return self.postfix(("id", self.ident()))

    # expressions
    LEVELS = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="],
              ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]

    def expr(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            b = self.expr()
            return ("cond", c, a, b)
        return c

    def binary(self, lev):
        if lev == len(self.LEVELS):
            return self.unary()
        a = self.binary(lev + 1)
        while self.kind() == "op" and self.peek() in self.LEVELS[lev]:
            o = self.next()
            a = ("bin", o, a, self.binary(lev + 1))
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"):
            o = self.next()
            return ("un", o, self.unary())
        return self.primary()

    def primary(self):
        k, p = self.t[self.i]
        if k == "num":
            self.next()
            v, w, s = number(p)
            if isinstance(v, tuple):
                return ("fill", v[1])
            e = ("num", v, w, s)
            if self.at("'("):
                self.next()
                x = self.expr()
                self.expect(")")
                return ("cast", e, x)
            return e
        if p == "(":
            self.next()
            e = self.expr()
            self.expect(")")
            return self.postfix(e) if self.at("[") else e
        if p == "{":
            self.next()
            first = self.expr()
            if self.at("{"):
                self.next()
                out = [self.expr()]
                while self.accept(","):
                    out.append(self.expr())
                self.expect("}")
                self.expect("}")
                return ("rep", first, ("cat", out))
            out = [first]
            while self.accept(","):
                out.append(self.expr())
            self.expect("}")
            return ("cat", out)
        if k == "id":
            self.next()
            if p.startswith("$"):
                if p not in ("$clog2", "$signed", "$unsigned", "$bits", "$countones"):
                    raise Unsupported(p)
                self.expect("(")
                e = self.expr()
                self.expect(")")
                return ("sys", p, e)
            if p in ("signed", "unsigned") and self.at("'("):
                self.next()
                e = self.expr()
                self.expect(")")
                return ("sys", "$" + p, e)
            if p in KEYWORDS:
                raise Unsupported("expression " + p)
            if self.at("'("):
                self.next()
                x = self.expr()
                self.expect(")")
                return ("cast", ("id", p), x)
            if self.at("("):
                raise Unsupported("function call " + p)
            if self.at(".") or self.at("::"):
                raise Unsupported("hierarchical name")
            return self.postfix(("id", p))
        raise Unsupported("expression %r" % p)

    def postfix(self, e):
        while self.at("["):
            self.next()
            a = self.expr()
            if self.accept(":"):
                e = ("part", e, a, self.expr())
            elif self.accept("+:"):
                e = ("up", e, a, self.expr())
            elif self.accept("-:"):
                e = ("down", e, a, self.expr())
            else:
                e = ("idx", e, a)
            self.expect("]")
        return e


KEYWORDS = {"module", "endmodule", "begin", "end", "if", "else", "case", "casex", "casez", "endcase", "for", "while",
            "initial", "always", "always_ff", "always_comb", "always_latch", "assign", "generate", "endgenerate",
            "function", "endfunction", "task", "endtask", "posedge", "negedge", "or", "parameter", "localparam",
            "typedef", "enum", "struct", "union", "package", "import", "interface", "modport", "final", "assert",
            "assume", "cover", "property", "sequence", "force", "release", "deassign", "fork", "join", "wait",
            "forever", "repeat", "do", "return", "break", "continue", "default", "input", "output", "inout"}


# ----------------------------------------------------------------- elaboration
class Sig:
    __slots__ = ("k", "w", "sgn", "lsb", "dims", "name", "elem", "asc")

    def __init__(self, k, w, sgn, lsb, dims, name, elem, asc):
        self.k, self.w, self.sgn, self.lsb, self.dims, self.name, self.elem, self.asc = k, w, sgn, lsb, dims, name, elem, asc


class Const:
    def __init__(self, v, w=32, sgn=True):
        self.v, self.w, self.sgn = v, w, sgn


class Local:
    def __init__(self, py, w, sgn):
        self.py, self.w, self.sgn = py, w, sgn


class Scope:
    def __init__(self, parent=None):
        self.d, self.parent = {}, parent

    def get(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.parent
        raise Unsupported("undeclared " + n)

    def has(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return True
            s = s.parent
        return False


def mask(w):
    return (1 << w) - 1


def _sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Comp:
    """expressions and statements -> Python source over the state list `s`"""

    def __init__(self, sim):
        self.sim = sim
        self.reads, self.writes = set(), set()
        self.tmp = 0

    # ---- types
    def typ(self, e, sc):
        k = e[0]
        if k == "num":
            return (e[2] or 32, e[3])
        if k == "fill":
            return (1, False)
        if k == "id":
            o = sc.get(e[1])
            if isinstance(o, (Const, Local)):
                return (o.w, o.sgn)
            if o.dims:
                raise Unsupported("array %s as a value" % e[1])
            return (o.w, o.sgn)
        if k in ("idx", "part", "up", "down"):
            base = self.base(e, sc)
            return (base[2], False if base[3] is None else base[3])
        if k == "un":
            if e[1] in ("+", "-", "~"):
                return self.typ(e[2], sc)
            return (1, False)
        if k == "bin":
            o = e[1]
            if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return (1, False)
            a = self.typ(e[2], sc)
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.typ(e[3], sc)
            return (max(a[0], b[0]), a[1] and b[1])
        if k == "cond":
            a, b = self.typ(e[2], sc), self.typ(e[3], sc)
            return (max(a[0], b[0]), a[1] and b[1])
        if k == "cat":
            return (sum(self.typ(x, sc)[0] for x in e[1]), False)
        if k == "rep":
            n = self.const(e[1], sc)
            if n < 0:
                raise Unsupported("negative replication")
            return (n * self.typ(e[2], sc)[0], False)
        if k == "sys":
            if e[1] in ("$clog2", "$bits", "$countones"):
                return (32, True)
            return (self.typ(e[2], sc)[0], e[1] == "$signed")
        if k == "cast":
            return (self.const(e[1], sc), self.typ(e[2], sc)[1])
        raise Unsupported("expression " + k)

    def const(self, e, sc):
        """value of an elaboration-time constant, as a Python int"""
        w, sgn = self.typ(e, sc)
        w = max(w, 32) if e[0] != "sys" else w
        src = self.ex(e, sc, w, sgn, True)
        try:
            v = eval(src, {"sx": _sx, "pc": _pc, "dv": _dv, "md": _md, "clog2": _clog2, "pw": pow})
        except NameError:
            raise Unsupported("not a constant")
        return _sx(v, w) if sgn else v

    def isconst(self, e, sc):
        k = e[0]
        if k in ("num", "fill"):
            return True
        if k == "id":
            return isinstance(sc.get(e[1]), Const)
        if k == "un":
            return self.isconst(e[2], sc)
        if k == "bin":
            return self.isconst(e[2], sc) and self.isconst(e[3], sc)
        if k == "cond":
            return all(self.isconst(x, sc) for x in e[1:])
        if k == "sys":
            return e[1] == "$bits" or self.isconst(e[2], sc)
        if k == "cast":
            return self.isconst(e[2], sc)
        return False

    # ---- selects:  -> (python of the element, lsb offset python or int, width, sgn, sig, array index python)
    def base(self, e, sc):
        chain = []
        x = e
        while x[0] in ("idx", "part", "up", "down"):
            chain.append(x)
            x = x[1]
        if x[0] != "id":
            raise Unsupported("select of an expression")
        chain.reverse()
        o = sc.get(x[1])
        if isinstance(o, Const):
            raise Unsupported("select of a parameter")
        if isinstance(o, Local):
            o2 = Sig(None, o.w, o.sgn, 0, [], x[1], None, False)
            o2.k = o.py
            o = o2
        dims = list(o.dims)
        arr = []
        i = 0
        while dims and i < len(chain):
            c = chain[i]
            if c[0] != "idx":
                raise Unsupported("slice of an array")
            lo, n = dims.pop(0)
            arr.append((c[2], lo, n))
            i += 1
        if dims:
            raise Unsupported("array %s as a value" % x[1])
        off, w, sgn = None, o.w, o.sgn
        elem = list(o.elem or [])               # packed dimensions below the first: [(lsb, count, element width)]
        lsb = o.lsb
        while i < len(chain):
            c = chain[i]
            sgn = False
            if c[0] == "idx":
                if elem:
                    lo, n, ew = elem.pop(0)
                    off = self.addoff(off, self.mul(self.suboff(self.lin(c[2], sc), lo), ew))
                    w = ew
                    lsb = 0 if not elem else None
                    if not elem:
                        lsb = self.lastlsb(o)
                else:
                    off = self.addoff(off, self.bitoff(c[2], lsb, o, sc))
                    w = 1
                    lsb = 0
            else:
                if elem:
                    raise Unsupported("slice of packed array")
                if o.asc:
                    raise Unsupported("part select of ascending range")
                if c[0] == "part":
                    hi, lo = self.const(c[2], sc), self.const(c[3], sc)
                    if hi < lo:
                        raise Unsupported("reversed part select")
                    off = self.addoff(off, lo - lsb)
                    w = hi - lo + 1
                else:
                    n = self.const(c[3], sc)
                    st = self.suboff(self.lin(c[2], sc), lsb)
                    if c[0] == "down":
                        st = self.suboff(st, n - 1)
                    off = self.addoff(off, st)
                    w = n
                lsb = 0
            i += 1
        return o, off, w, sgn, arr

    def lastlsb(self, o):
        return 0

    def bitoff(self, e, lsb, o, sc):
        x = self.lin(e, sc)
        if o.asc:
            return self.sub2(o.lsb, x)          # [0:n-1]: bit i sits at lsb-i counted from the right index
        return self.suboff(x, lsb)

    def lin(self, e, sc):
        """an index: int when constant, else Python source (self-determined)"""
        if self.isconst(e, sc):
            return self.const(e, sc)
        w, sgn = self.typ(e, sc)
        src = self.ex(e, sc, w, sgn)
        return "sx(%s,%d)" % (src, w) if sgn else src

    @staticmethod
    def addoff(a, b):
        if a is None:
            return b
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return "(%s+%s)" % (a, b)

    @staticmethod
    def suboff(a, b):
        if b == 0:
            return a
        if isinstance(a, int):
            return a - b
        return "(%s-%d)" % (a, b)

    @staticmethod
    def sub2(a, b):
        if isinstance(b, int):
            return a - b
        return "(%d-%s)" % (a, b)

    @staticmethod
    def mul(a, n):
        return a * n if isinstance(a, int) else "(%s*%d)" % (a, n)

    def element(self, o, arr, sc):
        """python source of the whole element"""
        if isinstance(o.k, str):
            return o.k
        self.reads.add(o.k)
        if not arr:
            return "s[%d]" % o.k
        idx = self.flat(o, arr, sc)
        if isinstance(idx, int):
            return "s[%d][%d]" % (o.k, idx)
        return "ga(s[%d],%s)" % (o.k, idx)

    def flat(self, o, arr, sc):
        tot = 0
        src = None
        for e, lo, n in arr:
            i = self.suboff(self.lin(e, sc), lo)
            if isinstance(i, int):
                if not 0 <= i < n:          # reads nothing, writes nothing
                    i = "ck(%d,%d)" % (i, n)
            else:
                i = "ck(%s,%d)" % (i, n)
            if src is None and isinstance(tot, int) and isinstance(i, int):
                tot = tot * n + i
            else:
                src = "(%s*%d+%s)" % (tot if src is None else src, n, i)
        return tot if src is None else src

    # ---- expressions; every value is an int in [0, 2**w)
    def ext(self, src, w, sgn, W, S):
        if W == w or not (S and sgn):
            if W < w:
                return "(%s&%d)" % (src, mask(W))
            return src
        if W < w:
            return "(%s&%d)" % (src, mask(W))
        return "(sx(%s,%d)&%d)" % (src, w, mask(W))

    def ex(self, e, sc, W, S, cst=False):
        k = e[0]
        if k == "num":
            w = e[2] or 32
            v = e[1] & mask(w)
            if S and e[3]:
                v = _sx(v, w)
            return str(v & mask(W))
        if k == "fill":
            return str(mask(W) if e[1] else 0)
        if k == "id":
            o = sc.get(e[1])
            if isinstance(o, Const):
                v = o.v & mask(o.w)
                if S and o.sgn:
                    v = _sx(v, o.w)
                return str(v & mask(W))
            if cst:
                raise Unsupported("not a constant")
            if isinstance(o, Local):
                return self.ext(o.py, o.w, o.sgn, W, S)
            if o.dims:
                raise Unsupported("array as a value")
            self.reads.add(o.k)
            return self.ext("s[%d]" % o.k, o.w, o.sgn, W, S)
        if k in ("idx", "part", "up", "down"):
            if cst:
                raise Unsupported("not a constant")
            o, off, w, sgn, arr = self.base(e, sc)
            el = self.element(o, arr, sc)
            if off is None:
                return self.ext(el, o.w, o.sgn, W, S)
            if isinstance(off, int):
                if off < 0 or off >= o.w:
                    return "0"
                src = "(%s>>%d&%d)" % (el, off, mask(w)) if off + w < o.w else "(%s>>%d)" % (el, off)
            else:
                src = "sb(%s,%s,%d,%d)" % (el, off, mask(w), o.w)
            return self.ext(src, w, False, W, S)
        if k == "un":
            o = e[1]
            if o == "+":
                return self.ex(e[2], sc, W, S, cst)
            if o == "-":
                return "(-%s&%d)" % (self.ex(e[2], sc, W, S, cst), mask(W))
            if o == "~":
                return "(%s^%d)" % (self.ex(e[2], sc, W, S, cst), mask(W))
            w, sgn = self.typ(e[2], sc)
            a = self.ex(e[2], sc, w, sgn, cst)
            return {"!": "(0 if %s else 1)" % a,
                    "&": "(1 if %s==%d else 0)" % (a, mask(w)),
                    "~&": "(0 if %s==%d else 1)" % (a, mask(w)),
                    "|": "(1 if %s else 0)" % a,
                    "~|": "(0 if %s else 1)" % a,
                    "^": "(pc(%s)&1)" % a,
                    "~^": "(pc(%s)&1^1)" % a, "^~": "(pc(%s)&1^1)" % a}[o]
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"):
                a = self.boolean(e[2], sc, cst)
                b = self.boolean(e[3], sc, cst)
                return "(1 if (%s %s %s) else 0)" % (a, "and" if o == "&&" else "or", b)
            if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                ta, tb = self.typ(e[2], sc), self.typ(e[3], sc)
                w, sg = max(ta[0], tb[0]), ta[1] and tb[1]
                a, b = self.ex(e[2], sc, w, sg, cst), self.ex(e[3], sc, w, sg, cst)
                if sg and o[0] in "<>":
                    a, b = "sx(%s,%d)" % (a, w), "sx(%s,%d)" % (b, w)
                return "(1 if %s%s%s else 0)" % (a, o[:2], b)
            if o in ("<<", ">>", "<<<", ">>>"):
                a = self.ex(e[2], sc, W, S, cst)
                wb, _ = self.typ(e[3], sc)
                b = self.ex(e[3], sc, wb, False, cst)
                if o in ("<<", "<<<"):
                    return "(%s<<min(%s,%d)&%d)" % (a, b, W, mask(W))
                if o == ">>>" and S:
                    return "((sx(%s,%d)>>%s)&%d)" % (a, W, b, mask(W))
                return "(%s>>%s)" % (a, b)
            if o == "**":
                a = self.ex(e[2], sc, W, S, cst)
                wb, sb = self.typ(e[3], sc)
                b = self.ex(e[3], sc, wb, sb, cst)
                return "(pw(%s,%s)&%d)" % (a, b, mask(W))
            a, b = self.ex(e[2], sc, W, S, cst), self.ex(e[3], sc, W, S, cst)
            if o in ("+", "-", "*"):
                return "(%s%s%s&%d)" % (a, o, b, mask(W))
            if o in ("&", "|", "^"):
                return "(%s%s%s)" % (a, o, b)
            if o in ("~^", "^~"):
                return "(%s^%s^%d)" % (a, b, mask(W))
            if o in ("/", "%"):
                if S:
                    a, b = "sx(%s,%d)" % (a, W), "sx(%s,%d)" % (b, W)
                return "(%s(%s,%s)&%d)" % ("dv" if o == "/" else "md", a, b, mask(W))
            raise Unsupported("operator " + o)
        if k == "cond":
            c = self.boolean(e[1], sc, cst)
            return "(%s if %s else %s)" % (self.ex(e[2], sc, W, S, cst), c, self.ex(e[3], sc, W, S, cst))
        if k == "cat":
            parts, sh = [], 0
            for x in reversed(e[1]):
                if x[0] == "num" and x[2] is None:
                    pass                        # unsized constant in a concatenation: 32 bits, as tools treat it
                w, sgn = self.typ(x, sc)
                a = self.ex(x, sc, w, sgn, cst)
                parts.append("(%s<<%d)" % (a, sh) if sh else a)
                sh += w
            return self.ext("(" + "|".join(parts) + ")", sh, False, W, S)
        if k == "rep":
            n = self.const(e[1], sc)
            if n == 0:
                return "0"
            w, _ = self.typ(e[2], sc)
            a = self.ex(e[2], sc, w, False, cst)
            f = sum(1 << (w * i) for i in range(n))
            return self.ext("(%s*%d)" % (a, f), w * n, False, W, S)
        if k == "sys":
            w, sgn = self.typ(e[2], sc)
            if e[1] == "$bits":
                return str(w & mask(W))
            a = self.ex(e[2], sc, w, sgn, cst)
            if e[1] == "$clog2":
                return "(clog2(%s)&%d)" % (a, mask(W))
            if e[1] == "$countones":
                return "(pc(%s)&%d)" % (a, mask(W))
            return self.ext(a, w, e[1] == "$signed", W, S)
        if k == "cast":
            n = self.const(e[1], sc)
            w, sgn = self.typ(e[2], sc)
            a = self.ex(e[2], sc, max(w, n), sgn, cst)
            return self.ext("(%s&%d)" % (a, mask(n)), n, sgn, W, S)
        raise Unsupported("expression " + k)

    def boolean(self, e, sc, cst=False):
        w, sgn = self.typ(e, sc)
        return self.ex(e, sc, w, sgn, cst)

    def rhs(self, e, sc, w):
        """source of the value of e assigned to a target of width w"""
        we, sgn = self.typ(e, sc)
        W = max(w, we)
        src = self.ex(e, sc, W, sgn)
        return "(%s&%d)" % (src, mask(w)) if W > w else src

    # ---- assignment targets
    def lvw(self, lv, sc):
        if lv[0] == "cat":
            return sum(self.lvw(x, sc) for x in lv[1])
        if lv[0] == "id":
            o = sc.get(lv[1])
            if isinstance(o, Const):
                raise Unsupported("assignment to constant")
            if isinstance(o, Sig) and o.dims:
                raise Unsupported("array assignment")
            return o.w
        return self.base(lv, sc)[2]

    def assign(self, lv, src, sc, mode, out, ind):
        """mode: 'now' (blocking / combinational) or 'nb'"""
        if lv[0] == "cat":
            tot = self.lvw(lv, sc)
            self.tmp += 1
            t = "t%d" % self.tmp
            out.append(ind + "%s=%s" % (t, src))
            sh = tot
            for x in lv[1]:
                w = self.lvw(x, sc)
                sh -= w
                self.assign(x, "(%s>>%d&%d)" % (t, sh, mask(w)), sc, mode, out, ind)
            return
        if lv[0] == "id":
            o = sc.get(lv[1])
            if isinstance(o, Local):
                out.append(ind + "%s=%s" % (o.py, src))
                return
            off, w, arr = None, o.w, []
        else:
            o, off, w, _, arr = self.base(lv, sc)
            if isinstance(o.k, str):
                raise Unsupported("partial write of a local variable")
        self.writes.add(o.k)
        idx = self.flat(o, arr, sc) if arr else None
        if isinstance(off, int) and (off < 0 or off >= o.w):
            return
        if isinstance(off, int) and off + w > o.w:
            src, w = "(%s&%d)" % (src, mask(o.w - off)), o.w - off
        if isinstance(off, str):
            off = "co(%s,%d)" % (off, o.w - w)
        if mode == "nb":
            out.append(ind + "nb.append((%d,%s,%s,%d,%s))" % (o.k, idx, off, w, src))
        elif idx is None and off is None:
            out.append(ind + "v=%s" % src)
            out.append(ind + "if s[%d]!=v: s[%d]=v; ch=1" % (o.k, o.k))
        else:
            out.append(ind + "ch|=up(s,%d,%s,%s,%d,%s)" % (o.k, idx, off, w, src))

    # ---- statements
    def stmt(self, st, sc, mode, out, ind):
        k = st[0]
        n0 = len(out)
        if k == "seq":
            sub = Scope(sc)
            for x in st[1]:
                self.stmt(x, sub, mode, out, ind)
        elif k == "locals":
            for _, n, w, sgn, dims, init in st[1]:
                if len(dims) > 1:
                    raise Unsupported("local packed array")
                if dims:
                    hi, lo = self.const(dims[0][0], sc), self.const(dims[0][1], sc)
                    if lo != 0 or hi < 0:
                        raise Unsupported("local range")
                    w = hi + 1
                self.tmp += 1
                loc = Local("l%d" % self.tmp, w or 1, sgn)
                out.append(ind + "%s=%s" % (loc.py, self.rhs(init, sc, loc.w) if init else "0"))
                sc.d[n] = loc
        elif k == "set":
            _, o, lv, e = st
            w = self.lvw(lv, sc)
            src = self.rhs(e, sc, w)
            tgt = lv
            local = tgt[0] == "id" and isinstance(sc.get(tgt[1]), Local)
            if mode == "comb":
                self.assign(lv, src, sc, "now", out, ind)
            else:
                self.assign(lv, src, sc, "nb" if o == "<=" and not local else "now", out, ind)
        elif k == "if":
            out.append(ind + "if %s:" % self.boolean(st[1], sc))
            self.stmt(st[2], Scope(sc), mode, out, ind + " ")
            if st[3] is not None:
                out.append(ind + "else:")
                self.stmt(st[3], Scope(sc), mode, out, ind + " ")
        elif k == "case":
            tys = [self.typ(st[1], sc)] + [self.typ(e, sc) for es, _ in st[2] if es for e in es]
            W, S = max(t[0] for t in tys), all(t[1] for t in tys)
            self.tmp += 1
            t = "t%d" % self.tmp
            out.append(ind + "%s=%s" % (t, self.ex(st[1], sc, W, S)))
            kw, dflt = "if", None
            for es, body in st[2]:
                if es is None:
                    dflt = body
                    continue
                out.append(ind + "%s %s:" % (kw, " or ".join("%s==%s" % (t, self.ex(e, sc, W, S)) for e in es)))
                self.stmt(body, Scope(sc), mode, out, ind + " ")
                kw = "elif"
            if dflt is not None:
                if kw == "if":
                    self.stmt(dflt, Scope(sc), mode, out, ind)
                else:
                    out.append(ind + "else:")
                    self.stmt(dflt, Scope(sc), mode, out, ind + " ")
        elif k == "for":
            _, v, a, c, (sv, se), body = st
            if sv != v:
                raise Unsupported("loop variable")
            cur = self.const(a, sc)
            for _n in range(5000):
                sub = Scope(sc)
                sub.d[v] = Const(cur)
                if not self.const(c, sub):
                    break
                self.stmt(body, Scope(sub), mode, out, ind)
                cur = self.const(se, sub)
            else:
                raise Unsupported("unbounded loop")
        else:
            raise Unsupported("statement " + k)
        if len(out) == n0 or out[-1].rstrip().endswith(":"):
            out.append(ind + "pass")


def _pc(v):
    return bin(v).count("1")


def _dv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _md(a, b):
    return 0 if b == 0 else a - b * _dv(a, b)


def _clog2(v):
    return max(0, (v - 1).bit_length()) if v > 0 else 0


def _ga(arr, i):
    return arr[i] if 0 <= i < len(arr) else 0


def _ck(i, n):
    return i if 0 <= i < n else -(1 << 40)


def _co(i, hi):
    return i if i <= hi else -1


def _sb(v, off, m, w):
    return (v >> off) & m if 0 <= off else 0


def _up(s, k, idx, off, w, v):
    if idx is not None:
        a = s[k]
        if not 0 <= idx < len(a):
            return 0
        old = a[idx]
    else:
        old = s[k]
    if off is None:
        new = v
    else:
        if off < 0:
            return 0
        m = ((1 << w) - 1) << off
        new = (old & ~m) | (v << off)
    if new == old:
        return 0
    if idx is not None:
        a[idx] = new
    else:
        s[k] = new
    return 1


class Sim:
    """One elaborated design.  `poke(**inputs)` drives ports, `peek(name)` reads
    any top-level signal; `sig('inst.name')` reaches below."""

    def __init__(self, files, top, params=None, incdirs=(), defines=None, seed=0):
        self.widths = []
        self.init = []
        self.sigs = {}
        self.comb_src = []          # (reads, writes, lines)
        self.ff = []                # (events, function source)
        self.comp = Comp(self)
        mods = {}
        for f in ([files] if isinstance(files, str) else files):
            text = Pre(incdirs, defines).file(f)
            mods.update(Parser(text).modules())
        self.mods = mods
        if top not in mods:
            raise Unsupported("no module " + top)
        self.rng = random.Random(seed)
        self.state = []
        try:
            self.ports = self.elab(mods[top], "", dict(params or {}), 0)
        except RecursionError:
            raise Unsupported("recursion")
        self.build()

    # ---- signals
    def new(self, name, w, sgn, lsb, dims, elem, asc):
        k = len(self.state)
        n = 1
        for _, c in dims:
            n *= c
        if w > 4096 or n > 4096 or w < 1:
            raise Unsupported("size of " + name)
        self.state.append([self.rng.getrandbits(w) for _ in range(n)] if dims else self.rng.getrandbits(w))
        sg = Sig(k, w, sgn, lsb, dims, name, elem, asc)
        self.sigs[name] = sg
        return sg

    def declare(self, it, sc, prefix):
        _, dirn, width, sgn, packed, name, un, init = it
        c = self.comp
        w, lsb, asc, elem = width or 1, 0, False, None
        if packed:
            dims = []
            for hi, lo in packed:
                if lo is None:
                    raise Unsupported("packed size")
                dims.append((c.const(hi, sc), c.const(lo, sc)))
            sizes = [abs(a - b) + 1 for a, b in dims]
            w = 1
            for z in sizes:
                w *= z
            if len(dims) == 1:
                hi, lo = dims[0]
                asc = hi < lo
                lsb = lo
            else:
                elem, rem = [], w
                for (hi, lo), z in zip(dims[:-1], sizes[:-1]):
                    if hi < lo:
                        raise Unsupported("ascending packed range")
                    rem //= z
                    elem.append((lo, z, rem))
                if dims[-1][0] < dims[-1][1] or dims[-1][1] != 0:
                    raise Unsupported("packed range")
        dims = []
        for a, b in un:
            if b is None:
                dims.append((0, c.const(a, sc)))
            else:
                x, y = c.const(a, sc), c.const(b, sc)
                dims.append((min(x, y), abs(x - y) + 1))
        sg = self.new(prefix + name, w, sgn, lsb, dims, elem, asc)
        return sg, init

    # ---- modules
    def elab(self, m, prefix, params, depth):
        if depth > 20:
            raise Unsupported("instance depth")
        c = self.comp
        sc = Scope()
        dirs = {}
        left = dict(params)

        def declare_all(items, sc, prefix, top):
            """parameters and signals of one scope, in order"""
            for it in items:
                if it[0] == "param":
                    _, name, e, local, (w, sgn, dims) = it
                    if top and not local and name in left:
                        v = left.pop(name)
                    else:
                        v = c.const(e, sc)
                    if dims:
                        if len(dims) > 1:
                            raise Unsupported("parameter type")
                        w = c.const(dims[0][0], sc) - c.const(dims[0][1], sc) + 1
                    sc.d[name] = Const(v & mask(w), w, bool(sgn)) if w else Const(v, 32 if -2**31 <= v < 2**32 else 64, v < 2**31)
                elif it[0] == "decl":
                    name = it[5]
                    if name in sc.d and isinstance(sc.d[name], Sig):
                        # a port declared again in the body with its real type
                        if name not in dirs:
                            raise Unsupported("redeclaration of " + name)
                    sg, init = self.declare(it, sc, prefix)
                    sc.d[name] = sg
                    if it[1]:
                        dirs[name] = it[1]
                    if init is not None:
                        if it[1] is None and not sg.dims:
                            late.append((("id", name), init, sc))
                        else:
                            raise Unsupported("initialiser")
                elif it[0] == "genvar":
                    pass

        late = []
        declare_all(m["items"], sc, prefix, True)
        if left:
            raise Unsupported("no parameter " + ", ".join(left))
        for lv, e, s2 in late:
            # `logic x = e;` is a power-up value in a module, which synthesis of this
            # code base never relies on
            raise Unsupported("variable initialiser")
        self.body(m["items"], sc, prefix, depth, declare_all)
        return {n: (dirs.get(n), sc.d[n]) for n in m["ports"]}

    def body(self, items, sc, prefix, depth, declare_all):
        c = self.comp
        for it in items:
            k = it[0]
            if k in ("param", "decl", "genvar"):
                continue
            if k == "assign":
                self.add_comb(("set", "=", it[1], it[2]), sc)
            elif k == "comb":
                self.add_comb(it[1], sc)
            elif k == "ff":
                self.add_ff(it[1], it[2], sc)
            elif k == "block":
                sub = Scope(sc)
                pre = prefix + (it[1] + "." if it[1] else "g%d." % len(self.state))
                if it[1] is None:
                    sub = sc if not any(x[0] in ("decl", "param") for x in it[2]) else sub
                declare_all(it[2], sub, pre, False)
                self.body(it[2], sub, pre, depth, declare_all)
            elif k == "gif":
                blk = it[2] if c.const(it[1], sc) else it[3]
                self.body([blk], sc, prefix, depth, declare_all)
            elif k == "gfor":
                _, v, a, cond, (sv, se), blk = it
                if sv != v:
                    raise Unsupported("generate loop")
                cur = c.const(a, sc)
                for _n in range(5000):
                    sub = Scope(sc)
                    sub.d[v] = Const(cur)
                    if not c.const(cond, sub):
                        break
                    inner = Scope(sub)
                    pre = "%s%s[%d]." % (prefix, blk[1] or "g%d" % id(blk), cur)
                    declare_all(blk[2], inner, pre, False)
                    self.body(blk[2], inner, pre, depth, declare_all)
                    cur = c.const(se, sub)
                else:
                    raise Unsupported("unbounded generate loop")
            elif k == "inst":
                self.instance(it, sc, prefix, depth)
            else:
                raise Unsupported("item " + k)

    def instance(self, it, sc, prefix, depth):
        _, mod, pars, name, conns = it
        c = self.comp
        if mod not in self.mods:
            raise Unsupported("no module " + mod)
        m = self.mods[mod]
        pnames = [x[1] for x in m["items"] if x[0] == "param" and not x[3]]
        pv = {}
        for j, (n, e) in enumerate(pars):
            if n == "*":
                raise Unsupported(".* in parameters")
            pv[n or pnames[j]] = c.const(e, sc)
        ports = self.elab(m, prefix + name + ".", pv, depth + 1)
        plist = list(ports)
        seen = set()
        allc = []
        for j, (n, e) in enumerate(conns):
            if n == "*":
                for q in plist:
                    if q not in [x for x, _ in conns] and sc.has(q):
                        allc.append((q, ("id", q)))
            else:
                allc.append((n or plist[j], e))
        for n, e in allc:
            if n not in ports:
                raise Unsupported("no port %s on %s" % (n, mod))
            if n in seen:
                raise Unsupported("port twice")
            seen.add(n)
            if e is None:
                continue
            if e[0] == "id" and not sc.has(e[1]):
                sc.d[e[1]] = self.new(prefix + e[1], 1, False, 0, [], None, False)      # implicit net
            dirn, sg = ports[n]
            inner = Scope()
            inner.d["\0p"] = sg
            if sg.dims or (e[0] == "id" and isinstance(sc.get(e[1]), Sig) and sc.get(e[1]).dims):
                if e[0] != "id":
                    raise Unsupported("array port expression")
                o = sc.get(e[1])
                if not isinstance(o, Sig) or [d[1] for d in o.dims] != [d[1] for d in sg.dims] or o.w != sg.w:
                    raise Unsupported("array port shape")
                a, b = (o, sg) if dirn == "input" else (sg, o)
                self.comb_src.append(({a.k}, {b.k}, ["if s[%d]!=s[%d]: s[%d]=list(s[%d]); ch=1" % (b.k, a.k, b.k, a.k)]))
                continue
            both = Scope(sc)
            both.d["\0p"] = sg
            if dirn == "input":
                self.add_comb(("set", "=", ("id", "\0p"), e), both)
            else:
                self.add_comb(("set", "=", e, ("id", "\0p")), both)

    def add_comb(self, st, sc):
        c = self.comp
        c.reads, c.writes = set(), set()
        out = []
        c.stmt(st, Scope(sc), "comb", out, "")
        if st[0] != "set":
            # a block may write a variable several times: only its final value counts
            head, tail = ["ch0=ch"], ["ch=ch0"]
            for k in sorted(c.writes):
                arr = isinstance(self.state[k], list)
                head.append("b%d=%s" % (k, ("list(s[%d])" if arr else "s[%d]") % k))
                tail.append("if s[%d]!=b%d: ch=1" % (k, k))
            out = head + out + tail
        self.comb_src.append((set(c.reads), set(c.writes), out))

    def add_ff(self, evs, st, sc):
        c = self.comp
        events = []
        for edge, e in evs:
            if e[0] != "id":
                raise Unsupported("event expression")
            o = sc.get(e[1])
            if not isinstance(o, Sig) or o.w != 1 or o.dims:
                raise Unsupported("event signal")
            events.append((edge, o.k))
        c.reads, c.writes = set(), set()
        out = []
        c.stmt(st, Scope(sc), "ff", out, " ")
        self.ff.append((events, "def f(s,nb):\n ch=0\n" + "\n".join(out) + "\n", set(c.writes)))

    def build(self):
        # order combinational processes so that one pass usually settles
        n = len(self.comb_src)
        writers = {}
        for i, (r, w, _) in enumerate(self.comb_src):
            for k in w:
                writers.setdefault(k, []).append(i)
        state, order = [0] * n, []

        def visit(i):
            stack = [(i, iter(sorted(self.comb_src[i][0])))]
            state[i] = 1
            while stack:
                j, it = stack[-1]
                for k in it:
                    nxt = [q for q in writers.get(k, []) if state[q] == 0]
                    if nxt:
                        q = nxt[0]
                        state[q] = 1
                        stack.append((j, iter([k]))) if len(nxt) > 1 else None
                        stack.append((q, iter(sorted(self.comb_src[q][0]))))
                        break
                else:
                    stack.pop()
                    if j not in done:
                        if not any(x[0] == j for x in stack):
                            done.add(j)
                            order.append(j)

        done = set()
        for i in range(n):
            if state[i] == 0:
                visit(i)
        src = ["def comb(s):", " ch=0"]
        if not order:
            src.append(" pass")
        for i in order:
            src += [" " + x for x in self.comb_src[i][2]]
        src.append(" return ch")
        env = {"sx": _sx, "pc": _pc, "dv": _dv, "md": _md, "clog2": _clog2, "pw": pow,
               "ga": _ga, "ck": _ck, "co": _co, "sb": _sb, "up": _up}
        exec("\n".join(src), env)
        self.comb = env["comb"]
        self.procs = []
        for events, fsrc, _ in self.ff:
            e2 = dict(env)
            exec(fsrc, e2)
            self.procs.append((events, e2["f"]))
        self.edges = sorted({k for ev, _ in self.procs for _, k in ev})
        self.settle()
        self.last = [self.state[k] for k in self.edges]

    # ---- simulation
    def settle(self):
        s = self.state
        for _ in range(200):
            if not self.comb(s):
                return
        raise Unstable("combinational logic does not settle")

    def events(self):
        s = self.state
        for _ in range(50):
            self.settle()
            now = [s[k] for k in self.edges]
            if now == self.last:
                return
            up = {k for k, a, b in zip(self.edges, self.last, now) if b and not a}
            dn = {k for k, a, b in zip(self.edges, self.last, now) if a and not b}
            self.last = now
            nb = []
            for ev, f in self.procs:
                for e, k in ev:
                    if k in (up if e == "posedge" else dn):
                        f(s, nb)
                        break
            for k, idx, off, w, v in nb:
                _up(s, k, idx, off, w, v)
        raise Unstable("clock loop")

    def poke(self, **kw):
        for n, v in kw.items():
            if n not in self.ports or self.ports[n][0] != "input":
                raise Unsupported("no input " + n)
            sg = self.ports[n][1]
            if sg.dims:
                if len(v) != sg.dims[0][1]:
                    raise Unsupported("array port size")
                self.state[sg.k] = [int(x) & mask(sg.w) for x in v]
            else:
                self.state[sg.k] = int(v) & mask(sg.w)
        self.events()

    def peek(self, n):
        if n not in self.ports:
            raise Unsupported("no port " + n)
        sg = self.ports[n][1]
        v = self.state[sg.k]
        return list(v) if sg.dims else v

    def width(self, n):
        if n not in self.ports:
            raise Unsupported("no port " + n)
        return self.ports[n][1].w


class Unstable(Exception):
    pass
