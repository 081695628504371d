"""Generates C++ programs over the lazy array language for the D properties, I08 and I09.

Each program declares logical arrays with some storage orders, one domain, and assignments
built from random expression trees; every tree is emitted twice: as source in the language
under test and as a per-cell reference evaluation.  Index ranges, ghost widths, contents,
scalars and thread counts are drawn at run time (harness/span.hpp), so one program stands
for many cases.  The set of programs depends only on (family, seed, tier).
"""
import itertools, os, random

D = "IJK"
IDX = {"I": 0, "J": 1, "K": 2, "W": 3}
XYZ = {"I": "x", "J": "y", "K": "z"}


class Span:
    def __init__(self, name, T, order, w=0, ghost=False, positive=False, const=False, temp=False, cvar=False, strided=False, exact=False):
        self.name, self.T, self.order, self.w = name, T, order, w
        self.ghost, self.positive, self.const, self.temp, self.cvar = ghost, positive, const, temp, cvar
        self.strided, self.exact = strided, exact
        self.mlo, self.mhi = [0, 0, 0, 0], [0, 0, 0, 0]
        self.src = None  # run-time variable form instead of a declaration

    def need(self, d, lo, hi):
        i = IDX[d]
        self.mlo[i] = max(self.mlo[i], lo)
        self.mhi[i] = max(self.mhi[i], hi)

    def make(self, suffix="", order=None):
        n = self.name + suffix
        a = ["%s.%s()" % (n, "cp" if self.const else "p")]
        if self.ghost:
            a.append(n + ".g")
        a += ["%s.%s()" % (n, o.lower()) for o in (order or self.order)]
        return "make_md_span(%s)" % ", ".join(a)

    def decl_field(self):
        o = ", ".join(str(IDX[x]) for x in self.order)
        l = ["    Sp<%s> %s;" % (self.T, self.name), "    {", "        Opt o;"]
        for i in range(3):
            if self.mlo[i] or self.mhi[i]:
                l.append("        o.mlo[%d] = %d, o.mhi[%d] = %d;" % (i, self.mlo[i], i, self.mhi[i]))
        for k in ("ghost", "positive", "exact", "strided"):
            if getattr(self, k):
                l.append("        o.%s = true;" % k)
        if self.w:
            l.append("        o.w = %d;" % self.w)
        l += ["        e.span(%s, \"%s\", {%s}, o);" % (self.name, self.name, o), "    }"]
        return l


class G:
    """one program"""

    def __init__(self, rng, pid, dims=None, four=False):
        self.r = rng
        self.pid = pid
        if dims is None:
            dims = rng.choice([("I",), ("J", "I"), ("J", "I"), ("K", "J", "I"), ("K", "J", "I"), ("K", "J", "I"),
                               ("K", "I"), ("K", "J"), ("J",), ("K",)])
            if four and rng.random() < 0.2:
                dims += ("W",)  # as a direction like the others
        self.dims = list(dims)
        self.sdims = [d for d in dims if d != "W"]  # directions with shifts and gradients
        self.order = self.perm()
        self.spans, self.nums, self.lets = [], [], []
        self.nostep = set()
        self.line = None
        self.T = rng.choice(["double", "double", "float"])
        self.features = []
        self.n = 0

    def perm(self, w=False):
        o = list(self.dims)
        self.r.shuffle(o)
        return o + ["W"] if w else o

    def span(self, w=0, dest=False, positive=False, T=None, **kw):
        r = self.r
        T = T or (self.T if r.random() < 0.85 else ("float" if self.T == "double" else "double"))
        name = ("r" if dest else "st" if w else "p" if positive else "a") + str(self.n)
        self.n += 1
        const = (not dest) and r.random() < 0.5
        s = Span(name, T, self.perm(bool(w)), w=w, ghost=r.random() < 0.55, positive=positive, const=const,
                 temp=(not dest and not w and r.random() < 0.08), cvar=(not dest and not w and r.random() < 0.08),
                 strided=r.random() < 0.15)
        for k, v in kw.items():
            setattr(s, k, v)
        self.spans.append(s)
        return s

    def some_span(self, positive=False, plain=False):
        c = [s for s in self.spans if not s.w and s.src is None and not s.name.startswith("r") and s.positive == positive and not (s.cvar and not plain)]
        if c and self.r.random() < 0.45:
            return self.r.choice(c)
        s = self.span(positive=positive)
        if not plain:
            s.cvar = False
        return s

    def num(self, positive=False, kind=None):
        kind = kind or self.r.choice(["double", "double", "int", "float", "lit", "ilit", self.r.choice(["long", "short", "unsigned", "double", "int"])])
        if kind == "lit":
            return ("n", self.r.choice(["2.0", "0.5", "3.0", "1.25", "10.0"] + ([] if positive else ["-1.5", "-2.0"])))
        if kind == "ilit":
            return ("n", self.r.choice(["2", "3", "1", "4"] + ([] if positive else ["-1", "-3"])))
        v = "s%d" % len(self.nums)
        how = {"int": "inum", "short": "inum", "long": "lnum", "unsigned": "ipnum"}.get(kind, "num")
        self.nums.append((v, kind, {"inum": "ipnum", "lnum": "lpnum", "num": "pnum"}.get(how, how) if positive else how))
        return ("n", v)

    # ---- leaves
    def shift(self, positive=False):
        r = self.r
        s = self.some_span(positive)
        s.cvar = False
        ds = list(self.sdims)
        if len(ds) >= 2 and r.random() < 0.35:
            a, b = r.choice([p for p in (("I", "J"), ("I", "K"), ("J", "K")) if p[0] in ds and p[1] in ds])
            x = ["0", "0", "0"]
            how = "shift_%s%s" % (XYZ[a], XYZ[b])
            nargs = r.choice([0, 1, 2, 2, 2])
            args = []
            for q, d in enumerate((a, b)):
                v = self.shiftvar() if q < nargs else "1"
                if q < nargs:
                    args.append(v)
                x[IDX[d]] = v
                self.margin(s, d, v)
            self.features.append("corner shift")
            return ("sh", s, x, "%s(%s)" % (how, ", ".join(args)))
        d = r.choice(ds)
        x = ["0", "0", "0"]
        v = self.shiftvar() if r.random() < 0.85 else None
        x[IDX[d]] = v or "1"
        self.margin(s, d, v or "1")
        self.features.append("shift")
        return ("sh", s, x, "shift_%s(%s)" % (XYZ[d], v or ""))

    def shiftvar(self):
        if self.r.random() < 0.3:
            return self.r.choice(["1", "-1", "2", "-2", "0"])
        v = "n%d" % len(self.nums)
        self.nums.append((v, "shift", ""))
        return v

    def margin(self, s, d, v):
        try:
            k = int(v)
            s.need(d, max(0, -k), max(0, k))
        except ValueError:
            s.need(d, 5, 5)

    def grad(self):
        r = self.r
        s = self.some_span()
        s.cvar = False
        d = r.choice(self.sdims)
        self.nostep.add(d)
        how = r.choice(["", "", "up", "down", "down"])
        s.need(d, 1 if how == "down" else 0, 0 if how == "down" else 1)
        h = self.num(kind=r.choice(["double", "double", "float", "int"]))
        self.features.append("gradient")
        return ("g", s, d, how, h)

    def dot(self):
        st = self.span(w=self.r.choice([1, 2, 3, 5, 7, 9, 27, 40]), T=self.T)
        u = self.some_span()
        u.cvar = u.temp = False
        for d in self.dims:
            u.need(d, 2, 2)
        o = "o%d" % self.n
        self.n += 1
        self.tables = getattr(self, "tables", []) + [(o, st)]
        self.features.append("dot")
        return ("dot", st, u, o)

    # ---- expressions
    def pos(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.5:
            if r.random() < 0.25 and self.kinds & {"sh"}:
                return self.shift(positive=True)
            return ("s", self.some_span(positive=True, plain=True))
        op = r.choice("++**/")
        f = r.random()
        a = self.pos(depth - 1)
        if f < 0.4:
            return ("b", op, a, self.pos(depth - 1))
        if f < 0.7:
            return ("b", op, a, self.num(True))
        return ("b", op, self.num(True), a)

    def leaf(self):
        k = self.r.choice(sorted(self.kinds | {"s"}) + (["s"] if self.pid not in ("D04", "I08") else []))
        if k == "sh":
            return self.shift()
        if k == "g":
            return self.grad()
        if k == "dot":
            return self.dot()
        return ("s", self.some_span(plain=True))

    def vec(self, depth, ops="++--**//", force=None):
        r = self.r
        if depth <= 0:
            return self.leaf()
        op = force or r.choice(ops)
        f = r.random()
        if op == "/":
            if f < 0.35:
                return ("b", op, self.vec(depth - 1), self.num())
            if f < 0.5:
                return ("b", op, self.num(), self.pos(depth - 1))
            return ("b", op, self.vec(depth - 1 if f < 0.8 else 0), self.pos(depth - 1))
        if f < 0.25:
            return ("b", op, self.vec(depth - 1), self.num())
        if f < 0.5:
            return ("b", op, self.num(), self.vec(depth - 1))
        a, b = self.vec(depth - 1), self.vec(r.choice([0, depth - 1]))
        if r.random() < 0.5:
            a, b = b, a
        x = ("b", op, a, b)
        return x

    def let(self, x):
        if x[0] != "b":
            return x
        v = "t%d" % len(self.lets)
        self.lets.append((v, x))
        self.named(x)
        return ("let", v, x)

    def named(self, x):
        """spans of an expression kept in a variable have to outlive the statement"""
        for y in x:
            if isinstance(y, Span):
                y.temp = False
            elif isinstance(y, tuple):
                self.named(y)

    def bare(self, x):
        """assigning a const or temporary span of the destination's own type re-seats the view (see DESIGN.md)"""
        if x[0] == "s":
            x[1].temp = x[1].cvar = False
        return x

    def pair(self, depth, positive=False, force=None):
        """neighbour pairs and arithmetic on them; force = (operator, operand kinds)"""
        r = self.r
        if depth <= 0:
            s = self.some_span(positive)
            s.cvar = False
            d = r.choice(self.sdims)
            self.nostep.add(d)
            how = r.choice(["", "", "up", "down", "down"])
            s.need(d, 1 if how == "down" else 0, 0 if how == "down" else 1)
            self.features.append("neighbour pair")
            return ("pair", s, d, how)
        op, f = r.choice("+-**/"), r.random()
        if force:
            op, f = force[0], {"pn": 0.0, "np": 0.5, "pv": 0.8, "vp": 0.9}[force[1]]
        if f < 0.4:
            return ("b", op, self.pair(depth - 1), self.num())
        if op == "/":
            if f >= 0.8 and not (force and force[1] == "vp"):
                return ("b", op, self.pair(depth - 1), self.pos(0))
            return ("b", op, self.num() if f < 0.7 else self.vec(0), self.pair(0, positive=True))
        a = self.pair(depth - 1)
        if f < 0.7:
            return ("b", op, self.num(), a)
        v = self.vec(0)
        return ("b", op, a, v) if f < 0.85 else ("b", op, v, a)

    clean = ()  # entries of a positive stencil that are not assigned before: possible divisors

    def ppos(self):
        r = self.r
        p = ("p", r.choice(sorted(self.clean)))
        f = r.random()
        if f < 0.7:
            return p
        if f < 0.85:
            return ("b", "*", p, self.num(True)) if r.random() < 0.5 else ("b", r.choice("*+"), self.num(True), p)
        return ("b", r.choice("*+/"), p, ("p", r.choice(sorted(self.clean))))

    def proxy(self, depth, nvec, w, force=None):
        """expression of stencil entries; at most one operand chain carries arrays"""
        r = self.r
        if force:
            op, how = force
            if how == "u":
                return ("u", self.proxy(depth - 1, nvec, w))
            if op == "/" and how in ("np", "vp", "pp"):
                if not self.clean:
                    return self.proxy(depth, nvec, w)
                a = self.num() if how == "np" else self.vec(r.choice([0, 1])) if how == "vp" else self.proxy(depth - 1, nvec, w)
                return ("b", op, a, self.ppos())
            a = self.proxy(depth - 1, max(0, nvec - (how in ("pv", "vp"))), w)
            b = self.num() if "n" in how else self.proxy(0, 0, w) if how == "pp" else \
                self.pos(r.choice([0, 1])) if op == "/" else self.vec(r.choice([0, 1]))
            return ("b", op, a, b) if how[0] == "p" else ("b", op, b, a)
        if self.clean and depth > 0 and r.random() < 0.12:
            return self.proxy(depth, nvec, w, force=("/", r.choice(["np", "vp", "pp"])))
        if depth <= 0 and not nvec:
            return ("p", r.randrange(w))
        if nvec and (depth <= 0 or r.random() < 0.5):
            a = self.proxy(depth - 1, nvec - 1, w)
            op = r.choice("++--**/")
            if op == "/":
                return ("b", op, a, self.pos(r.choice([0, 0, 1])))
            v = self.vec(r.choice([0, 0, 1]))
            return ("b", op, a, v) if r.random() < 0.5 else ("b", op, v, a)
        f = r.random()
        op = r.choice("+-*")
        if f < 0.2:
            return ("u", self.proxy(depth - 1, nvec, w))
        a = self.proxy(depth - 1, nvec, w)
        if f < 0.45:
            op = r.choice("+-*/")
            return ("b", op, a, self.num())
        if f < 0.65:
            return ("b", op, self.num(), a)
        b = self.proxy(r.choice([0, depth - 1]), 0, w)
        return ("b", op, a, b) if r.random() < 0.5 else ("b", op, b, a)

    # ---- emission
    def dsl(self, x, sfx=""):
        k = x[0]
        if k == "n":
            return x[1] if not x[1].startswith("-") else "(%s)" % x[1]
        if k == "s":
            return self.sp(x[1], sfx)
        if k == "sh":
            return "%s.%s" % (self.sp(x[1], sfx), x[3])
        if k == "g":
            a = self.dsl(x[4]) + (", " + x[3] if x[3] else "")
            return "%s.grad_%s(%s)" % (self.sp(x[1], sfx), XYZ[x[2]], a)
        if k == "pair":
            return "%s.stencil_%s(%s)" % (self.sp(x[1], sfx), XYZ[x[2]], x[3])
        if k == "dot":
            return "%s.dot(%s.offset(thrust::device_ptr<int>(%s.data())))" % (self.sp(x[1], sfx), self.sp(x[2], sfx), x[3])
        if k == "fine":
            return "%s.fine(%s)" % (self.sp(x[1], sfx), ", ".join([x[2]] + x[3]))
        if k == "b":
            return "(%s %s %s)" % (self.dsl(x[2], sfx), x[1], self.dsl(x[3], sfx))
        if k == "let":
            return x[1] + sfx
        if k == "p":
            return "%s(%d)" % (self.win.name.upper() + sfx, x[1])
        if k == "u":
            return "(-%s)" % self.dsl(x[1], sfx)
        raise KeyError(k)

    def sp(self, s, sfx):
        return s.make(sfx, self.alt.get(s.name) if sfx else None) if s.temp else s.name.upper() + sfx

    alt = {}

    def mdl(self, x):
        k = x[0]
        if k == "n":
            return "MV(%s)" % x[1]
        if k == "s":
            return "%s.rd(x)" % x[1].name
        if k == "sh":
            return "%s.rd(at(x, %s))" % (x[1].name, ", ".join(x[2]))
        if k == "g":
            o = ["0", "0", "0"]
            o[IDX[x[2]]] = "-1" if x[3] == "down" else "1"
            u, h = "%s.rd(x)" % x[1].name, "%s.rd(at(x, %s))" % (x[1].name, ", ".join(o))
            if x[3] == "down":
                u, h = h, u
            return "((%s - %s) / MV((%s)%s))" % (h, u, x[1].T, x[4][1])
        if k == "dot":
            return "dot(x, %s, %s, %s)" % (x[1].name, x[2].name, x[3])
        if k == "fine":
            return "%s.rd(%s)" % (x[1].name, x[4])
        if k == "b":
            return "(%s %s %s)" % (self.mdl(x[2]), x[1], self.mdl(x[3]))
        if k == "let":
            return self.mdl(x[2])
        if k == "p":
            return "%s.rd(x, %d)" % (self.win.name, x[1])
        if k == "u":
            return "(-%s)" % self.mdl(x[1])
        raise KeyError(k)

    def mdl2(self, x, side):
        """value of a pair expression, side 0/1"""
        if x[0] == "pair":
            o = ["0", "0", "0"]
            if (x[3] == "down") != (side == 1):
                o[IDX[x[2]]] = "-1" if x[3] == "down" else "1"
            return "%s.rd(at(x, %s))" % (x[1].name, ", ".join(o))
        if x[0] == "b" and self.has_pair(x):
            return "(%s %s %s)" % (self.mdl2(x[2], side), x[1], self.mdl2(x[3], side))
        return self.mdl(x)

    def has_pair(self, x):
        return x[0] == "pair" or (x[0] == "b" and (self.has_pair(x[2]) or self.has_pair(x[3])))

    def dom(self, order=None):
        return ", ".join("e.d.%s()" % o.lower() for o in (order or self.order))

    def emit(self, idx, stmts, model, steps=True, extra_setup=(), twin=None, lhs=False, post=(), trim=None):
        """stmts: list of full C++ statements (given suffix), model: list of C++ statement lines"""
        text = " ; ".join(s("") for s in stmts).replace("e.d.", "").replace('"', "'")
        text += " {" + ", ".join("%s:%s%s" % (s.name, "".join(s.order).lower(), " float" if s.T == "float" else "") for s in self.spans) + "}"
        mask = sum(1 << IDX[d] for d in self.dims if d not in self.nostep) if steps else 0
        l = ["static void prog%d(Ctx& c)" % idx, "{"]
        l.append("    Env e(c, \"%s\", {%s}, %d%s);" % (text, ", ".join(str(IDX[d]) for d in self.dims), mask,
                                                       ", %d" % IDX[self.line] if self.line else ""))
        if any(s.T == "float" for s in self.spans):
            l.append("    e.floats = true;")
        for v, kind, how in self.nums:
            if kind == "shift":
                l.append("    const int %s = e.shift(-5, 5);" % v)
            else:
                l.append("    const %s %s = (%s)e.%s();" % (kind, v, kind, how))
        for s in self.spans:
            l += ["    " + x for x in s.src] if s.src else s.decl_field()
        for o, st in getattr(self, "tables", []):
            l.append("    std::vector<int> %s = table(e, %d, %d);" % (o, st.w, len(self.dims)))
        if getattr(self, "tables", []):
            comp = [d for d in "IJK" if d in self.dims]
            l.append("    auto dot = [&](const int* x, auto& st, auto& u, const std::vector<int>& o) {")
            l.append("        MV r(0);")
            l.append("        for (int q = 0; q < st.wn; q++) {")
            l.append("            int y[4] = {x[0], x[1], x[2], 0};")
            for q, d in enumerate(comp):
                l.append("            y[%d] += o[q * %d + %d];" % (IDX[d], len(comp), q))
            l.append("            r = r + st.rd(x, q) * u.rd(y);")
            l += ["        }", "        return r;", "    };"]
        for f in sorted(set(self.features)):
            l.append("    c.label(\"%s\");" % f)
        l += ["    " + x for x in extra_setup]
        if steps if trim is None else trim:
            l.append("    e.trim();")
        l += ["    " + x for x in model]
        l.append("    e.ready();")
        if twin is not None:
            for s in self.spans:
                l.append("    Sp<%s> %s_;" % (s.T, s.name))
                l.append("    mirror(%s_, %s, {%s});" % (s.name, s.name, ", ".join(str(IDX[o]) for o in twin[s.name])))
        for sfx in ("",) if twin is None else ("", "_"):
            l.append("    {")
            for s in self.spans:
                if not s.temp:
                    l.append("        %sauto %s = %s;" % ("const " if s.cvar else "", s.name.upper() + sfx,
                                                          s.make(sfx, twin[s.name] if sfx else None)))
            self.alt = twin or {}
            for v, x in self.lets:
                l.append("        auto %s = %s;" % (v + sfx, self.dsl(x, sfx)))
            for s in stmts:
                l.append("        %s;" % s(sfx))
            l += ["        " + x for x in post]
            l.append("    }")
        l.append("    e.check();")
        if twin is not None:
            for s in self.spans:
                l.append("    same(%s_, %s);" % (s.name, s.name))
        l += ["}", "static AddProgram reg%d(%d, \"%s\", prog%d);" % (idx, idx, text, idx), ""]
        return "\n".join(l)

    # ---- families
    def earlier(self, dests, now):
        """an array written by an earlier assignment; displaced unless it is the one written now"""
        e = self.r.choice(dests)
        if e is now or not self.sdims or self.r.random() < 0.4:
            return ("s", e)
        d = self.r.choice(self.sdims)
        v = self.shiftvar()
        x = ["0", "0", "0"]
        x[IDX[d]] = v
        self.margin(e, d, v)
        self.features.append("earlier result displaced")
        return ("sh", e, x, "shift_%s(%s)" % (XYZ[d], v))

    def assigns(self, n, maxdepth, first_op=None, tempok=True, plain=False):
        """n assignments to spans; later ones may read earlier destinations; plain: only a number"""
        r = self.r
        lazies, model = [], []
        dests = []
        for q in range(n):
            f = r.random()
            force = first_op if q == 0 else None
            d = r.choice(dests) if dests and r.random() < 0.2 else None
            if plain or force is None and f < 0.12:
                x = self.num()
            elif force is None and f < 0.25:
                x = self.leaf()
            else:
                x = self.vec(r.randint(1, maxdepth), force=force)
                if dests and r.random() < 0.6:  # use an earlier result, also displaced
                    y = self.earlier(dests, d)
                    x = ("b", r.choice("+-*"), x, y) if r.random() < 0.5 else ("b", r.choice("+-*"), y, x)
            if d is None:
                d = self.span(dest=True)
            if not plain and r.random() < 0.2:
                x = ("b", r.choice("+-*"), ("s", d), x) if x[0] != "n" or r.random() < 0.5 else ("b", r.choice("+-*"), x, ("s", d))
            if not plain and r.random() < 0.12:
                x = self.let(x)
            if d not in dests:
                dests.append(d)
            lazies.append((d, self.bare(x)))
            model.append("e.d.each([&](const int* x) { %s.wr(x, %s); });" % (d.name, self.mdl(x)))
        return lazies, model


def stmt_assign(g, lazies, order=None, order2=None):
    def f(sfx):
        o = g.order if not sfx else (order2 or g.order)
        return "with_domain(%s)(%s)" % (g.dom(o), ", ".join("%s = %s" % (g.sp(d, sfx), strip(g.dsl(x, sfx))) for d, x in lazies))
    return f


def strip(s):
    """drop one pair of redundant outer parentheses"""
    if s.startswith("(") and s.endswith(")"):
        d = 0
        for i, ch in enumerate(s):
            d += (ch == "(") - (ch == ")")
            if d == 0 and i < len(s) - 1:
                return s
        return s[1:-1]
    return s


def fam_D01(r, idx):
    g = G(r, "D01", four=True)
    g.kinds = set() if r.random() < 0.7 else {"sh"}
    ops = "+-*/"
    lz, m = g.assigns(r.choice([1, 1, 2, 3]), 4, first_op=ops[idx % 4])
    return g.emit(idx, [stmt_assign(g, lz)], m)


DECK = [("I",), ("K", "J", "I"), ("J",), ("J", "I"), ("K",), ("K", "I"), ("I", "W"), ("K", "J"), ("K", "J", "I", "W"), ("J", "I", "W")]


def fam_D02(r, idx):
    k, j = idx % 4, idx // 4
    # each set of directions in turn gets a number, then an array or short expression
    g = G(r, "D02", dims=DECK[j // 2 % len(DECK)] if k == 0 else None, four=k == 1)
    if k == 0:
        g.kinds = set()
        lz, m = g.assigns(1, 1, plain=j % 2 == 0)
        return g.emit(idx, [stmt_assign(g, lz)], m)
    if k == 1:
        g.kinds = {"sh", "g"}
        lz, m = g.assigns(r.choice([1, 2]), 2)
        return g.emit(idx, [stmt_assign(g, lz)], m)
    if k == 2:
        return coeff(g, idx, simple=True)
    return rhs(g, idx)


def fam_D04(r, idx):
    k = idx % 4
    g = G(r, "D04", four=k < 3)
    if k == 3:
        return coeff(g, idx, pairs=True, turn=idx // 4)
    g.kinds = ({"sh"}, {"g"}, {"sh", "g"})[k]
    lz, m = g.assigns(r.choice([1, 1, 2]), 2)
    return g.emit(idx, [stmt_assign(g, lz)], m)


def fam_D03(r, idx):
    k = idx % 4
    g = G(r, "D03", r.choice([("J", "I"), ("K", "J", "I"), ("K", "J", "I"), ("K", "I"), ("K", "J")] + ([("K", "J", "I", "W"), ("J", "W", "I")] if k < 2 else [])))
    twin_order = None
    if k <= 1:
        g.kinds = {"sh", "g"}
        lz, m = g.assigns(r.choice([1, 2]), 2)
        o2 = g.perm()
        st = [stmt_assign(g, lz, None, o2)]
    elif k == 2:
        st, m, o2 = coeff_parts(g, pairs=r.random() < 0.6)
    else:
        st, m, o2 = rhs_parts(g)
    twin = {s.name: g.perm(bool(s.w)) for s in g.spans}
    return g.emit(idx, st, m, twin=twin)


PAIR_FORMS = [(op, how) for op in "-/+*" for how in ("pn", "np", "pv", "vp")]
PROXY_FORMS = [(op, how) for op in "-*+" for how in ("pn", "np", "pv", "vp", "pp", "u")] + [("/", q) for q in ("pn", "pv", "np", "vp", "pp")]


def coeff_parts(g, simple=False, pairs=False, turn=0):
    r = g.r
    keep = set()  # entries of the first statement are not overwritten
    g.kinds = set() if simple else {"sh"} if r.random() < 0.5 else {"sh", "g"}
    if r.random() < 0.4:
        g.kinds = set()
    w = r.choice([2, 3, 4, 5, 7]) if not pairs else r.choice([2, 3, 5, 7])
    st = g.span(w=w, positive=r.random() < 0.4)
    st.const = st.temp = st.cvar = False
    g.win = st
    g.clean = set(range(w)) if st.positive else set()
    parts, model = [], []
    n = r.choice([1, 2, 2, 3, 4])
    allnum = r.random() < 0.2 and not pairs
    for q in range(n):
        f = r.random()
        free = [z for z in range(w) if z not in keep]
        if q and len(free) < 2:
            break
        i = r.choice(free)
        if q == 0 and pairs:
            f = 0.2
        pf = PROXY_FORMS[turn % len(PROXY_FORMS)] if q == 0 and turn and not pairs and not allnum else None
        if pf:
            f = 0.9
        if allnum or (f < 0.12 and not pairs):
            x = g.num()
            if allnum and r.random() < 0.6:  # a number for a pair only combines with other numbers
                j = r.choice([z for z in free if z != i])
                parts.append(("2", i, j, x))
                model += ["    %s.wr(x, %d, %s);" % (st.name, i, g.mdl(x)), "    %s.wr(x, %d, %s);" % (st.name, j, g.mdl(x))]
            else:
                parts.append(("1", i, 0, x))
                model.append("    %s.wr(x, %d, %s);" % (st.name, i, g.mdl(x)))
        elif (pairs and (q == 0 or f < 0.5)) or (not simple and f < 0.25):
            j = r.choice([z for z in free if z != i])
            if q == 0 and turn % 4 != 3:
                x = g.pair(r.choice([1, 1, 2]), force=PAIR_FORMS[(turn // 4 * 3 + turn % 4) % 16])
            else:
                x = g.pair(r.choice([0, 0, 1, 2]))
            if q == 0:
                keep |= {i, j}
            parts.append(("2", i, j, x))
            model.append("    { MV a = %s, b = %s; %s.wr(x, %d, a); %s.wr(x, %d, b); }" % (g.mdl2(x, 0), g.mdl2(x, 1), st.name, i, st.name, j))
        elif f < 0.45:
            x = g.vec(r.choice([0, 1, 2]))
            if r.random() < 0.15:
                x = g.let(x)
            parts.append(("1", i, 0, x))
            model.append("    %s.wr(x, %d, %s);" % (st.name, i, g.mdl(x)))
        else:
            nv = 0 if simple and r.random() < 0.3 else r.choice([0, 1, 1, 2, 2, 3])
            x = g.proxy(r.choice([1, 2, 3]), nv, w, force=pf)
            if pf:
                keep.add(i)
            parts.append(("1", i, 0, x))
            model.append("    %s.wr(x, %d, %s);" % (st.name, i, g.mdl(x)))
        if g.clean:
            g.clean -= {parts[-1][1]} | ({parts[-1][2]} if parts[-1][0] == "2" else set())
    o2 = g.perm()

    def f(sfx):
        o = g.order if not sfx else o2
        S = st.name.upper() + sfx
        return "with_domain(%s.window(), %s)(%s)" % (S, g.dom(o), ", ".join(
            ("%s(%d, %d) = %s" % (S, i, j, strip(g.dsl(x, sfx)))) if k == "2" else ("%s(%d) = %s" % (S, i, strip(g.dsl(x, sfx))))
            for k, i, j, x in parts))
    return [f], ["e.d.each([&](const int* x) {"] + model + ["});"], o2


def coeff(g, idx, **kw):
    st, m, _ = coeff_parts(g, **kw)
    return g.emit(idx, st, m)


def fam_D05(r, idx):
    if idx % 4 == 3:
        return coeff(G(r, "D05"), idx, pairs=True, turn=1 + idx // 4)
    return coeff(G(r, "D05"), idx, turn=(idx // 4 * 3 + idx % 4) if idx % 8 else 0)


def rhs_parts(g, turn=0):
    r = g.r
    g.kinds = r.choice([set(), set(), {"sh"}, {"sh", "g"}])
    w = r.choice([1, 2, 3, 5, 7])
    st = g.span(w=w, positive=r.random() < 0.5)
    st.temp = st.cvar = False
    g.win = st
    g.clean = set(range(w)) if st.positive else set()
    dests = [g.span(dest=True)]
    parts, model = [], []
    for q in range(r.choice([1, 1, 2, 3])):
        d = dests[0]
        if q and r.random() < 0.5:
            d = r.choice(dests + [None])
            if d is None:
                d = g.span(dest=True)
                dests.append(d)
        pf = PROXY_FORMS[turn % len(PROXY_FORMS)] if q == 0 and turn else None
        x = g.proxy(r.choice([0, 1, 2]), r.choice([0, 1, 1, 1, 2]), w, force=pf)
        if r.random() < 0.12:  # the array that is updated, as it is at this cell, inside its own update
            x = ("b", "*", x, ("s", d)) if r.random() < 0.5 else ("b", r.choice("+-*"), ("s", d), x)
        parts.append((d, x))
        model.append("    %s.wr(x, %s.rd(x) - %s);" % (d.name, d.name, g.mdl(x)))
    o2 = g.perm()

    def f(sfx):
        o = g.order if not sfx else o2
        return "with_domain(%s.window(), %s)(%s)" % (st.name.upper() + sfx, g.dom(o), ", ".join(
            "%s -= %s" % (d.name.upper() + sfx, strip(g.dsl(x, sfx))) for d, x in parts))
    return [f], ["e.d.each([&](const int* x) {"] + model + ["});"], o2


def rhs(g, idx, turn=0):
    st, m, _ = rhs_parts(g, turn)
    return g.emit(idx, st, m)


def fam_D06(r, idx):
    return rhs(G(r, "D06"), idx, turn=idx if idx % 4 else 0)


def fam_I08(r, idx):
    g = G(r, "I08")
    g.kinds = {"dot"}
    f = r.random()
    x = g.dot()
    if f > 0.4:
        g.kinds = {"s", "dot"} if f > 0.85 else {"s"}
        y = ("b", r.choice("+-*"), g.vec(r.choice([0, 1])), ("b", "*", g.num(), x)) if r.random() < 0.5 else \
            ("b", r.choice("+-*/"), x, g.num())
        x = y
    d = g.span(dest=True)
    m = ["e.d.each([&](const int* x) { %s.wr(x, %s); });" % (d.name, g.mdl(x))]
    return g.emit(idx, [stmt_assign(g, [(d, x)])], m)


def fam_D07(r, idx):
    g = G(r, "D07", four=True)
    line = g.dims[idx % len(g.dims)] if len(g.dims) > 1 else g.dims[0]
    g.line = line
    g.kinds = set()
    # coarse array: placed by its own index range
    c = g.span()
    c.temp = c.cvar = False
    others = [d for d in g.dims if d != line]
    r.shuffle(others)
    pre = ["const int ratio = c.s.pick({2, 4, 3, 1, 8, 5, 6, 16, 7, 32});", "int cx[4], clo[4] = {0, 0, 0, 0}, chi[4] = {0, 0, 0, 0};",
           "for (int q = 0; q < 4; q++) cx[q] = e.d.has[q] ? (int)c.s.around(-6, 6, 0) : 0, clo[q] = cx[q] - (e.d.has[q] ? (int)c.s.draw(3) : 0), chi[q] = cx[q] + (e.d.has[q] ? (int)c.s.draw(3) : 0);",
           "clo[%d] = fdiv(e.d.lo[%d], ratio), chi[%d] = fdiv(e.d.hi[%d], ratio);" % ((IDX[line],) * 4),
           "c.note(\" ratio \", ratio, \" coarse corner \", cx[0], \",\", cx[1], \",\", cx[2]);",
           "if (e.d.lo[%d] < 0) c.label(\"negative fine indices\");" % IDX[line]]
    c.src = pre + ["Sp<%s> %s;" % (c.T, c.name), "{", "    Opt o;"] + (["    o.ghost = true;"] if c.ghost else []) + \
        ["    e.place(%s, \"%s\", {%s}, o, clo, chi);" % (c.name, c.name, ", ".join(str(IDX[x]) for x in c.order)), "}"]
    p = ["cx[0]", "cx[1]", "cx[2]", "cx[3]"]
    p[IDX[line]] = "fdiv(x[%d], ratio)" % IDX[line]
    fx = ("fine", c, "ratio", ["%sb{cx[%d], cx[%d]}" % (o, IDX[o], IDX[o]) for o in others], "P3{{%s}}" % ", ".join(p))
    f = r.random()
    if f < 0.5:
        x = fx
    else:
        x = ("b", r.choice("+-*"), g.vec(r.choice([0, 0, 1])), fx)
        if r.random() < 0.5:
            x = ("b", r.choice("+-*"), x, g.num()) if r.random() < 0.5 else ("b", r.choice("+-*"), g.num(), x)
    d = g.span(dest=True)
    m = ["e.d.each([&](const int* x) { %s.wr(x, %s); });" % (d.name, g.mdl(x))]
    g.features.append("free direction " + line.lower())
    return g.emit(idx, [stmt_assign(g, [(d, x)])], m)


def fam_D08(r, idx):
    g = G(r, "D08", ("K", "J", "I", "W") if idx % 8 == 0 or idx % 15 == 2 else None, four=True)
    k = idx % 3
    if k < 2:
        g.kinds = set() if r.random() < 0.5 else {"sh", "g"}
        d = g.span(dest=True, exact=True)
        f = r.random()
        x = g.bare(g.num() if f < 0.2 else g.leaf() if f < 0.4 else g.vec(r.choice([1, 2])))
        m = ["e.d.each([&](const int* x) { %s.wr(x, %s); });" % (d.name, g.mdl(x))]
        if k == 0:
            s = lambda sfx: "with_domain()(%s = %s)" % (d.name.upper(), strip(g.dsl(x)))
        else:
            s = lambda sfx: "with_lhs_domain(%s = %s)" % (d.name.upper(), strip(g.dsl(x)))
        return g.emit(idx, [s], m, steps=False)
    # element access
    g.kinds = set()
    d = g.span(dest=True, exact=r.random() < 0.3)
    a = g.span()
    a.temp = a.cvar = False
    win = r.random() < 0.3
    setup = ["std::vector<std::array<int, 8>> ac;",
             "for (int q = 0, n = (int)c.s.range(1, 8); q < n; q++) {",
             "    std::array<int, 8> y;",
             "    for (int z = 0; z < 4; z++) y[z] = (int)c.s.range(%s.f.lo[z], %s.f.hi[z]), y[4 + z] = (int)c.s.range(%s.f.lo[z], %s.f.hi[z]);" % (d.name, d.name, a.name, a.name),
             "    ac.push_back(y);", "}", "if (ac.size() >= 2) c.nontrivial = true;"]
    m = ["for (auto& y : ac) %s.wr(y.data(), %s.rd(y.data() + 4));" % (d.name, a.name)]

    def acc(s, off):
        return "%s.at(%s)" % (s.name.upper(), ", ".join("y[%d]" % (off + IDX[o]) for o in s.order))
    st = lambda sfx: "for (auto& y : ac) %s = %s" % (acc(d, 0), acc(a, 4))
    return g.emit(idx, [st], m, steps=False, extra_setup=setup)


def fam_I09(r, idx):
    g = G(r, "I09")
    g.kinds = set()
    w = r.choice([1, 2, 3, 4, 5, 7])
    st = g.span(w=w)
    st.temp = st.cvar = st.const = False
    g.win = st
    post = []
    setup = ["const int how = (int)c.s.draw(4), mul = (int)c.s.range(1, 4);", "std::vector<bool> touch(%d);" % w,
             "for (int q = 0; q < %d; q++) touch[q] = c.s.flip();" % w]
    loops = ""
    for o in g.order:
        i = IDX[o]
        loops += "for (x[%d] = e.d.lo[%d]; x[%d] <= e.d.hi[%d]; x[%d] += e.d.st[%d]) " % (i, i, i, i, i, i)
    model = ["std::vector<P3> cells;", "{ int x[4] = {0, 0, 0, 0}; %s cells.push_back({{x[0], x[1], x[2], 0}}); }" % loops,
             "for (auto& x : cells) for (int q = 0; q < %d; q++) { MV v = %s.rd(x, q); if (touch[q] && how < 3) %s.wr(x, q, v * MV(mul)); }" % (w, st.name, st.name)]
    S = st.name.upper()
    stm = lambda sfx: "windows(%s.window()(%s), %s, cells, touch, how, mul, %d)" % (S, g.dom(), st.name, w)
    return g.emit(idx, [stm], model, extra_setup=setup, trim=False)


def fam_K11s(r, idx):
    return (fam_I08, fam_D05, fam_D01, fam_I08, fam_D06, fam_D04, fam_I08, fam_D02, fam_D05, fam_D07)[idx % 10](r, idx)


HEAD = '''// generated by span_gen.py
#include "span.hpp"
#include <array>
using namespace sp;
namespace
{
std::vector<int> table(Env& e, int rows, int dims)
{
    std::vector<int> o;
    for (int q = 0; q < rows * dims; q++) o.push_back((int)e.c.s.around(-2, 2, 0));
    return o;
}
struct Touch {
    std::vector<bool>* t;
    int mul, w;
    template <class P>
    void operator()(P&& p) const
    {
        for (int q = 0; q < w; q++)
            if ((*t)[q]) p[q] = p[q] * mul;
    }
};
template <class It, class S>
void windows(It it, S& st, const std::vector<P3>& cells, std::vector<bool>& touch, int how, int mul, int w)
{
    long n = (long)cells.size();
    if (it.size() != n) fail("window over ", n, " cells has size ", it.size());
    for (int pass = 0; pass < 2; pass++) {
        It a = it;
        for (long k = 0; k < n; k++) {
            auto p = pass ? it[k] : *a;
            for (int q = 0; q < w; q++) {
                double got = (double)p[q], want = (double)st.f.get(cells[k], q);
                if (got != want) fail("window: cell ", k, " coefficient ", q, " reads ", got, ", expected ", want);
            }
            ++a;
        }
    }
    Touch t{&touch, mul, w};
    if (how == 0)
        thrust::for_each_n(it, n, t);
    else if (how == 1)
        for (long k = 0; k < n; k++, ++it) t(*it);
    else if (how == 2)
        for (long k = n; k-- > 0;) t(it[k]);
}
} // namespace
'''

MAIN = '''// generated by span_gen.py
#include "span.hpp"
namespace sp
{
std::vector<std::pair<int, Program>>& programs()
{
    static std::vector<std::pair<int, Program>> p;
    return p;
}
} // namespace sp
using namespace pbt;
PROP(%s) { sp::run_any(c); }
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
'''
# the same programs with one thread and with several: whole memory has to agree bit for bit
MAIN_K11S = MAIN.replace("PROP(%s) { sp::run_any(c); }", """
PROP(%s)
{
    const size_t from = c.s.rec.size();
    sp::forced().threads = 1;
    sp::forced().bytes.clear();
    sp::run_any(c);
    const std::vector<uint64_t> ch(c.s.rec.begin() + from, c.s.rec.end());
    const std::vector<unsigned char> one = sp::forced().bytes;
    const int n = (int)c.s.range(2, 5);
    for (int q = 0; q < n; q++) {
        const int t = q == 0 ? 2 : (int)c.s.range(2, 16);
        Src s2 = Src::replay(ch);
        Ctx c2(s2);
        sp::forced().threads = t;
        sp::forced().bytes.clear();
        sp::run_any(c2);
        const auto& two = sp::forced().bytes;
        if (two.size() != one.size()) fail("memory of ", two.size(), " bytes with ", t, " threads, ", one.size(), " with one");
        for (size_t b = 0; b < one.size(); b++)
            if (one[b] != two[b]) fail("result with ", t, " threads differs from the result with one thread, byte ", b);
    }
}
""")


HAND = {}
# listed in known_findings.txt: a const or temporary span of the destination's type on the right of '=' re-seats the destination view
HAND["D01"] = """
static void prog@(Ctx& c)
{
    Env e(c, "with_domain(k(), j(), i())(R = A) where A is a const variable or temporary of R's own type |", {2, 1, 0}, 0);
    Sp<double> a, r;
    Opt o;
    e.span(a, "a", {2, 1, 0}, o);
    e.span(r, "r", {2, 1, 0}, o);
    const bool temp = c.s.flip();
    c.note(temp ? " temporary" : " const variable");
    e.d.each([&](const int* x) { r.wr(x, a.rd(x)); });
    e.ready();
    std::vector<double> before(r.f.n);
    for (long i = 0; i < r.f.n; i++) before[i] = r.f.base[Field<double>::G + i];
    auto R = make_md_span(r.p(), r.k(), r.j(), r.i());
    const auto A = make_md_span(a.p(), a.k(), a.j(), a.i());
    if (temp)
        with_domain(e.d.k(), e.d.j(), e.d.i())(R = make_md_span(a.p(), a.k(), a.j(), a.i()));
    else
        with_domain(e.d.k(), e.d.j(), e.d.i())(R = A);
    bool same = true;
    same = std::memcmp(before.data(), r.f.base + Field<double>::G, sizeof(double) * r.f.n) == 0;
    if (same) {
        c.label("known:reseat");
        return;
    }
    e.check();
}
static AddProgram reg@(@, "reseat", prog@);
"""
# listed in known_findings.txt: gradients and pairs take the neighbour one step, not one cell, away
HAND["D04"] = """
template <class T, class Bd>
static void stepped_gradient(Ctx& c)
{
    Src& s = c.s;
    const int st = (int)s.range(2, 4), n = (int)s.range(1, 12), lo = (int)s.around(-20, 20, 0), extra = st - 1;
    const bool dn = s.flip();
    const int hi = lo + (n - 1) * st + extra;
    const T h = (T)0.5;
    c.note("r = a.grad over [", lo, ",", hi, "]/", st, dn ? " down" : " up");
    std::vector<T> a(hi - lo + 1 + 3 * st + 40), r(a.size(), (T)-1);
    const int base = lo - st - 10;
    for (size_t i = 0; i < a.size(); i++) a[i] = (T)(int)(s.draw(2000)) - 1000;
    auto A = make_md_span(a.data(), Bd{base, base + (int)a.size() - 1});
    auto R = make_md_span(r.data(), Bd{base, base + (int)a.size() - 1});
    Bd d{lo, hi, st};
    if constexpr (std::is_same_v<Bd, Ib>) {
        if (dn) with_domain(d)(R = A.grad_x(h, down)); else with_domain(d)(R = A.grad_x(h));
    } else if constexpr (std::is_same_v<Bd, Jb>) {
        if (dn) with_domain(d)(R = A.grad_y(h, down)); else with_domain(d)(R = A.grad_y(h));
    } else {
        if (dn) with_domain(d)(R = A.grad_z(h, down)); else with_domain(d)(R = A.grad_z(h));
    }
    bool right = true, wide = true;
    for (int i = 0; i < (int)a.size(); i++) {
        const int x = base + i;
        T w = -1, k = -1;
        if (x >= lo && x <= hi && (x - lo) % st == 0) {
            const int q = dn ? i - 1 : i;
            w = (a[q + 1] - a[q]) / h;
            k = (a[q + st] - a[q]) / h;
        }
        right &= r[i] == w;
        wide &= r[i] == k;
    }
    if (right) return;
    if (wide) {
        c.label("known:stepped-gradient");
        return;
    }
    fail("gradient over a stepped range of ", n, " cells, step ", st, ", is wrong");
}
static void prog@(Ctx& c)
{
    switch (c.s.draw(6)) {
    case 0: return stepped_gradient<double, Ib>(c);
    case 1: return stepped_gradient<double, Jb>(c);
    case 2: return stepped_gradient<double, Kb>(c);
    case 3: return stepped_gradient<float, Ib>(c);
    case 4: return stepped_gradient<float, Jb>(c);
    default: return stepped_gradient<float, Kb>(c);
    }
}
static AddProgram reg@(@, "stepped gradient", prog@);
"""
# tables of offsets: element access relative to the span's own ranges
HAND["D08"] = """
template <class T>
static void offset_span(Ctx& c)
{
    c.label("offset span");
    const int n = (int)c.s.range(1, 9), dims = (int)c.s.range(1, 3), hits = (int)c.s.range(1, 8);
    c.note("make_offset_span(", n, " rows, ", dims, " columns)", std::is_const_v<T> ? " const" : "");
    if (n * dims > 1) c.nontrivial = true;
    std::vector<int> t(n * dims + 2), w;
    for (auto& x : t) x = (int)c.s.range(-5, 5);
    w = t;
    auto S = make_offset_span((T*)(t.data() + 1), n, dims);
    auto [rb, cb] = S.dir_bounds();
    if (rb.size() != n || cb.size() != dims) fail("offset span of ", n, "x", dims, " has ranges of size ", rb.size(), ",", cb.size());
    for (int q = 0; q < hits; q++) {
        const int r = (int)c.s.draw(n), d = (int)c.s.draw(dims);
        int got = S.at(rb.lb() + r, cb.lb() + d);
        if (got != w[1 + r * dims + d]) fail("offset (", r, ",", d, ") reads ", got, ", expected ", w[1 + r * dims + d]);
        if constexpr (!std::is_const_v<T>) {
            const int v = (int)c.s.range(-9, 9);
            S.at(rb.lb() + r, cb.lb() + d) = v;
            w[1 + r * dims + d] = v;
        }
    }
    if (t != w) fail("writing through an offset span changed other entries");
}
static void prog@(Ctx& c)
{
    if (c.s.flip()) offset_span<const int>(c); else offset_span<int>(c);
}
static AddProgram reg@(@, "offset span", prog@);
"""


FAM = {n[4:]: f for n, f in list(globals().items()) if n.startswith("fam_")}
TUS = 8


def generate(pid, seed, tier, outdir, count=None):
    n = count or (96 if tier == "quick" else 480)
    srcs = [[] for _ in range(TUS if tier == "quick" else TUS * 4)]
    for i in range(n):
        # half of the programs are the same for every seed
        r = random.Random("%s-%d-%d" % (pid, i, 0 if i % 2 == 0 else seed))
        r.random()
        srcs[i % len(srcs)].append(FAM[pid](r, i))
    for q in range(max(1, n // 60) if pid in HAND else 0):
        srcs[q % len(srcs)].append(HAND[pid].replace("stepped_gradient", "stepped_gradient%d" % q).replace("offset_span", "offset_span%d" % q).replace("make_offset_span%d" % q, "make_offset_span").replace("@", str(n + q)))
    d = os.path.join(outdir, "span-%s-%d-%s" % (pid, seed, tier))
    os.makedirs(d, exist_ok=True)
    out = []

    def put(name, text):
        p = os.path.join(d, name)
        t = "%s.%d" % (p, os.getpid())
        with open(t, "w") as f:
            f.write(text)
        os.rename(t, p)
        out.append(p)
    put("main.cpp", (MAIN_K11S if pid == "K11s" else MAIN) % pid)
    for k, s in enumerate(srcs):
        if s:
            put("p%02d.cpp" % k, HEAD + "\n".join(s))
    return out


if __name__ == "__main__":
    import sys
    print("\n".join(generate(sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], int(sys.argv[5]) if len(sys.argv) > 5 else None)))
