"""Hash-consed scalar terms: the logic in which every obligation is stated.

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean).
Concrete values are Python Fraction / int / bool; everything else is a Term.
INF and NAN are distinguished leaves (IEEE specials, folded structurally).
"""
from __future__ import annotations

from fractions import Fraction

_table: dict = {}
_counter = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "name", "special")

    def __repr__(self):
        return show(self)

    # Convenience operators for writing specifications
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return mul(-1, self)
    def __pow__(self, n): return ipow(self, n)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __hash__(self): return self.id


def _mk(op, args, sort, name=None):
    key = (op, name, sort, tuple(a.id if isinstance(a, Term) else ("c", type(a), a) for a in args))
    t = _table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.sort, t.name = op, tuple(args), sort, name
        _counter[0] += 1
        t.id = _counter[0]
        if op in ("inf", "nan"):
            t.special = True
        elif op == "ite":
            t.special = any(isinstance(a, Term) and a.special for a in args[1:])
        else:
            t.special = False
        _table[key] = t
    return t


INF = _mk("inf", (), "R")
NAN = _mk("nan", (), "R")
NINF = _mk("inf", (), "R", name="neg")


def sym(name, sort="R"):
    return _mk("sym", (), sort, name)


_fresh = [0]


def fresh(prefix="v", sort="R"):
    _fresh[0] += 1
    return sym(f"{prefix}!{_fresh[0]}", sort)


def is_c(x):
    return not isinstance(x, Term)


def sort_of(x):
    if isinstance(x, Term):
        return x.sort
    if isinstance(x, bool):
        return "B"
    if isinstance(x, int):
        return "I"
    if isinstance(x, Fraction):
        return "R"
    raise TypeError(type(x))


def R(x):
    """to real"""
    if isinstance(x, Term):
        if x.sort == "R":
            return x
        if x.sort == "I":
            if x.op == "ite":
                return ite(x.args[0], R(x.args[1]), R(x.args[2]))
            return _mk("toreal", (x,), "R")
        return ite(x, Fraction(1), Fraction(0))
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return flt(x)
    raise TypeError(type(x))


_snap_cache: dict = {}


def flt(x: float):
    """A float literal, read as the real number it denotes: a rational with small
    denominator when it is the nearest double to one, else the exact dyadic."""
    import math
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    r = _snap_cache.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 4096:
            s = r.limit_denominator(100000)
            if float(s) == x:
                r = s
        _snap_cache[x] = r
    return r


def _is_special(x):
    return isinstance(x, Term) and x.special


def _lift(fn, args):
    """push fn through an ite that has an INF/NAN leaf"""
    for i, a in enumerate(args):
        if isinstance(a, Term) and a.op == "ite" and a.special:
            c, p, q = a.args
            return ite(c, fn(*args[:i], p, *args[i + 1:]), fn(*args[:i], q, *args[i + 1:]))
    return None


def _leafspecial(x):
    return isinstance(x, Term) and x.op in ("inf", "nan")


def _numsort(*xs):
    return "R" if any(sort_of(x) == "R" for x in xs) else "I"


def add(*xs):
    if any(_is_special(x) for x in xs):
        l = _lift(add, xs)
        if l is not None:
            return l
        if any(x is NAN for x in xs):
            return NAN
        pos = any(x is INF for x in xs)
        neg = any(x is NINF for x in xs)
        return NAN if pos and neg else (INF if pos else NINF)
    s = _numsort(*xs)
    c = Fraction(0) if s == "R" else 0
    out = []
    for x in xs:
        if s == "R":
            x = R(x)
        if is_c(x):
            c = c + x
        elif x.op == "add":
            for a in x.args:
                if is_c(a):
                    c = c + a
                else:
                    out.append(a)
        else:
            out.append(x)
    # cancel x + (-1)*x cheaply
    if len(out) > 1:
        coef = {}
        base = {}
        order = []
        for o in out:
            k, b = 1, o
            if o.op == "mul" and is_c(o.args[0]):
                k = o.args[0]
                rest = o.args[1:]
                b = rest[0] if len(rest) == 1 else _mk("mul", rest, o.sort)
            if b.id not in coef:
                coef[b.id] = 0
                base[b.id] = b
                order.append(b.id)
            coef[b.id] = coef[b.id] + k
        out = [mul(coef[i], base[i]) for i in order if coef[i] != 0]
        out2 = []
        for o in out:
            if isinstance(o, Term) and o.op == "add":
                out2.extend(o.args)
            else:
                out2.append(o)
        out = out2
    if not out:
        return c
    if c != 0:
        out.append(c)
    if len(out) == 1:
        return out[0]
    return _mk("add", out, s)


def neg(x):
    return mul(-1, x)


def sub(a, b):
    return add(a, mul(-1, b))


def mul(*xs):
    if any(_is_special(x) for x in xs):
        l = _lift(mul, xs)
        if l is not None:
            return l
        if any(x is NAN for x in xs):
            return NAN
        sgn = 1
        unknown = []
        for x in xs:
            if x is INF:
                continue
            if x is NINF:
                sgn = -sgn
            elif is_c(x):
                if x == 0:
                    return NAN
                if x < 0:
                    sgn = -sgn
            else:
                unknown.append(x)
        if unknown:
            u = mul(*unknown)
            return ite(lt(0, mul(sgn, u)), INF, ite(lt(mul(sgn, u), 0), NINF, NAN))
        return INF if sgn > 0 else NINF
    s = _numsort(*xs)
    c = Fraction(1) if s == "R" else 1
    out = []
    for x in xs:
        if s == "R":
            x = R(x)
        if is_c(x):
            c = c * x
        elif x.op == "mul":
            for a in x.args:
                if is_c(a):
                    c = c * a
                else:
                    out.append(a)
        else:
            out.append(x)
    if c == 0:
        return Fraction(0) if s == "R" else 0
    if not out:
        return c
    if c != 1:
        if len(out) == 1 and out[0].op == "add":
            return add(*[mul(c, a) for a in out[0].args])
        if len(out) == 1 and out[0].op == "ite" and is_c(out[0].args[1]) and is_c(out[0].args[2]):
            o = out[0]
            return ite(o.args[0], c * o.args[1], c * o.args[2])
        out = [c] + out
    if len(out) == 1:
        return out[0]
    return _mk("mul", [out[0]] + sorted(out[1:], key=lambda t: t.id) if is_c(out[0])
               else sorted(out, key=lambda t: t.id), s)


def div(a, b):
    a, b = R(a), R(b)
    if _is_special(a) or _is_special(b):
        l = _lift(div, (a, b))
        if l is not None:
            return l
        if a is NAN or b is NAN:
            return NAN
        if _leafspecial(b):
            return NAN if _leafspecial(a) else Fraction(0)
        return ite(lt(0, b), a, NINF if a is INF else INF)
    if is_c(b):
        if b != 0:
            return mul(1 / b, a)
        # IEEE division by the constant zero
        if is_c(a):
            return NAN if a == 0 else (INF if a > 0 else NINF)
        return ite(lt(0, a), INF, ite(lt(a, 0), NINF, NAN))
    if is_c(a) and a == 0:
        return Fraction(0)
    if a is b:
        return Fraction(1)
    if is_c(a) and a != 1:
        return mul(a, _mk("div", (Fraction(1), b), "R"))
    if isinstance(b, Term) and b.op == "mul" and is_c(b.args[0]):
        rest = b.args[1:]
        rb = rest[0] if len(rest) == 1 else _mk("mul", rest, "R")
        return mul(1 / b.args[0], div(a, rb))
    return _mk("div", (a, b), "R")


def ipow(x, n):
    assert isinstance(n, int)
    if n == 0:
        return Fraction(1) if sort_of(x) == "R" else 1
    if n < 0:
        return div(Fraction(1), ipow(x, -n))
    if n == 1:
        return x
    if is_c(x):
        return x ** n
    return mul(*([x] * n))


def app(name, args, sort="R"):
    """uninterpreted function application"""
    args = tuple(args)
    if any(_is_special(a) for a in args):
        l = _lift(lambda *aa: app(name, aa, sort), args)
        if l is not None:
            return l
    return _mk("app", args, sort, name)


def ite(c, a, b):
    if is_c(c):
        return a if c else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is b:
        return a
    if is_c(a) and is_c(b) and type(a) is type(b) and a == b:
        return a
    sa, sb = sort_of(a), sort_of(b)
    if sa == "B" and sb == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if sa != sb:
        a, b = R(a), R(b)
    # ite(c, ite(c,x,y), z) -> ite(c,x,z)
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_c(a) and is_c(b) and a == b:
        return a
    return _mk("ite", (c, a, b), sort_of(a))


def not_(a):
    if is_c(a):
        return not a
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B")


def and_(*xs):
    out, seen = [], set()
    for x in xs:
        if is_c(x):
            if not x:
                return False
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if not_(y).id in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", sorted(out, key=lambda t: t.id), "B")


def or_(*xs):
    out, seen = [], set()
    for x in xs:
        if is_c(x):
            if x:
                return True
            continue
        for y in (x.args if x.op == "or" else (x,)):
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if not_(y).id in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", sorted(out, key=lambda t: t.id), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if is_c(a):
        return b if a else not_(b)
    if is_c(b):
        return a if b else not_(a)
    if a is b:
        return True
    return or_(and_(a, b), and_(not_(a), not_(b)))


def lt(a, b):
    if _is_special(a) or _is_special(b):
        l = _lift(lt, (a, b))
        if l is not None:
            return l
        if a is NAN or b is NAN:
            return False
        if a is b:
            return False
        if a is INF or b is NINF:
            return False
        return True
    if _numsort(a, b) == "R":
        a, b = R(a), R(b)
    if is_c(a) and is_c(b):
        return a < b
    if a is b:
        return False
    return _mk("lt", (a, b), "B")


def le(a, b):
    if _is_special(a) or _is_special(b):
        l = _lift(le, (a, b))
        if l is not None:
            return l
        if a is NAN or b is NAN:
            return False
        if a is b:
            return True
        return lt(a, b)
    return not_(lt(b, a))


def eq(a, b):
    if sort_of(a) == "B" and sort_of(b) == "B":
        return iff(a, b)
    if _is_special(a) or _is_special(b):
        l = _lift(eq, (a, b))
        if l is not None:
            return l
        if a is NAN or b is NAN:
            return False
        return a is b
    if _numsort(a, b) == "R":
        a, b = R(a), R(b)
    if is_c(a) and is_c(b):
        return a == b
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if is_c(x) and isinstance(y, Term) and y.op == "ite":
            c, p, q = y.args
            if is_c(p) or is_c(q):
                return or_(and_(c, eq(x, p)), and_(not_(c), eq(x, q)))
    if isinstance(a, Term) and isinstance(b, Term) and a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), "B")


def same(a, b):
    """eq, but NAN is the same as NAN (used for specifications)"""
    if _is_special(a) or _is_special(b):
        l = _lift(same, (a, b))
        if l is not None:
            return l
        return a is b
    return eq(a, b)


def ne(a, b):
    return not_(eq(a, b))


def maximum(a, b):
    if a is NAN or b is NAN:
        return NAN
    return ite(lt(a, b), b, a)


def minimum(a, b):
    if a is NAN or b is NAN:
        return NAN
    return ite(lt(b, a), b, a)


def idiv(a, b):
    """C-style (truncating) integer division as in lax.div; b constant > 0"""
    if is_c(a) and is_c(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    # z3 'div' is floor for positive divisor
    fl = _mk("idiv", (a, b), "I")
    return ite(le(0, a), fl, neg(_mk("idiv", (neg(a), b), "I")))


def irem(a, b):
    return sub(a, mul(b, idiv(a, b)))


def floor(x):
    x = R(x)
    if is_c(x):
        return Fraction(x.numerator // x.denominator)
    if _is_special(x):
        l = _lift(floor, (x,))
        return l if l is not None else x
    return R(_mk("floor", (x,), "I"))


def ceil(x):
    return neg(floor(neg(x)))


_UN = {}


def unary(name, x):
    """interpreted-by-axioms real functions: sqrt exp log ..."""
    x = R(x)
    if name == "sqrt":
        if is_c(x) and x >= 0:
            import math
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        if x is INF:
            return INF
    if name == "exp" and is_c(x) and x == 0:
        return Fraction(1)
    if name == "log" and is_c(x) and x == 1:
        return Fraction(0)
    if _is_special(x):
        l = _lift(lambda y: unary(name, y), (x,))
        if l is not None:
            return l
        if x is NAN:
            return NAN
    return _mk("fn", (x,), "R", name)


def abs_(x):
    if is_c(x):
        return abs(x)
    if x is INF or x is NINF:
        return INF
    return ite(lt(x, 0), neg(x), x)


def subst(t, m, cache=None):
    """substitute {Term: value} in t"""
    if cache is None:
        cache = {}

    def go(x):
        if is_c(x):
            return x
        if x in m:
            return m[x]
        r = cache.get(x.id)
        if r is None:
            r = rebuild(x, [go(a) for a in x.args])
            cache[x.id] = r
        return r

    return go(t)


def rebuild(x, args):
    op = x.op
    if op in ("sym", "inf", "nan"):
        return x
    f = {
        "add": add, "mul": mul, "div": div, "ite": ite, "not": not_, "and": and_,
        "or": or_, "lt": lt, "eq": eq,
    }.get(op)
    if f is not None:
        return f(*args)
    if op == "app":
        return app(x.name, args, x.sort)
    if op == "fn":
        return unary(x.name, args[0])
    if op == "toreal":
        return R(args[0])
    if op == "idiv":
        if is_c(args[0]) and is_c(args[1]):
            return args[0] // args[1]
        return _mk("idiv", args, "I")
    if op == "floor":
        if is_c(args[0]):
            return args[0].numerator // args[0].denominator
        return _mk("floor", args, "I")
    raise NotImplementedError(op)


def subterms(ts):
    seen, out = set(), []
    stack = [t for t in ts if isinstance(t, Term)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(a for a in t.args if isinstance(a, Term))
    return out


def show(t, depth=0, maxdepth=8):
    if is_c(t):
        return str(t) if not isinstance(t, Fraction) or t.denominator < 10 ** 6 else repr(float(t))
    if t.op == "sym":
        return t.name
    if t.op == "inf":
        return "-inf" if t.name else "inf"
    if t.op == "nan":
        return "nan"
    if depth > maxdepth:
        return "…"
    a = [show(x, depth + 1, maxdepth) for x in t.args]
    if t.op in ("add", "mul", "and", "or"):
        return "(" + {"add": " + ", "mul": "*", "and": " & ", "or": " | "}[t.op].join(a) + ")"
    if t.op in ("lt", "eq", "div"):
        return "(" + {"lt": " < ", "eq": " = ", "div": "/"}[t.op].join(a) + ")"
    return (t.name or t.op) + "(" + ", ".join(a) + ")"


def evaluate(t, env, fns):
    """numerical evaluation; env: {Term: number}, fns: {name: callable}"""
    import math
    cache = {}

    def go(x):
        if is_c(x):
            return float(x) if isinstance(x, Fraction) else x
        if x.id in cache:
            return cache[x.id]
        op = x.op
        if x in env:
            r = env[x]
        elif op == "inf":
            r = -math.inf if x.name else math.inf
        elif op == "nan":
            r = math.nan
        elif op == "ite":
            r = go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        elif op == "and":
            r = all(go(a) for a in x.args)
        elif op == "or":
            r = any(go(a) for a in x.args)
        else:
            a = [go(y) for y in x.args]
            if op == "add":
                r = sum(a)
            elif op == "mul":
                r = 1
                for y in a:
                    r = r * y
            elif op == "div":
                r = a[0] / a[1] if a[1] != 0 else (math.nan if a[0] == 0 else math.copysign(math.inf, a[0]))
            elif op == "not":
                r = not a[0]
            elif op == "lt":
                r = a[0] < a[1]
            elif op == "eq":
                r = a[0] == a[1]
            elif op == "toreal":
                r = float(a[0])
            elif op == "idiv":
                r = a[0] // a[1]
            elif op == "floor":
                r = math.floor(a[0])
            elif op == "fn":
                r = getattr(math, x.name)(a[0]) if x.name not in fns else fns[x.name](*a)
            elif op == "app":
                r = fns[x.name](*a)
            else:
                raise NotImplementedError(op)
        cache[x.id] = r
        return r

    return go(t)
