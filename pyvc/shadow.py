"""What the rewritten code calls instead of builtins: the same behaviour on concrete values, plus symbolic ones."""
import builtins, types
from eng import *
import eng as _e


def _act():
    return _e.R.cur is not None


def s_len(x):
    if isinstance(x, (SList, SRange)):
        return x.sym_len()
    if isinstance(x, tuple) and any(isinstance(y, Star) for y in x):
        n = 0
        for y in x:
            n = n + (y.seq.n if isinstance(y, Star) else 1)
        return n
    if isinstance(x, Seq):
        return x.n
    if _act() and hasattr(type(x), "sym_len"):
        return x.sym_len()
    if _act() and not isinstance(x, (list, tuple, str, bytes, dict, set, frozenset)) and isinstance(getattr(type(x), "__len__", None), types.FunctionType):
        return type(x).__len__(x)       # a user-defined __len__ may return a symbolic number
    return builtins.len(x)


def s_isinstance(x, c):
    if isinstance(x, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, SBool):
            return any(k in (bool, int, object) for k in cs)
        if isinstance(x, SInt):
            return any(k in (int, object) for k in cs)
        if isinstance(x, SReal):
            return any(k in (float, object) for k in cs)
        if isinstance(x, SList):
            return any(k in ((tuple if x.tup else list), object) for k in cs)
        if isinstance(x, SVal):
            return _e.eng().isinstance(x, c)
        if isinstance(x, SRange):
            return range in cs
        if isinstance(x, SGen):
            return types.GeneratorType in cs
        raise Unsupported(f"isinstance of {x!r}")
    return builtins.isinstance(x, c)


def s_hasattr(x, n):
    if isinstance(x, SVal):
        return _e.eng().hasattr(x, n)
    if isinstance(x, Sym):
        raise Unsupported("hasattr")
    return builtins.hasattr(x, n)


def s_getattr(x, n, *d):
    if isinstance(x, SVal) and d:
        if _e.eng().hasattr(x, n):
            return _e.eng().opaque_attr(x, n)
        return d[0]
    return builtins.getattr(x, n, *d)


def _symargs(a):
    return any(isinstance(x, Sym) for x in a)


def s_min(*a, **k):
    if not k and len(a) >= 2 and _symargs(a) and all(num(x) is not None for x in a):
        r = a[0]
        for x in a[1:]:
            r = ite(x < r, x, r)
        return r
    if len(a) == 1 and isinstance(a[0], (SList, SGen, SRange)) and not k:
        s = seq_of(a[0])
        if isinstance(s.n, int) and s.n:
            return s_min(*[s.at(i) for i in range(s.n)], 10 ** 30) if s.n == 1 else s_min(*[s.at(i) for i in range(s.n)])
        raise Unsupported("min of a symbolic sequence")
    return builtins.min(*a, **k)


def s_max(*a, **k):
    if not k and len(a) >= 2 and _symargs(a) and all(num(x) is not None for x in a):
        r = a[0]
        for x in a[1:]:
            r = ite(x > r, x, r)
        return r
    if len(a) == 1 and isinstance(a[0], (SList, SGen, SRange)) and not k:
        s = seq_of(a[0])
        if isinstance(s.n, int) and s.n:
            return s.at(0) if s.n == 1 else s_max(*[s.at(i) for i in range(s.n)])
        raise Unsupported("max of a symbolic sequence")
    return builtins.max(*a, **k)


def s_sum(x, start=0):
    if isinstance(x, (SList, SGen, SRange)) or is_symbolic_iterable(x):
        s = seq_of(x)
        if isinstance(s.n, int):
            r = start
            for i in range(s.n):
                r = r + s.at(i)
            return r
        h = getattr(_e.eng().contract, "sum", None)
        if h:
            return h(_e.eng(), s, start)
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for y in x:
        r = r + y
    return r


def _quant(x, want):
    """any / all over a sequence: any looks for an element with truth `want`."""
    if isinstance(x, (SList, SGen, SRange)) and not isinstance(seq_of(x).n, int):
        s = seq_of(x)
        E = _e.eng()
        if E.choose(2) == 0:
            k = SInt(E.fresh_int("k"))
            E.assume(and_(k >= 0, k < s.n))
            if bool(s.at(k)) != want:
                raise PathEnd
            return True
        base = x.src if isinstance(x, SGen) else s
        fn = x.fn if isinstance(x, SGen) else (lambda v: v)
        E.universal(base, fn, not want)
        return False
    for y in x:
        if bool(y) == want:
            return True
    return False


def s_any(x):
    return _quant(x, True)


def s_all(x):
    return not _quant(x, False)


def universal(self, base, fn, value):
    """Every element of base satisfies bool(fn(v)) == value: remembered as a fact which is used when elements are read."""
    def fact(i, v):
        r = fn(v)
        if isinstance(r, (bool, SBool)):
            return iff(r, value)
        return bool(r) == value
    base.facts = tuple(base.facts) + (fact,)
    for i in self.witness:
        if and_(i >= 0, i < base.n):
            v = base.at(i)
            if base.concrete():
                self.assume(fact(i, v))
    if self.witness and self.check(z3.BoolVal(True))[0] == z3.unsat:
        raise PathEnd


Engine.universal = universal


def s_abs(x):
    return builtins.abs(x)


def s_sorted(x, **k):
    if isinstance(x, (SList, SGen)):
        h = getattr(_e.eng().contract, "sorted", None)
        if h:
            return h(_e.eng(), x, **k)
        s = seq_of(x)
        if s.concrete() and not any(isinstance(y, Sym) for y in s.items) or k.get("key") and s.concrete():
            return SList(Seq(builtins.sorted(s.items, **k)))
        raise Unsupported("sorted of symbolic values")
    return builtins.sorted(x, **k)


def s_iter(x, *a):
    if not a and _act() and hasattr(type(x), "__sym_iter__") and (isinstance(x, Cursor) or not isinstance(x, Sym) or is_symbolic_iterable(x)):
        return x.__sym_iter__()
    return builtins.iter(x, *a)


def s_next(x, *a):
    if isinstance(x, Cursor):
        v = x.step()
        if v is END:
            if a:
                return a[0]
            raise StopIteration
        return v
    return builtins.next(x, *a)


def s_round(x, *a):
    if isinstance(x, SReal):
        h = getattr(_e.eng().contract, "round", None)
        if h:
            return h(_e.eng(), x, *a)
        f = z3.ToInt(x.e)
        d = x.e - z3.ToReal(f)
        return mkint(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))
    if isinstance(x, SInt):
        return x
    return builtins.round(x, *a)


def s_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return builtins.divmod(a, b)


def s_print(*a, **k):
    if _act():
        return
    builtins.print(*a, **k)


def s_hash(x):
    return builtins.hash(x)


SHADOW = dict(len=s_len, isinstance=s_isinstance, hasattr=s_hasattr, getattr=s_getattr, min=s_min, max=s_max, sum=s_sum, any=s_any, all=s_all, abs=s_abs, sorted=s_sorted,
              iter=s_iter, next=s_next, round=s_round, divmod=s_divmod, print=s_print)


class Filtered:
    """What is known about the positions a filtered comprehension keeps: sigma(j) is the position of the j-th element kept, increasing;
    rho is its inverse on the positions kept."""

    def __init__(self, P, cond, s):
        nm = P.fresh_name("filter")
        self.P, self.cond, self.s = P, cond, s
        self.m = SInt(z3.Int(nm + ".m"))
        self.sig, self.rho = (z3.Function(f"{nm}.{x}", z3.IntSort(), z3.IntSort()) for x in ("sigma", "rho"))
        self.seen = []
        P.assume(and_(self.m >= 0, self.m <= s.n))

    def sigma(self, j):
        r = SInt(self.sig(num(j)))
        P = self.P
        P.assume_value(implies(and_(j >= 0, j < self.m), and_(r >= 0, r < self.s.n, SInt(self.rho(r.e)) == j, r >= j)))
        for k in self.seen:
            P.assume_value(implies(j < k, r < SInt(self.sig(num(k)))))
            P.assume_value(implies(k < j, SInt(self.sig(num(k))) < r))
        self.seen.append(j)
        return r

    def at(self, j):
        r = self.sigma(j)
        v = self.s.at(r)
        if not self.cond(v):
            raise PathEnd
        return v

    def complete(self, i):
        """Instantiates for position i: it is kept exactly if the condition holds."""
        v = self.s.at(i)
        r = SInt(self.rho(num(i)))
        if self.cond(v):
            self.P.assume(and_(r >= 0, r < self.m))
            self.P.assume(SInt(self.sig(r.e)) == i)
            self.seen.append(r)
            return r
        return None


def filtered(P, fn, cond, it):
    s = seq_of(it)
    F = Filtered(P, cond, s)
    P.filters.append(F)
    return SList(Seq(n=F.m, f=lambda j: fn(F.at(j))))


class PV:
    """The object the rewritten code knows as `_pv_`."""
    END = END
    SIGNALS = (Unsupported, PathEnd, Restart)

    # ---- loops
    def forloop(self, id, it, names):
        if _act() and isinstance(it, range) and len(it) > getattr(_e.eng().contract, "cut_ranges", 10 ** 9):
            it = SRange(it.start, it.stop, it.step).__sym_iter__()     # cut by an invariant although the number of rounds is known
        if _act() and is_symbolic_iterable(it):
            if not _e.eng().loop_cut(id):
                return Loop(id, names, False, cursor(it))      # unrolled: a bounded contract
            l = Loop(id, names, True)
            l.cursor = cursor(it)
            return l
        if isinstance(it, SList):
            it = ListCursorNative(it)
        return Loop(id, names, False, it)

    def whileloop(self, id, names):
        return Loop(id, names, _act() and _e.eng().loop_cut(id))

    def head(self, loop, loc):
        return _e.eng().head(loop, loc)

    def unstar(self, x, before, after):
        if not _act() or not isinstance(x, SList) or x.c.concrete():
            v = list(x)
            if len(v) < before + after:
                raise ValueError("not enough values to unpack")
            mid = v[before:len(v) - after]
            return (*v[:before], SList(Seq(mid)) if _act() else mid, *v[len(v) - after:])
        n = x.sym_len()
        if n < before + after:
            raise ValueError("not enough values to unpack")
        return (*[x.c.at(i) for i in range(before)], SList(seq_slice(x.c, before, n - after)), *[x.c.at(n - after + i) for i in range(after)])

    # ---- displays
    def const_bytes(self, x):
        """Byte strings are sequences of numbers where a contract asks for it."""
        return SList(Seq(x), True) if _act() and getattr(_e.eng().contract, "sym_bytes", False) else x

    def mklist(self, x):
        return SList(Seq(x)) if _act() else x

    def mklist_star(self, parts):
        r = self._join(parts)
        return SList(r) if _act() else list(r.items)

    def _join(self, parts):
        r = Seq([])
        for star, v in parts:
            if star:
                for s in self._star(v):
                    r = seq_concat(r, s)
            else:
                r = seq_append(r, v)
        return r

    def _star(self, v):
        if isinstance(v, tuple) and any(isinstance(y, Star) for y in v):
            for y in v:
                yield y.seq if isinstance(y, Star) else Seq([y])
        else:
            yield seq_of(v)

    def mktuple(self, parts):
        r = self._join(parts)
        if r.concrete():
            return r.items
        return SList(r, True)

    def callstar(self, f, parts, **kw):
        args = []
        for star, v in parts:
            if not star:
                args.append(v)
                continue
            for s in self._star(v):
                if s.concrete():
                    args.extend(s.items)
                elif isinstance(s.n, int):
                    args.extend(s.at(i) for i in range(s.n))
                else:
                    args.append(Star(s))
        return self.bcall(f, *args, **kw)

    def listcomp(self, fn, cond, it):
        if _act() and is_symbolic_iterable(it):
            if isinstance(it, Cursor):
                it = it.rest_seq()
            if cond is not None:
                return filtered(_e.eng(), fn, cond, it)
            s = seq_of(it if not hasattr(it, "__sym_iter__") or isinstance(it, Sym) else it)
            return SList(Seq(n=s.n, f=lambda i: fn(s.at(i))))
        r = [fn(x) for x in it if cond is None or cond(x)]
        return SList(Seq(r)) if _act() else r

    def genexp(self, fn, cond, it):
        if _act() and is_symbolic_iterable(it):
            if isinstance(it, Cursor) and cond is None and not hasattr(it, "rest_seq_ok"):
                return MapCursor(fn, it)
            if isinstance(it, Cursor):
                it = it.rest_seq()
            if cond is not None:
                raise Unsupported("filtered generator expression over a symbolic sequence")
            return SGen(fn, seq_of(it))
        return (fn(x) for x in it if cond is None or cond(x))

    def dictcomp(self, fn, cond, it):
        if _act() and is_symbolic_iterable(it):
            raise Unsupported("dict comprehension over a symbolic sequence")
        return dict(fn(x) for x in it if cond is None or cond(x))

    # ---- expressions
    def fstr(self, parts):
        if _act() and any(not isinstance(p, str) and isinstance(p[0], (Sym,)) for p in parts):
            try:
                return app("fstr." + "{}".join(p if isinstance(p, str) else "" for p in parts), *[p[0] if isinstance(p[0], Sym) else str(p[0]) for p in parts if not isinstance(p, str)])
            except Unsupported:
                return "<text>"
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
                out.append(format(v, spec))
        return "".join(out)

    def is_(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported("variable of an earlier iteration")
            if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool) or isinstance(a, SVal) and isinstance(b, SVal):
                return a == b
            if isinstance(a, SVal) and b is None or isinstance(b, SVal) and a is None:
                h = getattr(_e.eng().contract, "is_none", None)
                return h(_e.eng(), a if b is None else b) if h else False
        return a is b

    def in_(self, x, c):
        if isinstance(c, (list, tuple)) and (isinstance(x, Sym) or any(isinstance(y, Sym) for y in c)):
            return or_(*[x == y for y in c]) if c else False
        if isinstance(c, SList):
            if c.c.concrete():
                return or_(*[x == y for y in c.c.items]) if c.c.items else False
            raise Unsupported("`in` on a symbolic sequence")
        if isinstance(c, SRange):
            return and_(x >= c.a, x < c.b) if c.s == 1 else self._uns("`in` on a range")
        if isinstance(x, Sym) and isinstance(c, (dict, set, frozenset)):
            for y in c:
                if x == y:
                    return True
            return False
        if isinstance(c, SVal):
            return predicate("in", x, c)
        return x in c

    def _uns(self, m):
        raise Unsupported(m)

    # ---- calls of builtin types
    def bcall(self, f, *a, **k):
        if not _act() or not isinstance(f, type):
            return f(*a, **k)
        if f is builtins.list:
            if not a:
                return SList(Seq([]))
            if isinstance(a[0], Cursor):
                raise Unsupported("list of an iterator")
            if hasattr(type(a[0]), "__sym_seq__"):
                return SList(a[0].__sym_seq__())
            if isinstance(a[0], Sym) or isinstance(a[0], tuple) and any(isinstance(y, Star) for y in a[0]):
                return SList(self._join([(True, a[0])]))
            return SList(Seq(builtins.list(a[0])))
        if f is builtins.tuple and a:
            if isinstance(a[0], (Cursor,)):
                raise Unsupported("tuple of an iterator")
            if hasattr(type(a[0]), "__sym_seq__"):
                return SList(a[0].__sym_seq__(), True)
            if isinstance(a[0], Sym) or isinstance(a[0], tuple) and any(isinstance(y, Star) for y in a[0]):
                s = self._join([(True, a[0])])
                return s.items if s.concrete() else SList(s, True)
            return builtins.tuple(a[0])
        if f is builtins.range and _symargs(a):
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            return SRange(lo, hi, st)
        if f is builtins.enumerate and is_symbolic_iterable(a[0]):
            return Enumerate(cursor(a[0]), *a[1:], **k)
        if f is builtins.zip and any(is_symbolic_iterable(x) or isinstance(x, Star) for x in a):
            if len(a) == 1 and isinstance(a[0], Star):
                q = a[0].seq
                wd = builtins.len(q.at(0))
                return builtins.tuple(SList(Seq(n=q.n, f=lambda i, j=j: q.at(i)[j]), True) for j in builtins.range(wd))
            if not any(isinstance(x, Cursor) or not isinstance(x, (Sym, list, tuple, range)) for x in a):
                ss = [seq_of(x) for x in a]
                n = s_min(*[s.n for s in ss]) if len(ss) > 1 else ss[0].n
                return SeqCursor2(Seq(n=n, f=lambda i: tuple(s.at(i) for s in ss)))
            return Zip([cursor(x) for x in a])
        if f is builtins.map and len(a) == 2 and is_symbolic_iterable(a[1]):
            return SGen(a[0], seq_of(a[1])) if not isinstance(a[1], Cursor) else MapCursor(a[0], a[1])
        if f is builtins.reversed and isinstance(a[0], (SList, SRange)):
            s = seq_of(a[0])
            return SeqCursor(Seq(n=s.n, f=lambda i: s.at(s.n - 1 - i))) if not s.concrete() else builtins.reversed(s.items)
        if f is builtins.int and a and isinstance(a[0], Sym):
            x = a[0]
            if isinstance(x, SReal):
                return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
            if isinstance(x, (SInt, SBool)):
                return mkint(num(x))
            raise Unsupported("int() of an opaque value")
        if f is builtins.float and a and isinstance(a[0], Sym):
            return mkreal(_e._real(num(a[0])))
        if f is builtins.bool and a and isinstance(a[0], Sym):
            return a[0] if isinstance(a[0], SBool) else mkbool(num(a[0]) != 0) if isinstance(a[0], _e._Num) else builtins.bool(a[0])
        if f in (builtins.bytes, builtins.bytearray) and len(a) == 1 and isinstance(a[0], SVal):
            return a[0]         # the same bytes: conversions between representations of an opaque value
        if f is builtins.str and a and isinstance(a[0], Sym):
            return app("str", a[0])
        if f is builtins.type and len(a) == 1 and isinstance(a[0], Sym):
            x = a[0]
            if isinstance(x, SList):
                return tuple if x.tup else list
            if isinstance(x, SBool):
                return bool
            if isinstance(x, SInt):
                return int
            h = getattr(_e.eng().contract, "type_of", None)
            if h:
                return h(_e.eng(), x)
            raise Unsupported("type() of an opaque value")
        return f(*a, **k)


class SeqCursor2(SeqCursor):
    def __sym_seq__(self):
        if self.pos != 0:
            raise Unsupported("sequence of a used iterator")
        return self.seq


class ListCursorNative:
    """Iterates over a list with a concrete number of elements like a list iterator does."""

    def __init__(self, l):
        self.l, self.i = l, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.l):
            raise StopIteration
        self.i += 1
        return self.l.c.at(self.i - 1)
