"""Symbolic values, path exploration and loop cutting with invariants.  See DESIGN.md, "The prover"."""
import builtins, dataclasses, itertools, os, sys, time, types
import os as _os
import z3

U = z3.DeclareSort("U")          # opaque values (samples, keys, states ...)


class Unsupported(BaseException):
    """The code left the fragment which the engine understands: undecided."""


class PathEnd(BaseException):
    pass


class Restart(BaseException):
    pass


class Failed(BaseException):
    pass


class Ghost:
    """Ghost variables of a contract."""
    _ghost = True


class _EngRef:
    cur = None


R = _EngRef()


def eng():
    if R.cur is None:
        raise Unsupported("symbolic value used outside of a proof")
    return R.cur


# ------------------------------------------------------------------------------------------------ values
class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"hash of the symbolic value {self!r}")

    def __index__(self):
        raise Unsupported(f"native use of the symbolic value {self!r}")
    __int__ = __float__ = __complex__ = __index__

    def __iter__(self):
        raise Unsupported(f"native iteration over the symbolic value {self!r}")

    def __len__(self):
        raise Unsupported(f"native len() of the symbolic value {self!r}")

    def __format__(self, spec):
        return f"<{self!r}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mkreal(e):
    return SReal(z3.simplify(e))


def num(x):
    """z3 term of a number or None."""
    if isinstance(x, (SInt, SReal)):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return z3.RealVal(repr(x))
    return None


def mknum(e):
    return mkint(e) if e.sort() == z3.IntSort() else mkreal(e)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _floordiv(a, b):
    """Python's floor division of two z3 integer terms; forks on the sign of the divisor."""
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b, a % b
    if mkbool(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if mkbool(b > 0):
        q, r = a / b, a % b
        if not z3.is_int_value(b):
            # helps the non-linear solver: a = q*b + r with opaque q, r
            E = eng()
            if E.lazy is not None:
                for a2, b2, q2, r2 in E.divs:
                    if z3.eq(a, a2) and z3.eq(b, b2):
                        return q2, r2
                qq, rr = E.fresh_int("q"), E.fresh_int("r")
                E.define(z3.And(rr >= 0, rr < b, z3.Implies(a >= 0, qq >= 0), z3.Implies(a < b, qq <= 0), z3.Implies(z3.And(a >= 0, a < b), rr == a)))
                E.lazy.append(a == qq * b + rr)
            else:
                qq, rr = E.fresh_int("q"), E.fresh_int("r")
                E.define(z3.And(qq == q, rr == r, a == qq * b + rr, rr >= 0, rr < b))
            for a2, b2, q2, r2 in eng().divs[-6:]:
                if z3.eq(b, b2):
                    # facts about divisions by the same number
                    eng().define(z3.And(z3.Implies(a == a2, z3.And(qq == q2, rr == r2)), z3.Implies(a >= a2, qq >= q2), z3.Implies(a <= a2, qq <= q2),
                                        z3.Implies(a == a2 + b, z3.And(qq == q2 + 1, rr == r2)), z3.Implies(a2 == a + b, z3.And(q2 == qq + 1, rr == r2))))
            eng().divs.append((a, b, qq, rr))
            return qq, rr
        return q, r
    q, r = (-a) / (-b), -((-a) % (-b))
    return q, r


def _product(a, b):
    E = R.cur
    if E is not None and E.lazy is not None:
        a, b = z3.simplify(a), z3.simplify(b)
        if not any(z3.is_int_value(x) or z3.is_rational_value(x) for x in (a, b)):
            for a2, b2, x in E.prods:
                if z3.eq(a, a2) and z3.eq(b, b2) or z3.eq(a, b2) and z3.eq(b, a2):
                    return mknum(x)
            x = z3.Const(E.fresh_name("product"), a.sort())
            E.define(z3.And(z3.Implies(z3.And(a >= 0, b >= 0), x >= 0), z3.Implies(a == 0, x == 0), z3.Implies(b == 0, x == 0), z3.Implies(a == 1, x == b), z3.Implies(b == 1, x == a)))
            E.lazy.append(x == a * b)
            E.prods.append((a, b, x))
            return mknum(x)
    return mknum(a * b)


class _Num(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"{type(self).__name__}({str(self.e)[:80]})"

    def _bin(self, o, f, swap=False):
        b = num(o)
        if b is None:
            return NotImplemented
        a = num(self)
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        return f(b, a) if swap else f(a, b)

    def __add__(self, o): return self._bin(o, lambda a, b: mknum(a + b))
    def __radd__(self, o): return self._bin(o, lambda a, b: mknum(a + b), True)
    def __sub__(self, o): return self._bin(o, lambda a, b: mknum(a - b))
    def __rsub__(self, o): return self._bin(o, lambda a, b: mknum(a - b), True)

    def __mul__(self, o):
        if isinstance(o, SList):
            return o * self
        return self._bin(o, _product)

    def __rmul__(self, o): return self._bin(o, _product, True)

    @staticmethod
    def _tdiv(a, b):
        if mkbool(b == 0):
            raise ZeroDivisionError("division by zero")
        E = eng()
        if E.lazy is not None and not z3.is_int_value(b) and not z3.is_rational_value(b):
            for a2, b2, x in E.quots:
                if z3.eq(a, a2) and z3.eq(b, b2):
                    return mkreal(x)
            x = z3.Real(E.fresh_name("quotient"))
            E.define(z3.Implies(z3.And(a >= 0, b > 0), x >= 0))
            E.lazy.append(x * _real(b) == _real(a))
            E.quots.append((a, b, x))
            return mkreal(x)
        return mkreal(_real(a) / _real(b))

    def __truediv__(self, o): return self._bin(o, self._tdiv)
    def __rtruediv__(self, o): return self._bin(o, self._tdiv, True)

    @staticmethod
    def _fdiv(a, b):
        if a.sort() != z3.IntSort():
            raise Unsupported("floor division of reals")
        return mkint(_floordiv(a, b)[0])

    @staticmethod
    def _mod(a, b):
        if a.sort() != z3.IntSort():
            raise Unsupported("modulo of reals")
        return mkint(_floordiv(a, b)[1])

    def __floordiv__(self, o): return self._bin(o, self._fdiv)
    def __rfloordiv__(self, o): return self._bin(o, self._fdiv, True)
    def __mod__(self, o): return self._bin(o, self._mod)
    def __rmod__(self, o): return self._bin(o, self._mod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __neg__(self): return mknum(-num(self))
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 5:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power of a symbolic value")

    def _cmp(self, o, f):
        r = self._bin(o, lambda a, b: mkbool(f(a, b)))
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if num(o) is None:
            return False if not isinstance(o, SVal) else NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(mkbool(num(self) != 0))

    __hash__ = Sym.__hash__


class SInt(_Num):
    __slots__ = ()

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic value")

    @property
    def real(self):
        return self


class SReal(_Num):
    __slots__ = ()


class SBool(_Num):
    __slots__ = ()

    def __bool__(self):
        return eng().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == (o.e if isinstance(o, SBool) else z3.BoolVal(o)))
        return super().__eq__(o)

    def __and__(self, o): return and_(self, o)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o)
    __ror__ = __or__
    def __invert__(self): return not_(self)
    __hash__ = Sym.__hash__


def b3(x):
    """z3 term of a truth value."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool,)):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    if isinstance(x, (SInt, SReal)):
        return x.e != 0
    if x is NotImplemented or isinstance(x, Sym):
        raise Unsupported(f"truth value of {x!r}")
    return z3.BoolVal(bool(x))


def and_(*xs):
    return mkbool(z3.And(*[b3(x) for x in xs]))


def or_(*xs):
    return mkbool(z3.Or(*[b3(x) for x in xs]))


def not_(x):
    return mkbool(z3.Not(b3(x)))


def implies(a, b):
    return mkbool(z3.Implies(b3(a), b3(b)))


def iff(a, b):
    return mkbool(b3(a) == b3(b))


def ite(c, a, b):
    """Merges numbers or opaque values without forking."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c.e, b3(a), b3(b)))
    x, y = num(a), num(b)
    if x is not None and y is not None:
        if x.sort() != y.sort():
            x, y = _real(x), _real(y)
        return mknum(z3.If(c.e, x, y))
    if isinstance(a, SVal) and isinstance(b, SVal):
        return SVal(z3.If(c.e, a.e, b.e))
    return a if c else b


class SVal(Sym):
    """An opaque value: everything about it is an uninterpreted function of it."""
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e, self.tag = e, tag

    def __repr__(self):
        return f"SVal({str(self.e)[:60]})"

    def __eq__(self, o):
        if isinstance(o, SVal):
            return mkbool(self.e == o.e)
        if o is None:
            return False
        k = const_val(o)
        if k is None:
            raise Unsupported(f"comparison of {self!r} with {o!r}")
        return mkbool(self.e == k.e)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return eng().opaque_bool(self)

    def __getattr__(self, name):
        if name.startswith("__array") or name in ("__len__", "__iter__", "__next__", "__sym_iter__", "sym_len", "_fields", "__dataclass_fields__", "__wrapped__"):
            raise AttributeError(name)
        return eng().opaque_attr(self, name)

    def __getitem__(self, i):
        return eng().opaque_item(self, i)

    def __call__(self, *a, **k):
        return app("call", self, *a, *[x for kv in sorted(k.items()) for x in kv])

    def __add__(self, o): return app("add", self, o)
    def __radd__(self, o): return app("add", o, self)
    def __truediv__(self, o): return app("div", self, o)
    __hash__ = Sym.__hash__


_consts = {}


def const_val(x):
    """A constant for a concrete hashable value.  Different constants are distinct."""
    if isinstance(x, SVal):
        return x
    try:
        key = (type(x).__name__, x)
        hash(key)
    except (TypeError, Unsupported):
        return None
    if isinstance(x, (str, bytes, int, float, bool, type(None), type)) or isinstance(x, types.FunctionType):
        if key not in _consts:
            _consts[key] = z3.Const(f"c!{type(x).__name__}!{str(x)[:40]}!{len(_consts)}", U)
        v = SVal(_consts[key])
        R.cur and R.cur.use_const(key)
        return v
    return None


_boxers = {}


def box(x):
    """An opaque value for any value the engine knows (injective boxing of numbers)."""
    if isinstance(x, SVal):
        return x.e
    if isinstance(x, SBool) or isinstance(x, bool):
        return z3.Function("boxB", z3.BoolSort(), U)(b3(x))
    n = num(x) if not isinstance(x, float) else None
    if n is not None:
        if n.sort() == z3.IntSort():
            e = z3.Function("boxI", z3.IntSort(), U)(n)
            un = z3.Function("unboxI", U, z3.IntSort())
            R.cur and R.cur.define(un(e) == n)
            return e
        return z3.Function("boxR", z3.RealSort(), U)(n)
    k = const_val(x)
    if k is not None:
        return k.e
    if isinstance(x, tuple):
        return app(f"tuple{len(x)}", *x).e
    if isinstance(x, SList) and x.c.concrete():
        return app(f"seq{len(x.c.items)}", *x.c.items).e
    raise Unsupported(f"no opaque value for {type(x).__name__} {x!r}"[:200])


def app(name, *args):
    """Uninterpreted function application."""
    es = [box(a) for a in args]
    return SVal(z3.Function(f"{name}/{len(es)}", *([U] * len(es)), U)(*es)) if es else SVal(z3.Const(name, U))


def predicate(name, *args):
    es = [box(a) for a in args]
    return mkbool(z3.Function(f"{name}?/{len(es)}", *([U] * len(es)), z3.BoolSort())(*es))


# ------------------------------------------------------------------------------------------------ sequences
class Seq:
    """An immutable sequence: concrete items, or a length and a function of the index."""
    __slots__ = ("items", "n", "f", "facts")

    def __init__(self, items=None, n=None, f=None, facts=()):
        self.items = None if items is None else tuple(items)
        self.n = len(self.items) if items is not None else n
        self.f, self.facts = f, facts

    def concrete(self):
        return self.items is not None

    def at(self, i):
        """Element at an index within the bounds."""
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            for j in range(len(self.items) - 1):
                if i == j:
                    return self.items[j]
            if not self.items:
                raise PathEnd
            return self.items[-1]
        v = self.f(i)
        for fact in self.facts:
            eng().assume_value(fact(i, v))
        return v

    def __repr__(self):
        return f"Seq({list(self.items)!r})" if self.concrete() else f"Seq(n={self.n!r})"


def seq_of(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, SList):
        return x.c
    if isinstance(x, (list, tuple)):
        return Seq(x)
    if isinstance(x, SGen):
        return x.seq()
    if isinstance(x, Cursor) and not hasattr(x, "__sym_seq__"):
        return x.rest_seq()
    if isinstance(x, (range,)):
        return Seq(list(x)) if len(x) < 1000 else Seq(n=len(x), f=lambda i: x.start + i * x.step)
    if hasattr(x, "__sym_seq__"):
        return x.__sym_seq__()
    if isinstance(x, (str, bytes, dict, set, frozenset, types.GeneratorType, map, filter, zip, enumerate, reversed)) or hasattr(x, "__iter__"):
        return Seq(list(x))
    raise Unsupported(f"no sequence: {type(x).__name__}")


def seq_slice(s, a, b):
    """s[a:b] with 0 <= a <= b <= len(s) known."""
    if isinstance(a, int) and a == 0 and b is s.n:
        return s
    if s.concrete() and isinstance(a, int) and isinstance(b, int):
        return Seq(s.items[a:b])
    return Seq(n=b - a, f=lambda i: s.at(a + i), facts=())


def seq_concat(s, t):
    if s.concrete() and t.concrete():
        return Seq(s.items + t.items)
    if s.concrete() and not s.items:
        return t
    if t.concrete() and not t.items:
        return s
    sn = s.n
    return Seq(n=sn + t.n, f=lambda i: s.at(i) if i < sn else t.at(i - sn))


def seq_append(s, v):
    if s.concrete():
        return Seq(s.items + (v,))
    sn = s.n

    def f(i):
        if isinstance(v, (SInt, SReal, SBool, SVal, int)) and not isinstance(v, bool):
            c = i < sn
            if isinstance(c, bool):
                return s.at(i) if c else v
        return s.at(i) if i < sn else v
    return Seq(n=sn + 1, f=f)


def seq_store(s, j, v):
    if s.concrete() and isinstance(j, int):
        return Seq(s.items[:j] + (v,) + s.items[j + 1:])
    if s.concrete():
        return Seq([ite(j == k, v, x) for k, x in enumerate(s.items)])
    return Seq(n=s.n, f=lambda i: v if i == j else s.at(i))


def seq_const(n, v):
    if isinstance(n, int):
        return Seq([v] * n)
    return Seq(n=n, f=lambda i: v)


def seq_delete(s, a, b):
    return seq_concat(seq_slice(s, 0, a), seq_slice(s, b, s.n))


def clamp_index(i, n, default):
    if i is None:
        return default
    if i < 0:
        i = i + n
        if i < 0:
            return 0
    return n if i > n else i


class SList(Sym):
    """A list (or, with tup, a tuple) whose contents are a Seq.  Lists have identity and can be changed."""
    __slots__ = ("c", "tup", "own")

    def __init__(self, c, tup=False):
        self.c, self.tup, self.own = c, tup, None

    def __repr__(self):
        return ("STuple" if self.tup else "SList") + repr(self.c)[3:]

    def sym_len(self):
        return self.c.n

    def __len__(self):
        if isinstance(self.c.n, int):
            return self.c.n
        raise Unsupported("native len() of a symbolic list")

    def __bool__(self):
        return bool(self.c.n > 0)

    def __iter__(self):
        if self.c.concrete() or isinstance(self.c.n, int):
            i = 0
            while i < len(self):
                yield self.c.at(i)
                i += 1
            return
        raise Unsupported("native iteration over a list of symbolic length")

    def __sym_iter__(self):
        return ListCursor(self)

    def _idx(self, i):
        if not isinstance(i, (int, SInt, SBool)):
            raise Unsupported(f"index {i!r}")
        n = self.c.n
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError("list index out of range")
        elif i >= n:
            raise IndexError("list index out of range")
        return i

    def _slice(self, s):
        if s.step not in (None, 1):
            if self.c.concrete():
                return None
            raise Unsupported("slice with a step")
        a = clamp_index(s.start, self.c.n, 0)
        b = clamp_index(s.stop, self.c.n, self.c.n)
        if b < a:
            b = a
        return a, b

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = self._slice(i)
            if r is None:
                return SList(Seq(self.c.items[i]), self.tup)
            return SList(seq_slice(self.c, *r), self.tup)
        return self.c.at(self._idx(i))

    def _mut(self):
        if self.tup:
            raise TypeError("'tuple' object does not support item assignment")

    def __setitem__(self, i, v):
        self._mut()
        if isinstance(i, slice):
            a, b = self._slice(i)
            self.c = seq_concat(seq_concat(seq_slice(self.c, 0, a), seq_of(v)), seq_slice(self.c, b, self.c.n))
            return
        self.c = seq_store(self.c, self._idx(i), v)

    def __delitem__(self, i):
        self._mut()
        if isinstance(i, slice):
            a, b = self._slice(i)
        else:
            a = self._idx(i)
            b = a + 1
        self.c = seq_delete(self.c, a, b)

    def append(self, v):
        self._mut()
        self.c = seq_append(self.c, v)

    def extend(self, xs):
        self._mut()
        self.c = seq_concat(self.c, seq_of(xs))

    def __iadd__(self, xs):
        if self.tup:
            return self + xs
        self.extend(xs)
        return self

    def insert(self, i, v):
        self._mut()
        i = clamp_index(i, self.c.n, 0)
        self.c = seq_concat(seq_append(seq_slice(self.c, 0, i), v), seq_slice(self.c, i, self.c.n))

    def pop(self, i=-1):
        self._mut()
        i = self._idx(i)
        v = self.c.at(i)
        self.c = seq_delete(self.c, i, i + 1)
        return v

    def clear(self):
        self._mut()
        self.c = Seq([])

    def copy(self):
        return SList(self.c)

    def reverse(self):
        s = self.c
        self.c = Seq(s.items[::-1]) if s.concrete() else Seq(n=s.n, f=lambda i: s.at(s.n - 1 - i))

    def sort(self, **k):
        if self.c.concrete() and not any(isinstance(x, Sym) for x in self.c.items):
            self.c = Seq(sorted(self.c.items, **k))
        else:
            raise Unsupported("sorting symbolic values")

    def index(self, v):
        for i in range(len(self)):
            if self.c.at(i) == v:
                return i
        raise ValueError("not in list")

    def count(self, v):
        return sum(1 for x in self if x == v)

    def __add__(self, o):
        if isinstance(o, (SList, list, tuple)):
            return SList(seq_concat(self.c, seq_of(o)), self.tup)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return SList(seq_concat(seq_of(o), self.c), self.tup)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, int):
            r = Seq([])
            for _ in range(n):
                r = seq_concat(r, self.c)
            return SList(r, self.tup)
        if isinstance(n, SInt):
            if self.c.concrete() and len(self.c.items) == 1:
                v = self.c.items[0]
                m = ite(n > 0, n, 0)
                return SList(seq_const(m, v), self.tup)
            raise Unsupported("repetition of a list by a symbolic number")
        return NotImplemented
    __rmul__ = __mul__

    def __contains__(self, v):
        for x in self:
            if x is v or x == v:
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, (SList, list, tuple)):
            if (o.tup if isinstance(o, SList) else isinstance(o, tuple)) != self.tup:
                return False
            s, t = self.c, seq_of(o)
            if not (s.n == t.n):
                return False
            if isinstance(s.n, int) or isinstance(t.n, int):
                n = s.n if isinstance(s.n, int) else t.n
                return all(s.at(i) == t.at(i) for i in range(n))
            return eng().seq_equal(s, t)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __copy__(self):
        return SList(self.c, self.tup)

    def __deepcopy__(self, memo):
        return SList(self.c, self.tup)
    __hash__ = Sym.__hash__


class Star:
    """A sequence of symbolic length passed with * ."""

    def __init__(self, seq):
        self.seq = seq


class SRange(Sym):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def sym_len(self):
        if not (isinstance(self.s, int) and self.s in (1, -1)):
            if isinstance(self.s, int) and self.s < 0:
                raise Unsupported("range with a negative step")
            d = self.b - self.a
            return ite(d > 0, (d + (self.s - 1)) // self.s, 0)
        d = (self.b - self.a) * self.s
        return ite(d > 0, d, 0)

    def __sym_seq__(self):
        return Seq(n=self.sym_len(), f=lambda i: self.a + i * self.s)

    def __sym_iter__(self):
        return SeqCursor(self.__sym_seq__())

    def __iter__(self):
        s = self.__sym_seq__()
        if isinstance(s.n, int):
            return iter([s.at(i) for i in range(s.n)])
        raise Unsupported("native iteration over a symbolic range")

    def __getitem__(self, i):
        return SList(self.__sym_seq__(), True)[i]

    def __eq__(self, o):
        raise Unsupported("comparison of ranges")
    __hash__ = Sym.__hash__


class SGen(Sym):
    """A generator expression over a symbolic sequence."""
    __slots__ = ("fn", "src")

    def __init__(self, fn, src):
        self.fn, self.src = fn, src

    def seq(self):
        return Seq(n=self.src.n, f=lambda i: self.fn(self.src.at(i)))

    def __sym_iter__(self):
        return SeqCursor(self.seq())

    __sym_seq__ = seq
    __hash__ = Sym.__hash__


# ---- cursors: symbolic iterators; `step()` returns the next value or END
class _End:
    pass


END = _End()


class Cursor:
    def rest_seq(self):
        """What the iterator is going to yield, as a sequence (using it up)."""
        raise Unsupported("sequence of an iterator")

    def __sym_iter__(self):
        return self

    def __iter__(self):
        return self

    def __next__(self):
        v = self.step()
        if v is END:
            raise StopIteration
        return v


class SeqCursor(Cursor):
    def __init__(self, seq):
        self.seq, self.pos = seq, 0

    def rest_seq(self):
        p, self.pos = self.pos, self.seq.n
        return seq_slice(self.seq, p, self.seq.n)

    def step(self):
        if self.pos < self.seq.n:
            v = self.seq.at(self.pos)
            self.pos = self.pos + 1
            return v
        # the sequence does not change and the position only moves up to its length
        _at_end(self.pos, self.seq.n)
        return END


def _at_end(pos, n):
    if (isinstance(pos, SInt) or isinstance(n, SInt)) and R.cur is not None:
        R.cur.assume(pos == n)


class ListCursor(Cursor):
    def __init__(self, lst):
        self.lst, self.pos = lst, 0
        self._nosnap_c = lst.c

    def rest_seq(self):
        p, self.pos = self.pos, self.lst.c.n
        return seq_slice(self.lst.c, p, self.lst.c.n)

    def step(self):
        if self.pos < self.lst.c.n:
            v = self.lst.c.at(self.pos)
            self.pos = self.pos + 1
            return v
        if self.lst.c is self._nosnap_c:
            _at_end(self.pos, self.lst.c.n)
        return END


class Enumerate(Cursor):
    def __init__(self, inner, start=0):
        self.inner, self.i = inner, start

    def rest_seq(self):
        s, i0 = self.inner.rest_seq(), self.i
        return Seq(n=s.n, f=lambda i: (i0 + i, s.at(i)))

    def step(self):
        v = self.inner.step()
        if v is END:
            return END
        self.i = self.i + 1
        return (self.i - 1, v)


class Zip(Cursor):
    def __init__(self, inners):
        self.inners = inners

    def rest_seq(self):
        ss = [c.rest_seq() for c in self.inners]
        n = ss[0].n
        for x in ss[1:]:
            n = ite(x.n < n, x.n, n)
        return Seq(n=n, f=lambda i: tuple(x.at(i) for x in ss))

    def step(self):
        out = []
        for c in self.inners:
            v = c.step()
            if v is END:
                return END
            out.append(v)
        return tuple(out)


class MapCursor(Cursor):
    def __init__(self, fn, inner):
        self.fn, self.inner = fn, inner

    def rest_seq(self):
        s = self.inner.rest_seq()
        return Seq(n=s.n, f=lambda i: self.fn(s.at(i)))

    def step(self):
        v = self.inner.step()
        return END if v is END else self.fn(v)


class GenCursor(Cursor):
    """A cursor which passes for a generator."""

    def send(self, v):
        return self.__next__()

    def throw(self, *a):
        raise Unsupported("throw")

    def close(self):
        pass


class NativeCursor(Cursor):
    def __init__(self, it):
        self.it = iter(it)

    def step(self):
        return next(self.it, END)


def is_symbolic_iterable(x):
    if isinstance(x, SList):
        return not (x.c.concrete() or isinstance(x.c.n, int))
    if isinstance(x, SRange):
        return not isinstance(x.sym_len(), int)
    if isinstance(x, SGen):
        return not isinstance(x.src.n, int)
    return isinstance(x, Cursor) or hasattr(type(x), "__sym_iter__") or hasattr(type(x), "__sym_seq__")


def cursor(x):
    if hasattr(type(x), "__sym_iter__"):
        return x.__sym_iter__()
    if hasattr(type(x), "__sym_seq__"):
        return cursor(SList(x.__sym_seq__()))
    return NativeCursor(x)


# ------------------------------------------------------------------------------------------------ locations
def shape(v):
    if v is None:
        return "none"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (float, SReal)):
        return "real"
    if isinstance(v, SVal):
        return "val"
    if isinstance(v, SList):
        return ("tuple" if v.tup else "list", )
    r = getattr(type(v), "_ref", None)
    if r:
        return ("ref", r)       # one of the objects of the contract: what matters is which one
    if isinstance(v, tuple):
        return ("tup",) + tuple(shape(x) for x in v)
    return "other"


class Loop:
    def __init__(self, id, names, cut, it=None):
        self.id, self.names, self.cut, self.it = id, names, cut, it
        self.entered = False
        self.k = 0
        self.cursor = None

    def step(self):
        return self.cursor.step()


class Engine:
    FEAS_MS, PROVE_MS = 800, 6000
    AGAIN = 12

    def __init__(self, contract, budget=120):
        self.contract = contract
        self.all_imprecise = set()
        self.black = {}          # (loop, loc) -> number of dropped candidates
        self.mods = {}           # loop -> set of locations
        self.dropinv = set()     # (loop, invariant name)
        self.nest = set()        # (loop, loop within it)
        self.at_entry = {}       # (loop, loc) -> the first candidate which was passed over because it does not hold at the start
        self.spans = {}
        self.shapes = {}         # (loop, loc) -> set of shapes
        self.xroots = {}
        self.deadline = time.time() + budget
        self.solver_s = 0.0
        self.n_queries = 0
        self.backends = {}
        self.restarts = 0
        self.weak = []           # invariant candidates dropped because the solver gave no answer
        self.log = []
        self.kinds = {}
        self.resets = {}         # how often candidates were tried again
        self.unrolled = None     # (number of decisions, rounds of loops): no loop is cut; paths are given up beyond this

    WARM = ("mods", "black", "dropinv", "nest", "at_entry", "shapes", "kinds")

    def learnt(self):
        """Which locations the loops change and which invariant candidates do not hold: a later run can start from it. It is only ever a
        starting point: every invariant used is checked again."""
        import ast
        t = repr({k: getattr(self, k) for k in self.WARM})
        try:
            ast.literal_eval(t)
        except (ValueError, SyntaxError):
            return None
        return t

    def start_from(self, t):
        import ast
        for k, v in ast.literal_eval(t).items():
            setattr(self, k, v)

    # ---- exploration
    def explore(self):
        prev = R.cur
        R.cur = self
        try:
            while True:
                try:
                    return self._explore()
                except Restart:
                    self.restarts += 1
                    if self.restarts > 400:
                        raise Unsupported("too many invariant candidates")
        finally:
            R.cur = prev

    def search(self, budget, depths=(10, 16, 24, 36, 54, 80)):
        """Looks for obligations which fail on paths from the initial state, with loops run round by round (nothing is assumed about them):
        only failures count."""
        prev = R.cur
        R.cur = self
        end = time.time() + budget
        done = []
        try:
            for n in depths:
                self.unrolled, self.deadline = (n, max(4, n // 3)), end
                self.more = False
                try:
                    self._explore()
                except Unsupported:
                    pass
                done.append((n, self.paths))
                bad = {k: r[1] for k, rs in self.obl.items() for r in rs if r[0] == "refuted" and not r[1].get("weak")}
                if bad or time.time() > end or not self.more:
                    return bad, done
            return {}, done
        finally:
            self.unrolled = None
            R.cur = prev

    def _explore(self):
        self.obl = {}            # name -> list of (status, detail)
        self.covers = {}
        self.visited = set()
        self.relshape = {}
        self.paths = 0
        self.unsup = []
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if time.time() > self.deadline:
                raise Unsupported("time budget of the contract is used up")
            self.prefix, self.trace, self.pos = prefix, [], 0
            self._begin()
            self.paths += 1
            self.rounds = 0
            if self.paths > (4000 if self.unrolled is None else 40000):
                raise Unsupported("too many paths")
            try:
                self.contract.run(self)
            except PathEnd:
                pass
            except Unsupported as e:
                # other paths may still show that an invariant has to be another one
                self.unsup.append(str(e))
                if not self.visited and self.unrolled is None:
                    raise
            except (Restart, KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                try:
                    self._exception(e)
                except Unsupported as e:
                    self.unsup.append(str(e))
                    if not self.visited and self.unrolled is None:
                        raise
            finally:
                self.contract.cleanup(self)
            if _os.environ.get("PYVC_DEBUG") == "2":
                print("TRACE", self.paths, len(prefix), len(self.trace), [(str(c)[:60], a) for c, a in self.trace], [(l.id[-12:], len(self.pc)) for l in self.loops])
            if self.aborted is not None:
                raise self.aborted
            for i in range(len(prefix), len(self.trace)):
                c, alts = self.trace[i]
                for a in alts:
                    stack.append([x[0] for x in self.trace[:i]] + [a])
        if self.unsup:
            raise Unsupported(self.unsup[0])
        return self

    def _begin(self):
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.pc = []
        self.names = {}
        self.cnt = {}
        self.ghost = Ghost()
        self.roots = {"ghost": self.ghost}
        self.roots.update(self.xroots)
        self.inputs = {}
        self.imprecise = []
        self.aborted = None
        self.divs, self.prods, self.quots = [], [], []
        self.lazy = [] if getattr(self.contract, "lazy", False) else None       # non-linear definitions, used only where nothing else helps
        self.consts = set()
        self.loops = []
        self.hints, self.invs, self.free = None, None, ()
        self.preset = ()         # ghost fields which a loop changes if a loop within it does (as it is for named values)
        self.rels, self.where = None, None       # templates: a location as a function of another one; facts about a number
        self.ghosts = set()
        self.refs = {}
        self.indices = {}
        self.filters = []
        self.witness = []
        self.assert_depth = 0

    def _exception(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/megatron/energon/" in f.filename]
        last = tb[-1] if tb else None
        loc = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else "?"
        if isinstance(e, (TypeError, AttributeError, NameError)) and not isinstance(e, UnboundLocalError) or not where or isinstance(e, (z3.Z3Exception, NotImplementedError, RecursionError)):
            raise Unsupported(f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}" if last else repr(e))
        self.record(f"no {type(e).__name__} is raised in {where[-1].name}", z3.BoolVal(False), f"{type(e).__name__}: {e}"[:300] + f" ({loc}:{where[-1].lineno})")

    # ---- path condition
    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def define(self, e):
        self.add(e)

    def use_const(self, key):
        if key not in self.consts:
            for o in self.consts:
                self.add(_consts[o] != _consts[key])
            self.consts.add(key)

    def check(self, e, ms=None):
        t = time.time()
        self.n_queries += 1
        self.solver.push()
        self.solver.add(e)
        self.solver.set("timeout", ms or self.FEAS_MS)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        return r, m

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((c, []))
            self.add(e if c else z3.Not(e))
            return c
        self._deep()
        self.pos += 1
        t = self.check(e)[0] != z3.unsat
        f = self.check(z3.Not(e))[0] != z3.unsat
        if not t and not f:
            raise PathEnd
        c = t
        self.trace.append((c, [False] if t and f else []))
        self.add(e if c else z3.Not(e))
        return c

    def choose(self, n):
        """Non-deterministic choice of 0 .. n-1."""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((c, []))
            return c
        self._deep()
        self.pos += 1
        self.trace.append((0, list(range(n - 1, 0, -1))))
        return 0

    def _deep(self):
        if self.unrolled is not None and len(self.trace) >= self.unrolled[0]:
            self.more = True
            raise PathEnd

    def fresh_name(self, base):
        self.cnt[base] = self.cnt.get(base, 0) + 1
        return f"{base}!{self.cnt[base]}"

    def fresh_int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def int(self, name, lo=None, hi=None):
        v = SInt(z3.Int(name))
        self.inputs[name] = v.e
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v < hi)
        return v

    def bool(self, name):
        v = SBool(z3.Bool(name))
        self.inputs[name] = v.e
        return v

    def real(self, name):
        v = SReal(z3.Real(name))
        self.inputs[name] = v.e
        return v

    def val(self, name):
        return SVal(z3.Const(name, U))

    def stream(self, name, n=None):
        """An arbitrary sequence of opaque values."""
        f = z3.Function(name, z3.IntSort(), U)
        return Seq(n=n if n is not None else z3_inf(self), f=lambda i: SVal(f(num(i))))

    def int_stream(self, name, n, fact=None):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        return Seq(n=n, f=lambda i: mkint(f(num(i))), facts=(fact,) if fact else ())

    def bool_stream(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        return Seq(n=n, f=lambda i: mkbool(f(num(i))))

    def assume(self, c):
        c = b3(c)
        if z3.is_true(c):
            return
        self.add(c)
        if self.pos >= len(self.prefix):
            if self.check(z3.BoolVal(True))[0] == z3.unsat:
                raise PathEnd

    def assume_value(self, c):
        c = b3(c)
        if not z3.is_true(c):
            self.add(c)

    # ---- obligations
    def valid(self, c, ms=None):
        """(status, model): status in discharged / refuted / undecided."""
        c = b3(c)
        if z3.is_true(c):
            return "discharged", None, "simplifier"
        r, m = self.check(z3.Not(c), ms or self.PROVE_MS)
        if r == z3.unsat:
            return "discharged", None, "z3"
        if self.lazy:
            r, m = self.check(z3.And(z3.Not(c), *self.lazy), ms or self.PROVE_MS)
            if r == z3.unsat:
                return "discharged", None, "z3"
        if r == z3.sat:
            return "refuted", m, "z3"
        t = time.time()
        r = cvc5_check(self.pc + (self.lazy or []) + [z3.Not(c)])
        self.solver_s += time.time() - t
        if r == "unsat":
            return "discharged", None, "cvc5"
        return "undecided", None, "none"

    def record(self, name, c, detail=None):
        st, m, be = self.valid(c)
        self.backends[be] = self.backends.get(be, 0) + 1
        d = None
        if st != "discharged":
            d = {"model": {k: str(m.eval(v, model_completion=True)) for k, v in self.inputs.items()} if m is not None else None, "detail": detail, "imprecise": list(self.imprecise), "weak": list(self.weak)}
        self.obl.setdefault(name, []).append((st, d))
        return st

    def prove(self, name, c, detail=None):
        """A named obligation; the path goes on with the fact."""
        st = self.record(name, c, detail)
        if st != "discharged":
            self.add(b3(c))
            if self.check(z3.BoolVal(True))[0] == z3.unsat:
                raise PathEnd
        return st

    def expect(self, name, c):
        """A fact about the representation which the proof needs, but which the property does not ask for: never refuted, only undecided."""
        if self.valid(c)[0] != "discharged":
            raise Unsupported(name)
        self.add(b3(c))
        self.obl.setdefault(name, []).append(("discharged", None))
        self.backends["z3"] = self.backends.get("z3", 0) + 1

    def expect_eq(self, name, a, b):
        self._eq(a, b, lambda c, d: self.expect(name, c), name)

    def lemma(self, name, c):
        """An intermediate step (a cut): used as a fact if it is valid, not used otherwise (what the code must do is stated by prove only)."""
        st = self.valid(c)[0]
        if st == "discharged":
            self.add(b3(c))
            self.obl.setdefault("step: " + name, []).append((st, None))

    def cover(self, name):
        if not self.covers.get(name):
            self.covers[name] = self.check(z3.BoolVal(True), 3000)[0] == z3.sat

    def branch(self):
        """True on a side branch for a check (which must end with PathEnd), False on the main path."""
        return self.choose(2) == 0

    def prove_eq(self, name, a, b, detail=None):
        """Structural equality as obligation."""
        self._eq(a, b, lambda c, d: self.prove(name, c, d or detail), name)

    def _eq(self, a, b, sink, what, depth=0):
        if a is b:
            sink(True, None)
            return
        if isinstance(a, Poison) or isinstance(b, Poison):
            sink(False, f"{what}: variable of an earlier iteration")
            return
        if isinstance(a, (SList, Seq, list, tuple)) and isinstance(b, (SList, Seq, list, tuple)):
            ta = a.tup if isinstance(a, SList) else isinstance(a, tuple) if not isinstance(a, Seq) else None
            tb = b.tup if isinstance(b, SList) else isinstance(b, tuple) if not isinstance(b, Seq) else None
            if ta is not None and tb is not None and ta != tb:
                sink(False, f"{what}: list against tuple")
                return
            s, t = seq_of(a), seq_of(b)
            if s is t:
                sink(True, None)
                return
            sink(s.n == t.n, f"{what}: lengths {s.n!r} and {t.n!r}")
            n = s.n if isinstance(s.n, int) else t.n if isinstance(t.n, int) else None
            if n is not None and n <= 6:
                for i in range(n):
                    self._eq(s.at(i), t.at(i), sink, f"{what}[{i}]", depth + 1)
                return
            if self.branch():
                k = SInt(self.fresh_int("k"))
                self.assume(and_(k >= 0, k < s.n, k < t.n))
                self._eq(s.at(k), t.at(k), sink, f"{what}[k]", depth + 1)
                raise PathEnd
            return
        if isinstance(a, Sym) or isinstance(b, Sym):
            if (isinstance(a, (SList, Seq)) or isinstance(b, (SList, Seq))):
                sink(False, f"{what}: {type(a).__name__} against {type(b).__name__}")
                return
            if a is None or b is None:
                sink(False, f"{what}: None against {b if a is None else a!r}")
                return
            if isinstance(a, SVal) != isinstance(b, SVal):
                sink(SVal(box(a)) == SVal(box(b)), f"{what}: {a!r} against {b!r}")
                return
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                sink(iff(a, b), what)
                return
            sink(a == b, f"{what}: {a!r} against {b!r}"[:300])
            return
        if dataclasses.is_dataclass(a) and dataclasses.is_dataclass(b) and (isinstance(a, type(b)) or isinstance(b, type(a))) and not isinstance(a, type) and not isinstance(b, type):
            for f in dataclasses.fields(a if isinstance(b, type(a)) else b):
                self._eq(getattr(a, f.name), getattr(b, f.name), sink, f"{what}.{f.name}", depth + 1)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                sink(False, f"{what}: keys {list(a)} against {list(b)}")
                return
            for k in a:
                self._eq(a[k], b[k], sink, f"{what}[{k!r}]", depth + 1)
            return
        sink(bool(type(a) is type(b) and a == b), f"{what}: {text(a)} against {text(b)}"[:300])

    def seq_equal(self, s, t):
        """Equality of two sequences of symbolic length as a value: forks into equal / different somewhere."""
        if self.choose(2) == 0:
            k = SInt(self.fresh_int("k"))
            self.assume(and_(k >= 0, k < s.n))
            if s.at(k) == t.at(k):
                raise PathEnd
            return False
        raise Unsupported("equality of sequences of symbolic length")

    # ---- opaque values
    def opaque_attr(self, v, name):
        h = getattr(self.contract, "opaque_attr", None)
        if h:
            r = h(self, v, name)
            if r is not NotImplemented:
                return r
        return app(f"attr.{name}", v)

    def opaque_item(self, v, i):
        h = getattr(self.contract, "opaque_item", None)
        if h:
            r = h(self, v, i)
            if r is not NotImplemented:
                return r
        return app("item", v, i)

    def opaque_bool(self, v):
        return self.decide(b3(predicate("truth", v)))

    def isinstance(self, v, cls):
        h = getattr(self.contract, "isinstance", None)
        if h:
            r = h(self, v, cls)
            if r is not NotImplemented:
                return r
        if isinstance(cls, tuple):
            return or_(*[self.isinstance(v, c) for c in cls])
        return predicate(f"is.{getattr(cls, '__name__', cls)}", v)

    def hasattr(self, v, name):
        h = getattr(self.contract, "hasattr", None)
        if h:
            r = h(self, v, name)
            if r is not NotImplemented:
                return r
        return predicate(f"has.{name}", v)

    # ---- heap
    def snapshot(self, loc):
        """{location: (setter, value)} of everything reachable from the roots and the local variables."""
        out, seen = {}, {}
        work = []

        def put(path, value, setter):
            out[path] = (setter, value, None)
            work.append((path, value))
        for n, v in loc.items():
            if n.startswith("_pv_"):
                if isinstance(v, Loop) and v.cursor is not None and v.cut:
                    work.append((f"L.{v.id}", v.cursor))
                continue
            put(("L", n), v, None)
        for n, o in self.roots.items():
            work.append((n, o))
        while work:
            path, o = work.pop()
            if isinstance(o, (SInt, SReal, SBool, SVal, Poison, int, float, str, bytes, bool, type(None), z3.AstRef)):
                continue
            if id(o) in seen:
                continue
            seen[id(o)] = o
            p = path if isinstance(path, str) else "L:" + path[1]
            if isinstance(o, SList):
                out[(p, "[*]")] = (lambda c, o=o: setattr(o, "c", c), o.c, o)
                if o.c.concrete():
                    for i, x in enumerate(o.c.items):
                        work.append((f"{p}[{i}]", x))
                continue
            if isinstance(o, (Star, Loop)):
                continue
            if isinstance(o, tuple):
                for i, x in enumerate(o):
                    work.append((f"{p}[{i}]", x))
                continue
            if isinstance(o, list):
                out[(p, "[native]")] = (None, tuple(o), o)
                for i, x in enumerate(o):
                    work.append((f"{p}[{i}]", x))
                continue
            if isinstance(o, dict):
                out[(p, "{native}")] = (None, tuple(o.items()), o)
                for i, (k, x) in enumerate(o.items()):
                    work.append((f"{p}[{k!r}]", x))
                continue
            if isinstance(o, (set, frozenset)):
                out[(p, "{set}")] = (None, tuple(o), o)
                continue
            if isinstance(o, types.FunctionType):
                for i, cell in enumerate(o.__closure__ or ()):
                    try:
                        x = cell.cell_contents
                    except ValueError:
                        continue
                    if o.__code__.co_freevars[i] not in loc or loc[o.__code__.co_freevars[i]] is not x:
                        out[(p, f"cell {o.__code__.co_freevars[i]}")] = ((lambda v, cell=cell: setattr(cell, "cell_contents", v)), x, o)
                    work.append((f"{p}.{o.__code__.co_freevars[i]}", x))
                continue
            if isinstance(o, types.MethodType):
                work.append((p + ".self", o.__self__))
                work.append((p + ".func", o.__func__))
                continue
            if isinstance(o, types.GeneratorType):
                fr = o.gi_frame
                out[(p, "generator")] = (None, fr.f_lasti if fr is not None else -2, o)
                if fr is not None and not o.gi_running:
                    for k, x in fr.f_locals.items():
                        work.append((f"{p}.{k}", x))
                continue
            if isinstance(o, Seq):
                continue
            mod = type(o).__module__ or ""
            if isinstance(o, type):
                if o.__module__.startswith("megatron.energon"):
                    for k, x in vars(o).items():
                        if not k.startswith("__") and not callable(x) and not isinstance(x, (property, staticmethod, classmethod)):
                            out[(p, k)] = ((lambda v, o=o, k=k: setattr(o, k, v)), x, o)
                            work.append((f"{p}.{k}", x))
                continue
            if mod.startswith(("megatron.energon", "contracts", "c", "pyvc", "eng", "lib", "types")) and hasattr(o, "__dict__") and not isinstance(o, types.ModuleType) and not isinstance(o, Engine):
                for k, x in list(vars(o).items()):
                    if k.startswith("_nosnap"):
                        continue
                    out[(p, k)] = ((lambda v, o=o, k=k: o.__dict__.__setitem__(k, v)), x, o)
                    work.append((f"{p}.{k}", x))
        self.snap_seen = seen
        return out

    # ---- loops
    def loop_cut(self, loop_id):
        f = getattr(self.contract, "unroll", None)
        return not (f and f(loop_id))

    def _rels(self):
        return dict(self.rels(self)) if self.rels is not None else {}

    @staticmethod
    def _fits(sh, v):
        return sh in (("list",), ("tuple",)) if isinstance(v, Seq) else sh == shape(v)

    def _rel(self, name, b, v):
        """Value of a template for a location whose value is v (None if it does not fit)."""
        x = self._rels()[name](b)
        if x is None or not self._fits(shape(x), v):
            return None
        return x.c if isinstance(v, Seq) else x

    def _rel_cands(self, loop, key, v):
        """Templates applied to the other numbers which the loop changes."""
        out = []
        if self.rels is None or self.is_ghost(key):
            return out
        for name, fn in self._rels().items():
            if loop.bases and self.relshape.get(name) is None:
                self.relshape[name] = shape(fn(loop.basevals[loop.bases[0]]))
            for b in loop.bases:
                if b != key and self._fits(self.relshape[name], v):
                    out.append(("rel", name, b))
        return out

    def _cands(self, loop, key, v):
        """Names of the invariant candidates for a location (a hint "name|text" is for locations whose path contains the text)."""
        g = self.is_ghost(key)
        if g and key[-1] in self.free or not g and ".".join(map(str, key)) in self.free:
            return ["fresh"]        # the contract's invariants say all about it
        sh = self.shapes.get((loop.id, key), {shape(v) if not isinstance(v, Seq) else "seq"})
        out = []
        hints = {h: x for h, x in self._hints().items() if "|" not in h or h.split("|")[1] in ".".join(map(str, key))}
        own = [h for h in hints if h[0] == "!"]
        if own and not g:           # the contract names the value of this location
            return ([] if self.preset else ["same"]) + [x for h in own for x in ([f"@{ix}:{h}" for ix in self.indices] if sh == {"seq"} and not isinstance(hints[h], (Seq, SList)) else [h])] + ["fresh"]
        if "int" in sh and len(sh) == 1:
            out = ["same", "lin1", "lin-1"]
            if not g:
                out += [h for h, x in hints.items() if shape(x) == "int"]
                out += self._rel_cands(loop, key, v)
        elif sh == {"seq"} or isinstance(v, SList) or ("list",) in sh or ("tuple",) in sh:
            out = ["same"] + [h for h, x in hints.items() if isinstance(x, (Seq, SList))]
            if sh == {"seq"}:
                hs = [h for h, x in hints.items() if not isinstance(x, (Seq, SList))]
                out += [f"@{ix}:{h}" for ix in self.indices for h in ["lin1"] + hs + ["fresh"]] + ["samelen"]
            out += self._rel_cands(loop, key, v)
        else:
            out = ["same"] + [h for h, x in hints.items() if shape(x) in sh] + self._rel_cands(loop, key, v)
        return out + ["fresh"]

    def is_ghost(self, key):
        """Locations of the specification: ghost variables and the state of stubs (classes with _ghost)."""
        return key in self.ghosts or str(key[0]).startswith("ghost")

    def _hints(self):
        if self.hints is None:
            return {}
        return dict(self.hints(self))

    def _value(self, loop, key, cand, entry, shapes):
        """The value a location has in an arbitrary iteration according to the candidate."""
        if cand == "same":
            return entry
        if cand == "lin1":
            return entry + loop.k
        if cand == "lin-1":
            return entry - loop.k
        if cand[0] == "@":
            ix, h = cand[1:].split(":", 1)
            i = self.indices[ix]
            e = entry.at(i)
            if h == "fresh":
                x = self.fresh_of(self.shapes.setdefault((loop.id, key, ix), {shape(e)}), key + (ix,), e)
            else:
                x = self._value(loop, key, h, e, shapes)
            return seq_store(entry, i, x)
        if cand == "samelen":
            x = self.fresh("seq", key, entry)
            return Seq(n=entry.n, f=x.f) if not isinstance(entry.n, int) else Seq([x.f(i) for i in range(entry.n)])
        if cand == "fresh":
            sh = sorted(map(str, shapes))
            return self.fresh_of(shapes, key, entry)
        h = self._hints()[cand]
        if isinstance(h, Seq) and not isinstance(entry, Seq):
            return SList(h, any(s == ("tuple",) for s in shapes) and ("list",) not in shapes)
        if isinstance(entry, Seq) and isinstance(h, SList):
            return h.c
        return h

    def fresh_of(self, shapes, key, entry):
        shs = sorted(shapes, key=str)
        return self.fresh(shs[self.choose(len(shs)) if len(shs) > 1 else 0], key, entry)

    def fresh(self, s, key, entry):
        nm = "h." + ".".join(map(str, key))
        if s == "int":
            return SInt(self.fresh_int(nm))
        if s == "bool":
            return SBool(z3.Bool(self.fresh_name(nm)))
        if s == "real":
            return SReal(z3.Real(self.fresh_name(nm)))
        if s == "val":
            return SVal(z3.Const(self.fresh_name(nm), U))
        if s == "none":
            return None
        if s in ("seq", ("list",), ("tuple",)):
            n = SInt(self.fresh_int(nm + ".n"))
            self.assume(n >= 0)
            ek = self.elem_kind(entry, key)
            f = z3.Function(self.fresh_name(nm), z3.IntSort(), {"int": z3.IntSort(), "bool": z3.BoolSort()}.get(ek, U))
            w = {"int": mkint, "bool": mkbool}.get(ek, SVal)
            q = Seq(n=n, f=lambda i: w(f(num(i))))
            return q if s == "seq" else SList(q, s == ("tuple",))
        if isinstance(s, tuple) and s[0] == "ref":
            return self.refs[s[1]]
        if isinstance(s, tuple) and s[0] == "tup":
            return tuple(self.fresh(x, key + (i,), None) for i, x in enumerate(s[1:]))
        if key[0] == "L":
            return Poison(key[1])
        raise Unsupported(f"cannot generalise {key} of kind {s} over a loop")

    def elem_kind(self, entry, key=None):
        try:
            q = seq_of(entry) if entry is not None else None
            if q is None or isinstance(q.n, int) and q.n == 0:
                return self.kinds.get(key, "val")
            k = shape(q.at(0))
            self.kinds.setdefault(key, k)
            return k
        except (Unsupported, PathEnd):
            return "val"

    def _drop(self, loop, key):
        self.black[(loop.id, key)] = self.black.get((loop.id, key), 0) + 1
        self.log.append(f"{loop.id} {key}: candidate {loop.cand.get(key)} dropped")
        if not isinstance(loop.cand.get(key), tuple):
            # templates on this location are tried again
            for m, cs in loop.cs.items():
                r = [i for i, c in enumerate(cs) if isinstance(c, tuple) and c[2] == key]
                if r and m != key and self.black.get((loop.id, m), 0) > r[0]:
                    self.black[(loop.id, m)] = r[0]
        # what was dropped under the assumption of this candidate gets another chance
        outer = {l.id for l in self.loops[:self.loops.index(loop)] if self._encloses(l.id, loop.id)} - {loop.id}
        ghost = self.is_ghost(key)
        self.dropinv = {d for d in self.dropinv if d[0] not in outer and d[0] != loop.id and not (d[1][0] == "where" and key in loop.bases)}
        for k in [k for k in self.black if k[0] in outer or ghost and k[0] == loop.id and not self.is_ghost(k[1])]:
            self._again(k, 0)
        self._retry(loop)
        raise Restart

    def _retry(self, loop):
        """What loops within or after this one passed over because it did not hold at their start is tried again."""
        for k, i in list(self.at_entry.items()):
            if k[0] != loop.id and (self._encloses(loop.id, k[0]) or self._follows(loop.id, k[0])):
                if self.black.get(k, 0) > i:
                    self._again(k, i)
                del self.at_entry[k]

    def _again(self, k, i):
        """The candidates for a location are tried again from candidate i on (not endlessly: candidates of loops within each other may depend on each other)."""
        self.resets[k] = self.resets.get(k, 0) + 1
        if self.resets[k] <= self.AGAIN:
            if i:
                self.black[k] = i
            else:
                del self.black[k]

    @staticmethod
    def _follows(a, b):
        (fa, la, ea), (fb, lb, eb) = (x.rsplit(":", 2) for x in (a, b))
        return fa == fb and int(lb) > int(ea)

    @staticmethod
    def _encloses(a, b):
        """Whether loop a can be running while loop b is entered (only then b was entered under a's invariants)."""
        (fa, la, ea), (fb, lb, eb) = (x.rsplit(":", 2) for x in (a, b))
        return fa != fb or int(la) <= int(lb) <= int(ea)

    def _entry_ok(self, loop, m, c, v, snap):
        """Whether the candidate holds when the loop is entered."""
        ok = [True]

        def fail():
            ok[0] = False
        if isinstance(c, tuple):
            b = snap[c[2]][1]
            x = self._rel(c[1], b, v)
            if x is None:
                return False
            self._silent(v, x, fail)
        elif c[0] == "@":
            ix, h = c[1:].split(":", 1)
            j = self.indices[ix]
            if not (isinstance(v, Seq) and (isinstance(j, int) and isinstance(v.n, int) and j < v.n or self.valid(and_(j >= 0, j < v.n), 2500)[0] == "discharged")):
                return False
            e = v.at(j)
            if h == "lin1" and shape(e) != "int":
                return False
            if h not in ("lin1", "fresh"):
                self._silent(e, self._hints()[h], fail)
        elif c == "samelen":
            return isinstance(v, Seq)
        elif c not in ("same", "fresh", "lin1", "lin-1"):
            self._silent(v, self._hints()[c], fail)
        elif c in ("lin1", "lin-1") and shape(v) != "int":
            return False
        return ok[0]

    def _silent(self, a, b, fail):
        def sink(c, d):
            st = self.valid(c, 2500)[0]
            if st == "undecided":
                self.weak.append(d)
            if st != "discharged":
                if _os.environ.get("PYVC_DEBUG") == "3":
                    print("== NOT EQUAL", d, st, str(c)[:300], "|", text(a)[:300], "|", text(b)[:300])
                    for x in self.pc:
                        print("     ", str(x)[:200].replace("\n", " "))
                fail()
        self._eq(a, b, sink, "inv")

    def _invs(self, loop):
        """The contract's invariants ("name|function": for the loops of this function only)."""
        xs = list(self.invs(self)) if self.invs is not None else []
        return [(n, c) for n, c in xs if "|" not in n or n.split("|")[1] == loop.id.rsplit(":", 2)[0].rsplit(".", 1)[-1]]

    def note_imprecise(self, loop, what):
        """From here on nothing is known about a location (or a stated invariant is not used): a refutation on this path may be due to that."""
        k = loop.id.rsplit(":", 2)[0] + " " + str(what)
        self.imprecise.append(k)
        self.all_imprecise.add(k)

    def head(self, loop, loc):
        if self.unrolled is not None:
            self.rounds += 1
            if self.rounds > self.unrolled[1]:
                self.more = True
                raise PathEnd
            return None
        loc = {k: v for k, v in loc.items()}
        if not loop.entered:
            loop.entered = True
            loop.frame = f = sys._getframe(2)
            on = set()
            while f is not None:
                on.add(f)
                f = f.f_back
            self.nest.update((l.id, loop.id) for l in self.loops if l.frame in on and l.id != loop.id and (l.frame is not loop.frame or self._encloses(l.id, loop.id)))
            self.loops.append(loop)
            snap = self.snapshot(loc)
            mods = self.mods.setdefault(loop.id, set())
            loop.k = 0
            loop.entry = {}
            loop.cand = {}
            loop.cs = {}
            self.ghosts.update(m for m, t in snap.items() if getattr(type(t[2]), "_ghost", False) or isinstance(t[2], Cursor))
            if self.preset:         # what a loop within this one changes is changed by this one
                own = [h.split("|")[1] for h in self._hints() if h[0] == "!"]
                for l, ms in self.mods.items():
                    if (loop.id, l) in self.nest:
                        mods |= {m for m in ms if m in snap and (self.is_ghost(m) and m[-1] in self.preset or any(t in ".".join(map(str, m)) for t in own))}
            order = sorted((m for m in mods if m in snap), key=lambda m: (not self.is_ghost(m), str(m)))
            order = [m for m in order if not isinstance(snap[m][1], Poison)]
            loop.bases = [m for m in order if shape(snap[m][1]) == "int" and self.shapes.get((loop.id, m), {"int"}) == {"int"}]
            loop.basevals = {m: snap[m][1] for m in loop.bases}
            first = loop.id not in self.visited
            self.visited.add(loop.id)
            wh = []
            missing = [m for m in mods if (m not in snap or isinstance(snap[m][1], Poison)) and m[0] == "L"]
            invs = [(n, c) for n, c in self._invs(loop) if (loop.id, n) not in self.dropinv]
            for n, c in invs:
                if self.valid(c, 2500)[0] != "discharged":
                    self.dropinv.add((loop.id, n))
                    self.log.append(f"{loop.id}: invariant {n} does not hold at the start")
                    raise Restart
            for m in order:
                v = snap[m][1]
                sh, known = shape(v) if not isinstance(v, Seq) else "seq", self.shapes.setdefault((loop.id, m), set())
                if sh not in known:
                    known.add(sh)
                    if not first:
                        raise Restart
                if isinstance(v, Seq) and self.preset:
                    self.elem_kind(v, m)
                cs = loop.cs[m] = self._cands(loop, m, v)
                while True:
                    i = self.black.get((loop.id, m), 0)
                    if i >= len(cs):
                        raise Unsupported(f"no invariant for {m}")
                    loop.cand[m] = cs[i]
                    loop.entry[m] = v
                    p0 = self.pos
                    if self._entry_ok(loop, m, cs[i], v, snap):
                        break
                    if self.preset:
                        self.at_entry.setdefault((loop.id, m), i)
                    if not first or self.pos != p0:
                        self._drop(loop, m)
                    self.log.append(f"{loop.id} {m}: {cs[i]} does not hold at the start")
                    self.at_entry.setdefault((loop.id, m), i)
                    self.black[(loop.id, m)] = i + 1
                if self.where is not None and m in loop.bases:
                    for n, c in self.where(self, v).items():
                        k = (loop.id, ("where", m, n))
                        if k in self.dropinv:
                            continue
                        if self.valid(c, 2500)[0] != "discharged":
                            self.dropinv.add(k)
                            if not first:
                                raise Restart
                        else:
                            wh.append((m, n, k))
            # an arbitrary iteration
            loop.k = SInt(self.fresh_int("iter"))
            self.assume(loop.k >= 0)
            res = {}
            poison = {m[1] for m in missing}

            cur = {}

            def setloc(m, val):
                cur[m] = val
                s = snap[m][0]
                if m[0] == "L":
                    res[m[1]] = val
                elif s is None:
                    raise Unsupported(f"{m} is changed in a loop")
                else:
                    s(val)
            for m in [m for m in order if self.is_ghost(m)]:
                setloc(m, self._value(loop, m, loop.cand[m], loop.entry[m], self.shapes[(loop.id, m)]))
            rel = lambda m: isinstance(loop.cand[m], tuple)
            isf = lambda m: not rel(m) and (loop.cand[m] in ("fresh", "samelen") or loop.cand[m].endswith(":fresh"))
            for m in [m for m in order if not self.is_ghost(m) and isf(m)]:
                self.note_imprecise(loop, m)
                setloc(m, self._value(loop, m, loop.cand[m], loop.entry[m], self.shapes[(loop.id, m)]))
            for m in [m for m in order if not self.is_ghost(m) and not isf(m) and not rel(m)]:
                setloc(m, self._value(loop, m, loop.cand[m], loop.entry[m], self.shapes[(loop.id, m)]))
            left = [m for m in order if rel(m)]
            while left:
                now = [m for m in left if loop.cand[m][2] in cur]
                if not now:
                    self._drop(loop, left[0])       # templates in a circle
                for m in now:
                    setloc(m, self._rel(loop.cand[m][1], cur[loop.cand[m][2]], snap[m][1]))
                    left.remove(m)
            # hints and templates may depend on each other's locations: evaluate them until they are consistent
            dep = [m for m in order if rel(m) or not isf(m) and loop.cand[m] not in ("same", "lin1", "lin-1") and not (loop.cand[m][0] == "@" and loop.cand[m].endswith((":lin1", ":lin-1")))]
            quiet = 0
            for rnd in range(12):
                moved = None
                for m in dep:
                    if rel(m):
                        x = self._rel(loop.cand[m][1], cur[loop.cand[m][2]], snap[m][1])
                        if x is None:
                            self._drop(loop, m)
                    else:
                        x = self._value(loop, m, loop.cand[m], loop.entry[m], self.shapes[(loop.id, m)])
                    o, y = cur[m], x
                    if not rel(m) and loop.cand[m][0] == "@":
                        i = self.indices[loop.cand[m][1:].split(":", 1)[0]]
                        o, y = o.at(i), x.at(i)
                    if not isinstance(y, Seq) and not isinstance(y, SList) and not _same_value(o, y):
                        moved = m
                    setloc(m, x)
                quiet = 0 if moved else quiet + 1
                if quiet >= (2 if dep else 1):
                    break
            else:
                self._drop(loop, moved)
            for n, c in self._invs(loop):
                if (loop.id, n) not in self.dropinv:
                    self.assume(c)
                else:
                    self.note_imprecise(loop, "invariant " + n)
            for m, n, k in wh:
                self.assume(self.where(self, cur[m])[n])
            loop.wh = wh
            for n in poison:
                res[n] = Poison(n)
            loop.snap = self.snapshot(dict(loc, **{k: v for k, v in res.items()}))
            loop.seen = self.snap_seen
            return res
        # ---- back edge
        now = self.snapshot(loc)
        k0, loop.k = loop.k, loop.k + 1
        mods = self.mods[loop.id]
        grown = False
        for m, (s, v, owner) in now.items():
            if m not in loop.snap and owner is not None and id(owner) in loop.seen and isinstance(m[1], str) and m[1][0] not in "[{":
                raise Unsupported(f"{m} comes into existence in a loop")
            if m in loop.snap:
                if not _ident(loop.snap[m][1], v) and m not in mods:
                    mods.add(m)
                    self.shapes.setdefault((loop.id, m), set()).add(shape(v) if not isinstance(v, Seq) else "seq")
                    self.log.append(f"{loop.id}: {m} is modified")
                    grown = True
            elif m[0] == "L" and m[1] in loop.names and m not in mods:
                mods.add(m)
                grown = True
        if grown:
            self._retry(loop)
            raise Restart
        for m in loop.cand:
            if m not in now:
                if m[0] != "L":
                    raise Unsupported(f"{m} is gone after an iteration")
                continue
            v = now[m][1]
            sh = shape(v) if not isinstance(v, Seq) else "seq"
            if sh not in self.shapes[(loop.id, m)]:
                self.shapes[(loop.id, m)].add(sh)
                self.black.pop((loop.id, m), None)
                raise Restart
        for m, c in loop.cand.items():
            if c == "fresh" or m not in now:
                continue
            v = now[m][1]
            if isinstance(c, tuple):
                x = self._rel(c[1], now[c[2]][1], v) if shape(now[c[2]][1]) == "int" else None
                if x is None:
                    self._drop(loop, m)
                self._silent(v, x, lambda m=m: self._drop(loop, m))
                continue
            if c == "samelen":
                self._silent(v.n, loop.entry[m].n, lambda m=m: self._drop(loop, m))
                continue
            if c[0] == "@":
                ix, h = c[1:].split(":", 1)
                j, en = self.indices[ix], loop.entry[m]
                if self.valid(v.n == en.n, 2500)[0] != "discharged":
                    self._drop(loop, m)
                e = v.at(j)
                if h == "fresh":
                    sh = self.shapes[(loop.id, m, ix)]
                    if shape(e) not in sh:
                        sh.add(shape(e))
                        raise Restart
                    want = seq_store(en, j, e)
                else:
                    want = seq_store(en, j, en.at(j) + loop.k if h == "lin1" else self._hints()[h])
                self._silent(v, want, lambda m=m: self._drop(loop, m))
                continue
            want = loop.entry[m] if c == "same" else (loop.entry[m] + loop.k) if c == "lin1" else (loop.entry[m] - loop.k) if c == "lin-1" else self._hints()[c]
            self._silent(v, want, lambda m=m: self._drop(loop, m))
        bad = False
        for m, n, k in loop.wh:
            if k not in self.dropinv:
                v = now[m][1] if m in now else None
                if shape(v) != "int" or self.valid(self.where(self, v)[n], 4000)[0] != "discharged":
                    self.dropinv.add(k)
                    self.log.append(f"{loop.id} {m}: {n} is not preserved")
                    bad = True
        if bad:
            raise Restart
        for n, c in [(n, c) for n, c in self._invs(loop) if (loop.id, n) not in self.dropinv]:
            if self.valid(c, 4000)[0] != "discharged":
                self.dropinv.add((loop.id, n))
                self.log.append(f"{loop.id}: invariant {n} is not preserved")
                if _os.environ.get("PYVC_DEBUG"):
                    self._debug(loop, n, c)
                raise Restart
        raise PathEnd

    def _debug(self, loop, n, c):
        print("== DEBUG", loop.id, n, self.valid(c, 4000))
        print("c:", c)
        for a in self.assertions() if hasattr(self, "assertions") else self.pc:
            print("   ", str(a)[:300].replace("\n", " "))
        for k, v in sorted(vars(self.ghost).items()):
            print("   g.", k, "=", str(v)[:200])


class Poison(Sym):
    """A variable which an iteration may or may not have bound."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _bad(self, *a, **k):
        raise Unsupported(f"variable {self.name} of an earlier iteration")
    __eq__ = __ne__ = __lt__ = __le__ = __add__ = __radd__ = __bool__ = __call__ = __getitem__ = __gt__ = __ge__ = __sub__ = __rsub__ = _bad
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        raise Unsupported(f"variable {self.name} of an earlier iteration")


def text(x):
    try:
        return repr(x)
    except (Unsupported, Exception):
        return f"<{type(x).__name__}>"


def _same_value(a, b):
    if isinstance(a, (SInt, SReal, SBool, SVal)) and type(a) is type(b):
        return a.e.eq(b.e) or z3.simplify(a.e).eq(z3.simplify(b.e))
    return _ident(a, b)


def _ident(a, b):
    if a is b:
        return True
    if isinstance(a, (SInt, SReal, SBool, SVal)) and type(a) is type(b):
        return a.e.eq(b.e)
    if isinstance(a, (int, str, float, bytes, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_ident(x, y) for x, y in zip(a, b))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    if isinstance(a, Seq) and isinstance(b, Seq) and a.concrete() and b.concrete():
        return _ident(a.items, b.items)
    return False


def z3_inf(e):
    """A length larger than any index used: infinite streams."""
    n = SInt(z3.Int("len!inf"))
    return n


def cvc5_check(assertions, ms=6000):
    import subprocess, shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    s = z3.Solver()
    s.add(*assertions)
    try:
        p = subprocess.run([exe, f"--tlimit={ms}", "--lang=smt2", "--nl-ext-tplanes", "-"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=ms / 1000 + 5)
    except subprocess.TimeoutExpired:
        return "unknown"
    out = p.stdout.strip().splitlines()
    return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
