"""C20 - typed configuration loading."""
from core import *
import dataclasses, typing, types as _types, collections
from typing import *

RULE = ("random types (nested dataclasses, named tuples, lists, tuples, sets, dicts, optionals, unions, literals, Any) x valid and slightly wrong raw data x strict; functions and "
        "imported classes; round trips; overrides; non-trivial: nested types")


def gen(tier, rng):
    q = tier == "quick"
    n = [0]

    def ty(d, hashable=False):
        leafs = ["int", "str", "float", "bool", "none", "lit", "path"] + ([] if hashable else ["any", "rawdict", "rawlist"])
        if d == 0 or rng.random() < .25:
            k = rng.choice(leafs)
            if k == "lit":
                return ["lit", rng.sample(["a", "b", 1, 2, "c d"], rng.randint(1, 3))]
            return [k]
        k = rng.choice(["opt", "union", "tuple", "vtuple"] + ([] if hashable else ["list", "dict", "dc", "dc", "nt", "set"]))
        if k in ("opt", "vtuple"):
            return [k, ty(d - 1, hashable)]
        if k in ("list", "dict"):
            return [k, ty(d - 1)]
        if k == "set":
            return ["set", ty(d - 1, True)]
        if k in ("union", "tuple"):
            return [k, [ty(d - 1, hashable) for _ in range(rng.randint(2 if k == "union" else 1, 3))]]
        fs = []
        n[0] += 1
        name = f"T{n[0]}"
        for i in range(rng.randint(0, 4)):
            t = ty(d - 1)
            fs.append([f"f{i}" if rng.random() < .9 else f"f_{i}", t, rng.random() < .35 and ["d", val(t)] or None])
        fs.sort(key=lambda f: f[2] is not None)
        return [k, name, fs]

    def val(t):
        k = t[0]
        if k == "int":
            return rng.choice([0, 1, -3, 10 ** 20])
        if k == "str":
            return rng.choice(["", "x", "1", "None", "True", "a.b"])
        if k == "path":
            return rng.choice(["/a/b", "/c"])
        if k == "float":
            return rng.choice([0.5, -1.0, 3, 1e30])
        if k == "bool":
            return rng.choice([True, False])
        if k == "none":
            return None
        if k == "any":
            return rng.choice([None, 1, "x", [1], {"a": {"b": 1}}, True, 1.5])
        if k == "rawdict":
            return rng.choice([{}, {"k": [1]}])
        if k == "rawlist":
            return rng.choice([[], [1, "a"]])
        if k == "lit":
            return rng.choice(t[1])
        if k == "opt":
            return None if rng.random() < .3 else val(t[1])
        if k == "union":
            return val(rng.choice(t[1]))
        if k in ("list", "vtuple"):
            return [val(t[1]) for _ in range(rng.randint(0, 3))]
        if k == "set":
            out = []
            for _ in range(rng.randint(0, 3)):
                v = val(t[1])
                if not any(json.dumps(v) == json.dumps(o) for o in out):
                    out.append(v)
            return out
        if k == "tuple":
            return [val(x) for x in t[1]]
        if k == "dict":
            return {rng.choice(["a", "b", "c.d", "e-f"]): val(t[1]) for _ in range(rng.randint(0, 3))}
        return {f: val(ft) for f, ft, d in t[2] if d is None or rng.random() < .6}

    def spoil(r):
        """Changes one place of raw data."""
        spots = []

        def walk(x, put):
            spots.append((x, put))
            if isinstance(x, list):
                for i in range(len(x)):
                    walk(x[i], lambda v, x=x, i=i: x.__setitem__(i, v))
            if isinstance(x, dict):
                for k in x:
                    walk(x[k], lambda v, x=x, k=k: x.__setitem__(k, v))
        box = [copy.deepcopy(r)]
        walk(box[0], lambda v: box.__setitem__(0, v))
        x, put = rng.choice(spots)
        r = rng.random()
        if isinstance(x, dict) and r < .6:
            if x and r < .3:
                del x[rng.choice(list(x))]
            else:
                x[rng.choice(["zz", "f0", "f9"])] = rng.choice([1, "x", None])
        elif isinstance(x, list) and r < .6:
            if x and r < .3:
                x.pop()
            else:
                x.append(rng.choice([1, "x", None, {}]))
        else:
            put(rng.choice([None, 1, "x", 2.5, True, [], {}, "1", [1], {"f0": 1}]))
        return box[0]
    for _ in range(2500 if q else 200000):
        t = ty(rng.choice([0, 1, 2, 2, 3, 4]))
        v = val(t)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            v = spoil(v)
        yield dict(t=t, v=v, strict=rng.random() < .6)
    for _ in range(300 if q else 5000):
        ps = []
        for i in range(rng.randint(0, 4)):
            t = ty(rng.choice([0, 1, 2]))
            ps.append([f"p{i}", t, rng.random() < .3 and ["d", val(t)] or None, "pk"])
        ps.sort(key=lambda f: f[2] is not None)
        if rng.random() < .3:
            ps.append(["args", ["int"], None, "va"])
        as_list = rng.random() < .4
        if not as_list:
            if rng.random() < .3:
                ps.append(["ko", ["int"], rng.choice([None, ["d", 3]]), "ko"])
            if rng.random() < .3:
                ps.append(["kw", ["str"], None, "vk"])
        raw = [val(p[1]) for p in ps if p[3] == "pk" and (p[2] is None or rng.random() < .6)] if as_list else {p[0]: val(p[1]) for p in ps if p[3] in ("pk", "ko") and (p[2] is None or rng.random() < .6)}
        if as_list and any(p[3] == "va" for p in ps) and len(raw) == sum(p[3] == "pk" for p in ps):
            raw += [1, 2][:rng.randint(0, 2)]
        if not as_list and any(p[3] == "vk" for p in ps):
            raw.update({"x1": "a", "x2": "b"} if rng.random() < .5 else {})
        if rng.random() < .4:
            raw = spoil(raw)
        yield dict(k="call", ps=ps, raw=raw, strict=rng.random() < .7)
    for i in range(60):
        yield dict(k="inst", i=i)
    for i in range(len(OVR)):
        yield dict(k="ovr", i=i)


def nontrivial(c):
    return len(json.dumps(c)) > 60


class Bad(Exception):
    pass


_cache = {}


def mk(t, reg):
    from megatron.energon.epathlib import EPath
    k = t[0]
    simple = dict(int=int, str=str, float=float, bool=bool, none=type(None), any=Any, rawdict=dict, rawlist=list, path=EPath)
    if k in simple:
        return simple[k]
    if k == "lit":
        return Literal[tuple(t[1])]
    if k == "opt":
        return Optional[mk(t[1], reg)]
    if k == "union":
        return Union[tuple(mk(x, reg) for x in t[1])]
    if k == "list":
        return List[mk(t[1], reg)]
    if k == "vtuple":
        return Tuple[mk(t[1], reg), ...]
    if k == "tuple":
        return Tuple[tuple(mk(x, reg) for x in t[1])]
    if k == "dict":
        return Dict[str, mk(t[1], reg)]
    if k == "set":
        return Set[mk(t[1], reg)]
    if t[1] in reg:
        return reg[t[1]]
    fs = t[2]
    if k == "dc":
        cls = dataclasses.make_dataclass(t[1], [(f, mk(ft, reg)) if d is None else (f, mk(ft, reg), dataclasses.field(default_factory=lambda d=d, ft=ft: conv(ft, d[1], False, reg))) for f, ft, d in fs])
    else:
        cls = NamedTuple(t[1], [(f, mk(ft, reg)) for f, ft, d in fs])
        dv = {f: conv(ft, d[1], False, reg) for f, ft, d in fs if d is not None}
        cls._field_defaults = dv
        cls.__new__.__defaults__ = tuple(dv.values())
    reg[t[1]] = cls
    return cls


def conv(t, v, strict, reg):
    """Reference conversion; raises Bad."""
    from megatron.energon.epathlib import EPath
    k = t[0]
    if k in ("int", "str", "float", "bool", "none", "rawdict", "rawlist"):
        tp = dict(int=int, str=str, float=(float, int), bool=bool, none=type(None), rawdict=dict, rawlist=list)[k]
        if not isinstance(v, tp):
            raise Bad
        return v
    if k == "any":
        return v
    if k == "path":
        if isinstance(v, EPath):
            return v
        if not isinstance(v, str):
            raise Bad
        return EPath(v)
    if k == "lit":
        if isinstance(v, (list, dict)) or v not in t[1]:
            raise Bad
        return v
    if k in ("opt", "union"):
        for x in (t[1] if k == "union" else [t[1], ["none"]]):
            try:
                return conv(x, v, strict, reg)
            except Bad:
                pass
        raise Bad
    if k in ("list", "vtuple", "tuple", "set"):
        if not isinstance(v, list):
            raise Bad
        if k == "tuple":
            if len(v) != len(t[1]):
                raise Bad
            return tuple(conv(x, y, strict, reg) for x, y in zip(t[1], v))
        r = [conv(t[1], y, strict, reg) for y in v]
        if k == "set":
            if len(set(r)) != len(r):
                raise Bad
            return set(r)
        return r if k == "list" else tuple(r)
    if not isinstance(v, dict):
        raise Bad
    if k == "dict":
        return {a: conv(t[1], b, strict, reg) for a, b in v.items()}
    if k == "nt":
        v = {a.replace("-", "_"): b for a, b in v.items()}
    cls, kw = mk(t, reg), {}
    for f, ft, d in t[2]:
        if f in v:
            kw[f] = conv(ft, v[f], strict, reg)
        elif d is not None:
            kw[f] = conv(ft, d[1], False, reg)
        else:
            raise Bad
    if strict and set(v) - {f for f, _, _ in t[2]}:
        raise Bad
    return cls(**kw)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    return a == b


def has(t, kinds):
    return isinstance(t, list) and (bool(t and isinstance(t[0], str) and t[0] in kinds) or any(has(x, kinds) for x in t if isinstance(x, list)))


def needs_default_conv(t):
    """Defaults inside other types which are not yet typed (lists for tuples ...) are validated by the code as given."""
    return False


def run(c):
    from megatron.energon.typed_converter import raw_to_typed, to_json_object, JsonValueError
    if c.get("k"):
        return {"call": run_call, "inst": run_inst, "ovr": run_ovr}[c["k"]](c)
    reg = {}
    t = c["t"]
    if bad_defaults(t):
        return
    T = mk(t, reg)
    raw = copy.deepcopy(c["v"])
    try:
        want = ("ok", conv(t, c["v"], c["strict"], reg))
    except Bad:
        want = ("bad",)
    try:
        got = ("ok", raw_to_typed(raw, T, c["strict"]))
    except JsonValueError as e:
        got = ("bad",)
    eq(raw, c["v"], "raw data after loading")
    if got[0] != want[0]:
        raise Violation(f"loading {c['v']!r} as {show(t)} (strict={c['strict']}): {'accepted as ' + repr(got[1]) if got[0] == 'ok' else 'rejected'}, expected {want}")
    if got[0] == "ok":
        req(same(got[1], want[1]), lambda: f"loading {c['v']!r} as {show(t)}: got {got[1]!r}, expected {want[1]!r}")
        if not has(t, ("set", "path", "any", "rawdict", "rawlist")):
            js = json.loads(json.dumps(to_json_object(got[1])))
            back = raw_to_typed(js, T, True)
            if not has(t, ("union", "opt")):
                req(same(back, got[1]), lambda: f"{got[1]!r} of type {show(t)} became {back!r} after converting to raw data and loading again")
                if c["strict"]:
                    chk_leaves(js, c["v"], t)


def chk_leaves(js, raw, t):
    """Everything in raw appears at the same place in the raw form of the loaded value."""
    if isinstance(raw, dict):
        if t[0] == "nt":
            raw = {k.replace("-", "_"): v for k, v in raw.items()}
        req(isinstance(js, dict) and set(raw) <= set(js), lambda: f"fields of {raw!r} are lost in {js!r}")
        for k in raw:
            chk_leaves(js[k], raw[k], t[1] if t[0] == "dict" else [ft for f, ft, d in t[2] if f == k][0])
    elif isinstance(raw, list):
        eq(len(js), len(raw), "elements")
        for i, (a, b) in enumerate(zip(js, raw)):
            chk_leaves(a, b, t[1][i] if t[0] == "tuple" else t[1])
    else:
        eq(js, raw, "leaf")


def bad_defaults(t):
    """Typed default values of tuples, sets and classes are not raw data: loading validates defaults like raw data, which only
    works for plain values.  Such types are left out."""
    if t[0] in ("dc", "nt"):
        return any((d is not None and has(ft, ("tuple", "vtuple", "set", "dc", "nt"))) or bad_defaults(ft) for f, ft, d in t[2])
    return any(bad_defaults(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str)) if t[0] in ("opt", "list", "dict", "vtuple", "set") else \
        any(bad_defaults(x) for x in t[1]) if t[0] in ("union", "tuple") else False


def show(t):
    return json.dumps(t)


def run_call(c):
    from megatron.energon.typed_converter import safe_call_function, JsonValueError
    reg = {}
    if any(bad_defaults(p[1]) or (p[2] and has(p[1], ("tuple", "vtuple", "set", "dc", "nt"))) for p in c["ps"]):
        return
    import inspect
    P = inspect.Parameter
    kinds = dict(pk=P.POSITIONAL_OR_KEYWORD, va=P.VAR_POSITIONAL, ko=P.KEYWORD_ONLY, vk=P.VAR_KEYWORD)
    sig = inspect.Signature([P(n, kinds[k], annotation=mk(t, reg), default=P.empty if d is None else conv(t, d[1], False, reg)) for n, t, d, k in c["ps"]])

    def fn(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return dict(b.arguments)
    fn.__signature__ = sig
    raw, strict = c["raw"], c["strict"]
    try:
        want = {}
        pk = [p for p in c["ps"] if p[3] in ("pk", "ko")]
        if isinstance(raw, list):
            vals = list(raw)
            for n, t, d, k in pk:
                if vals:
                    want[n] = conv(t, vals.pop(0), strict, reg)
                elif d is not None:
                    want[n] = conv(t, d[1], False, reg)
                else:
                    raise Bad
            if any(p[3] == "va" for p in c["ps"]):
                want["args"] = tuple(conv(["int"], v, strict, reg) for v in vals)
                vals = []
            if vals and strict:
                raise Bad
        elif isinstance(raw, dict):
            vals = dict(raw)
            for n, t, d, k in pk:
                if n in vals:
                    want[n] = conv(t, vals.pop(n), strict, reg)
                elif d is not None:
                    want[n] = conv(t, d[1], False, reg)
                else:
                    raise Bad
            if any(p[3] == "va" for p in c["ps"]):
                want["args"] = ()
            if any(p[3] == "vk" for p in c["ps"]):
                want["kw"] = {a: conv(["str"], b, strict, reg) for a, b in vals.items()}
                vals = {}
            if vals and strict:
                raise Bad
        else:
            raise Bad
        want = ("ok", want)
    except Bad:
        want = ("bad",)
    try:
        got = ("ok", safe_call_function(copy.deepcopy(raw), fn, strict))
    except ValueError:
        got = ("bad",)
    if got[0] != want[0] or (got[0] == "ok" and (set(got[1]) != set(want[1]) or not all(same(got[1][k], want[1][k]) for k in want[1]))):
        raise Violation(f"calling {c['ps']} with {raw!r} (strict={strict}): got {got}, expected {want}")


def run_inst(c):
    from megatron.energon.typed_converter import raw_to_instance, raw_to_typed, JsonValueError
    m = _types.ModuleType("verif_c20_mod")

    @dataclasses.dataclass
    class A:
        x: int
        y: str = "d"

    @dataclasses.dataclass
    class B(A):
        z: List[int] = dataclasses.field(default_factory=list)

    class C:
        def __init__(self, a: A, n: float = 1.0, **kw: Any):
            self.a, self.n, self.kw = a, n, kw

    def mkA(x: int) -> A:
        return A(x, "made")
    m.A, m.B, m.C, m.mkA = A, B, C, mkA
    sys.modules["verif_c20_mod"] = m
    M = dict(__module__="verif_c20_mod")
    cases = [
        (lambda: raw_to_instance({"x": 1}, A), A(1)),
        (lambda: raw_to_instance({**M, "__class__": "A", "x": 1, "y": "k"}, A), A(1, "k")),
        (lambda: raw_to_instance({**M, "__class__": "B", "x": 1, "z": [1, 2]}, A), B(1, "d", [1, 2])),
        (lambda: raw_to_instance({**M, "__class__": "A", "x": "1"}, A), Bad),
        (lambda: raw_to_instance({**M, "__class__": "A", "x": 1, "q": 2}, A), Bad),
        (lambda: raw_to_instance({**M, "__class__": "A"}, A), Bad),
        (lambda: raw_to_instance({**M, "__function__": "mkA", "x": 4}, A), A(4, "made")),
        (lambda: raw_to_instance({**M, "__class__": "B"}, Type[A]), B),
        (lambda: raw_to_instance({**M, "__class__": "C"}, Type[A]), Bad),
        (lambda: raw_to_instance({**M, "__class__": "mkA"}, Type[A]), Bad),
        (lambda: raw_to_instance({**M, "__function__": "mkA"}, Callable[..., A]), mkA),
        (lambda: raw_to_instance({**M}, Type[A]), Bad),
        (lambda: raw_to_typed([{**M, "__class__": "B", "x": 1}, {"x": 2}], List[Any], True, True)[0], B(1)),
        (lambda: raw_to_typed([{**M, "__class__": "B", "x": 1}], List[Any], True, False)[0], {**M, "__class__": "B", "x": 1}),
        (lambda: raw_to_instance({**M, "__class__": "C", "a": {"x": 3}, "n": 2, "more": [1]}, C).__dict__, dict(a=A(3), n=2, kw={"more": [1]})),
        (lambda: raw_to_instance({**M, "__class__": "C", "a": {"x": 3, "zz": 1}}, C).__dict__, Bad),
        (lambda: raw_to_instance({**M, "__class__": "C", "a": {"x": 3, "zz": 1}}, C, strict=False).__dict__, dict(a=A(3), n=1.0, kw={})),
    ]
    if c["i"] >= len(cases):
        return
    f, want = cases[c["i"]]
    try:
        got = f()
    except (ValueError, AssertionError):
        got = Bad
    eq(got, want, f"instance case {c['i']}")
    req(type(got) is type(want), f"type of the result: {type(got)}, expected {type(want)}")


class _N(NamedTuple):
    x: int
    y: str


@dataclasses.dataclass
class _O:
    a: int
    n: _N
    l: List[int]
    t: Tuple[int, str]
    d: Dict[str, int]
    o: Optional[int] = None
    u: Union[List[int], Dict[str, int]] = dataclasses.field(default_factory=list)
    e: Any = None


def _o(**k):
    b = dict(a=1, n=_N(2, "y"), l=[1, 2, 3], t=(4, "t"), d={"k": 5, "m": 6}, o=None, u=[7, 8], e={"p": 1})
    b.update(k)
    return _O(**b)


OVR = [({"a": 5}, dict(a=5)), ({"a": "6"}, dict(a=6)), ({"a": "x"}, Bad), ({"n.x": 9}, dict(n=_N(9, "y"))), ({"n": '{"x": 3, "y": "b"}'}, dict(n=_N(3, "b"))), ({"l.1": 20}, dict(l=[1, 20, 3])),
       ({"t.1": "z"}, dict(t=(4, "z"))), ({"d.k": 50}, dict(d={"k": 50, "m": 6})), ({"d.new": "7"}, dict(d={"k": 5, "m": 6, "new": 7})), ({"o": "3"}, dict(o=3)), ({"u.0": 70}, dict(u=[70, 8])),
       ({"e": "False"}, dict(e=False)), ({"e": "True"}, dict(e=True)), ({"e": "12"}, dict(e=12)), ({"zz": 1}, Bad), ({"l": "[9]"}, dict(l=[9])), ({"t": '[1, "q"]'}, dict(t=(1, "q"))),
       ({"n.x": 9, "a": 3, "d.m": 1}, dict(n=_N(9, "y"), a=3, d={"k": 5, "m": 1})), ({}, {})]


def run_ovr(c):
    from megatron.energon.typed_converter import override
    o, want = OVR[c["i"]]
    base = _o()
    try:
        got = override(base, copy.deepcopy(o), True)
    except ValueError:
        got = Bad
    eq(got, want if want is Bad else _o(**want), f"override {o!r}")
    eq(base, _o(), "base value after overriding")
