"""C23: random functions are reproducible and isolated."""
import inspect
from lib import *
import megatron.energon.rng as rng_module
import megatron.energon.task_encoder.base as base_module
from megatron.energon.rng import WorkerRng, SystemRng, SystemRngState


class Globals:
    """The global generators: each has a state; seeding makes it a function of the seed, drawing moves it on."""
    _ghost = True

    def __init__(self, P):
        self.t, self.n, self.r = P.val("torch0"), P.val("numpy0"), P.val("random0")

    def all(self):
        return (self.t, self.n, self.r)

    def put(self, x):
        self.t, self.n, self.r = x

    def draw(self, *how):
        self.put(tuple(app("after", x, *how) for x in self.all()))


def system(c, P):
    """The three libraries as stubs in the module under contract."""
    G = Globals(P)

    def setter(k, what=None):
        return lambda v: setattr(G, k, v if what is None else app(what, v))
    c.patch(rng_module, "torch", types.SimpleNamespace(manual_seed=setter("t", "torch.seed"), get_rng_state=lambda: G.t, set_rng_state=setter("t"), Generator=Generator,
                                                       uint8="uint8", **tensor_functions(P)))
    c.patch(rng_module, "numpy", types.SimpleNamespace(random=types.SimpleNamespace(seed=setter("n", "numpy.seed"), get_state=lambda: G.n, set_state=setter("n"))))
    c.patch(rng_module, "random", types.SimpleNamespace(seed=setter("r", "random.seed"), getstate=lambda: G.r, setstate=setter("r")))
    return G


def same(P, name, a, b):
    P.prove(name, and_(*[x == y for x, y in zip(a, b)]))


class System(Contract):
    name = "SystemRng.seed, save_state, restore_state"
    covers = ("x",)
    assumptions = ("torch, numpy and random: get state / set state / seed behave as documented",)

    def run(self, P):
        G = system(self, P)
        before = G.all()
        s = SystemRng.save_state()
        same(P, "saving the state changes nothing", G.all(), before)
        G.draw("x")
        seed = P.int("seed")
        SystemRng.seed(seed)
        a = G.all()
        G.draw("y")
        SystemRng.seed(seed)
        P.cover("x")
        same(P, "the states of all three generators depend on the seed only", G.all(), a)
        SystemRng.restore_state(s)
        same(P, "restoring brings all three states back", G.all(), before)


class FromArgs(Contract):
    name = "SystemRng.get_seed_from_args"
    covers = ("x",)
    bounded = "some integer pairs"

    def run(self, P):
        P.cover("x")
        S = SystemRng.get_seed_from_args
        xs = [(a, b) for a in (0, 1, 2, 11, 12, 2 ** 31, 2 ** 32 - 1) for b in (0, 1, 2, 3, 10, 11, 21, 10 ** 6)]
        P.prove("the seed is a number of 32 bits which depends on the arguments only", all(0 <= S(*x) < 2 ** 32 and S(*x) == S(*x) for x in xs))
        P.prove("different arguments get different seeds", len({S(*x) for x in xs}) == len(xs))


class Whole:
    """The state of all three global generators as one value."""
    _ghost = True

    def __init__(self, P):
        self.st = P.val("state0")

    def all(self):
        return (self.st,)

    def draw(self, *how):
        self.st = app("after", self.st, *how)


class Encoder:
    _stub = True


class Seeded(Contract):
    """A call of a function marked with stateless(restore_seeds=True)."""
    gen = False

    def start(self, P):
        G = Whole(P)                    # the contracts of SystemRng's functions (see above)
        self.patch(SystemRng, "seed", staticmethod(lambda s: setattr(G, "st", app("seeded", s))))
        self.patch(SystemRng, "save_state", staticmethod(lambda: G.st))
        self.patch(SystemRng, "restore_state", staticmethod(lambda s: setattr(G, "st", s)))
        self.patch(SystemRng, "get_seed_from_args", staticmethod(lambda *a: app("args seed", *a)))
        self.patch(base_module, "inspect", types.SimpleNamespace(**dict(vars(inspect), isgeneratorfunction=lambda f: self.gen)))
        wc, nw, w = worker(self, P)
        seed = P.int("worker_seed", 0)
        other = WC(rank=wc.rank, world_size=wc.world_size, num_workers=nw)
        wc.worker_seed = lambda *a: seed
        other.worker_seed = lambda *a: P.int("other_seed", 0)
        te = Encoder()
        te.worker_config = other         # the configuration of the data set may differ from the one active
        te.current_sample_index = P.int("sample_index", 0)
        te.current_batch_index = P.int("batch", 0)
        k = app("args seed", seed, te.current_sample_index)
        return G, te, (app("seeded", k),)


class SeededCall(Seeded):
    name = "stateless (plain function)"
    covers = ("value", "fails")

    def run(self, P):
        G, te, first = self.start(P)
        before = G.all()
        arg, kw = P.val("arg"), P.val("kw")
        fails = P.choose(3)

        def fn(self, a, key):
            P.prove("the arguments are passed on", and_(self is te, a == arg, key == kw))
            same(P, "the function draws numbers which depend on the worker's seed and the sample index only", G.all(), first)
            G.draw("fn")
            if fails:
                raise (ValueError, MemoryError)[fails - 1]
            return app("fn", a)
        f = base_module.stateless(restore_seeds=True)(fn)
        P.prove("the function is marked", base_module.get_stateless(f) is True)
        try:
            r = f(te, arg, key=kw)
            P.cover("value")
            P.prove("the value of the function is returned", r == app("fn", arg) and not fails)
        except (ValueError, MemoryError):
            P.cover("fails")
            P.prove("errors are passed on", fails > 0)
        same(P, "the global generators are as they were", G.all(), before)


class SeededGen(Seeded):
    name = "stateless (generator function)"
    covers = ("value", "fails", "end", "closed")
    gen = True

    def run(self, P):
        G, te, first = self.start(P)
        before = G.all()
        g = P.ghost
        g.k = 0
        arg = P.val("arg")
        # what the state is after k results, and what it is outside
        inner = lambda k: (ite(k == 0, first[0], app("inner", k)),)
        outer = lambda k: (ite(k == 0, before[0], app("outer", k)),)

        class It(GenCursor):
            _ghost = True

            def step(self):
                same(P, "each result is made with the states the previous one left behind", G.all(), inner(g.k))
                G.st = app("inner", g.k + 1)
                if isinstance(g.k, int) and g.k > 2:
                    raise PathEnd
                c = P.choose(3)
                if c == 0:
                    return END
                if c == 1:
                    raise ValueError
                return app("gen", arg, g.k)

        def fn(self, a):
            P.prove("the arguments are passed on", and_(self is te, a == arg))
            return It()
        P.roots.update(G=G)
        P.hints = lambda P: {"inner": None if g.k == 0 else inner(g.k)[0], "outer": outer(g.k)[0]}
        P.invs = lambda P: [("k", g.k >= 0), ("outside", G.st == ite(g.k == 0, first[0], outer(g.k)[0]))]
        f = base_module.stateless(fn, restore_seeds=True)
        P.prove("the function is marked", base_module.get_stateless(f) is True)
        it = f(te, arg)
        try:
            for x in it:
                P.cover("value")
                P.prove("the results are passed on in order", x == app("gen", arg, g.k))
                same(P, "the global generators are as they were when the result is passed on", G.all(), outer(g.k))
                if P.choose(2):
                    it.close()
                    P.cover("closed")
                    same(P, "the global generators are as they were after closing", G.all(), outer(g.k))
                    raise PathEnd
                g.k = g.k + 1
                G.st = app("outer", g.k)        # the consumer draws numbers
            P.cover("end")
        except ValueError:
            P.cover("fails")
        same(P, "the global generators are as they were at the end", G.all(), outer(g.k))


class FewResults(SeededGen):
    name = "stateless (generator function, some results)"
    bounded = "up to 3 results"

    def unroll(self, loop_id):
        return True


class NotSeeded(Contract):
    name = "stateless (without seeds)"
    covers = ("x",)

    def run(self, P):
        def f(self, x):
            return x
        P.cover("x")
        P.prove("the function is not marked before", base_module.get_stateless(f) is False)
        h = base_module.stateless(f)
        P.prove("the function is marked and otherwise unchanged", h is f and base_module.get_stateless(h) is True)


# ------------------------------------------------------------------------------------------------ the generator of a worker
class Generator:
    _stub = False

    def __init__(self):
        self.st = "unset"

    def manual_seed(self, s):
        self.st = app("generator seed", s)

    def set_state(self, s):
        self.st = s

    def get_state(self):
        return self.st


class Num:
    _stub = True

    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v


def tensor_functions(P):
    """Contracts of torch.randint, multinomial and randperm: numbers in range / a permutation, functions of the generator's state, which moves on."""
    def used(generator, kind, *args):
        if not isinstance(generator, Generator):
            P.prove("numbers are drawn from the generator of the worker", False)
        st = generator.st
        generator.st = app("after", st, kind)
        P.drawn.append(st)
        return st

    def randint(low, high, size, generator=None):
        v = P.int(P.fresh_name("drawn"))
        used(generator, "randint")
        P.assume(and_(v >= low, v < high))
        return Num(v)

    def multinomial(probs, n, replacement=False, generator=None):
        v = P.int(P.fresh_name("drawn"), 0)
        used(generator, "multinomial")
        P.assume(v < s_len(probs))
        return Num(v)

    def randperm(n, generator=None):
        used(generator, "randperm")
        return Perm(P, n)
    P.drawn = []
    return dict(randint=randint, multinomial=multinomial, randperm=randperm, frombuffer=lambda b, dtype=None: b)


class Perm:
    _stub = True

    def __init__(self, P, n):
        self.n = n
        self.p, self.q = (z3.Function(P.fresh_name(x), z3.IntSort(), z3.IntSort()) for x in ("perm", "inverse"))
        self.P = P
        self.last = None
        P.perm = self

    def __getitem__(self, i):
        r = SInt(self.p(num(i)))
        self.P.assume_value(implies(and_(i >= 0, i < self.n), and_(r >= 0, r < self.n, SInt(self.q(r.e)) == i)))
        return r

    def inverse(self, j):
        r = SInt(self.q(num(j)))
        self.P.assume_value(implies(and_(j >= 0, j < self.n), and_(r >= 0, r < self.n, SInt(self.p(r.e)) == j)))
        return r


def conversions(self, P, v, name):
    """Conversions of a generator's state keep its bytes."""
    return (lambda *a, **k: v) if name in ("tolist", "clone", "numpy", "tobytes") else NotImplemented


class WorkerDraws(Contract):
    name = "WorkerRng.randbelow, choice, choice_idx, shuffle, rand_pop"
    covers = ("randbelow", "choice", "weighted choice", "shuffle", "rand_pop", "choice_idx")
    assumptions = ("torch.randint, multinomial and randperm give numbers in range / a permutation which depend on the generator's state only",)
    opaque_attr = conversions

    def run(self, P):
        system(self, P)
        wc, nw, w = worker(self, P)
        wc.worker_seed = lambda *a: P.int("worker_seed", 0)
        R = WorkerRng(wc)
        st = P.val("state")
        R.rng.st = st
        n = P.int("n", 1)
        X = P.stream("X", n)
        l = SList(X)
        c = P.choose(6)
        P.cover(self.covers[c])
        one = c in (2, 5) and P.choose(2)
        if one:
            P.assume(n == 1)
        if c == 0:
            r = R.randbelow(n)
            P.prove("the number is in range", and_(r >= 0, r < n))
        elif c in (1, 2):
            r = R.choice(l) if c == 1 else R.choice(l, SList(P.int_stream("probs", n)))
            k = P.int("drawn!1", 0) if P.drawn else 0
            P.prove("an element of the list is chosen", r == X.at(k))
        elif c == 3:
            r = R.shuffle(l)
            i, j = P.int("i", 0), P.int("j", 0)
            P.assume(and_(i < n, j < n))
            P.prove("the list keeps its length", r.sym_len() == n)
            P.prove("every element is one of the list", r[i] == X.at(P.perm[i]))
            P.prove("every element of the list appears once", and_(r[P.perm.inverse(j)] == X.at(j), implies(i != j, P.perm[i] != P.perm[j])))
            P.prove_eq("the list given is unchanged", l, SList(X))
        elif c == 4:
            r = R.rand_pop(l)
            k = P.int("drawn!1", 0)
            P.prove("an element is taken", r == X.at(k))
            P.prove("exactly this element is removed", l.sym_len() == n - 1)
            i = P.int("i", 0)
            P.assume(i < n - 1)
            P.prove("exactly this element is removed", l[i] == ite(i < k, X.at(i), X.at(i + 1)))
        else:
            r = R.choice_idx(SList(P.int_stream("probs", n)))
            P.prove("the index is in range", and_(r >= 0, r < n))
        P.prove("at most one number is drawn, in the state of the worker's generator", len(P.drawn) <= 1 and (not P.drawn or P.drawn[0] == st))


class WorkerStart(Contract):
    name = "WorkerRng.rng"
    covers = ("x",)
    opaque_attr = conversions

    def run(self, P):
        system(self, P)
        wc, nw, w = worker(self, P)
        wc.worker_seed = lambda *a: P.int("worker_seed", 0)
        R = WorkerRng(wc)
        P.cover("x")
        g = R.rng
        P.prove("a new generator is seeded with the worker's seed", g.st == app("generator seed", P.int("worker_seed", 0)))
        P.prove("the generator stays the same", R.rng is g)
        g.st = P.val("later")
        P.prove("drawing goes on with the state reached", R.rng.st == P.val("later"))
        s = R.save_state()
        P.prove("saving the state does not change it", R.rng.st == P.val("later"))
        m = R.merge_states([s]) if P.choose(2) else None
        if m is not None:
            g.st = P.val("moved")
            P.assume(and_(nw <= 1))
            R.restore_state(m)
            if P.choose(2):
                P.prove_eq("the state restored can be saved again", R.save_state().rng, s.rng)
            P.prove("restoring goes back to the state saved", R.rng.st == P.val("later"))
            R.rng.st = P.val("moved again")
            P.prove("a state is restored once", R.rng.st == P.val("moved again"))


class WorkerState(RoundTrip):
    name = "WorkerRng save/merge/restore"
    opaque_attr = conversions

    def make(self, P, wc, tag):
        if tag == "a":
            system(self, P)
            wc.worker_seed = lambda *a: app("worker seed", wc.rank_worker_id())
        return WorkerRng(wc)

    def inner(self, d):
        return []

    def shared_ok(self, d):
        return [id(d._restore_states)]      # only read

    def arbitrary(self, P, d, tag=""):
        if not tag or P.choose(2):
            d._rng = Generator()
            d._rng.st = P.val(tag + "state")
            d._rng.tag = tag + "state"

    def as_worker(self, P, d, i):
        if d._rng is not None and hasattr(d._rng, "tag"):
            d._rng.st = app(d._rng.tag, i)

    def view(self, P, d, i):
        return dict(state=d.rng.st)


CONTRACTS = [System, FromArgs, SeededCall, SeededGen, FewResults, NotSeeded, WorkerDraws, WorkerStart] + with_reset(WorkerState)
