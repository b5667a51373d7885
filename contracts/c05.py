"""C05: a shard slice reads exactly the samples of its index range.

The entries of the tar file from the start of the slice on are entry(0), entry(1), ...; which are files of a sample, how they are called and what they
hold is arbitrary.  The contract of read_next is a monitor over the entries: each entry fetched is either no part of a sample, a part of an excluded sample,
put into the group of its sample, filtered out, or reported; the offset counts the samples passed."""
from lib import *
I = z3.IntSort()
import megatron.energon.flavors.webdataset.itar as itar
import megatron.energon.flavors.webdataset.prepare as prepare
import megatron.energon.flavors.webdataset.single_shard_reader as reader_module
from megatron.energon.flavors.webdataset.single_shard_reader import SingleShardReader
from megatron.energon.flavors.webdataset.structs import ShardInfo, ShardState
from megatron.energon.errors import FatalSampleError


class Group(Partial):
    """The dict of a sample: what is put into it is checked."""
    g = None

    def __init__(self, **k):
        self.first = k
        self.mon = Group.g
        Group.g.opened(self, k)

    def __setitem__(self, ext, content):
        self.mon.put(self, ext, content)


class Entries(GenCursor):
    """The stream of the tar file."""
    _ghost = True

    def __init__(self, T):
        self._nosnap_T = T

    def step(self):
        return self._nosnap_T.fetch()


class Names:
    """A compiled pattern: which names match is arbitrary."""
    _stub = True

    def __init__(self, T, what):
        self.T, self.what = T, what

    def match(self, name):
        if self.what == "meta":
            return predicate("meta", name)
        return Match(name) if predicate("splits", name) else None


class Match(Partial):

    def __init__(self, name):
        self.name = name

    def groups(self):
        return app("base", self.name), app("ext", self.name)

    def group(self, *i):
        v = tuple((self.name, app("base", self.name), app("ext", self.name))[j] for j in i or (0,))
        return v if len(v) > 1 else v[0]

    __getitem__ = group


class Content:
    _stub = True

    def __init__(self, T, e):
        self.T, self.e = T, e

    def read(self):
        T = self.T
        g = T.P.ghost
        T.P.prove("the content of the current entry is read", and_(self.e == T.entry(g.p - 1), g.useful))
        k = T.P.choose(3)
        if k == 1:
            g.failed = True
            raise OSError("unreadable")
        if k == 2:
            g.fatal = True
            raise MemoryError
        return app("content", self.e)


class Excluded:
    _stub = True

    def __contains__(self, k):
        return bool(predicate("excluded", k))


class ReadNext(Contract):
    name = "SingleShardReader.read_next"
    filtering, waiting, named = False, False, False
    covers = ("sample", "last", "fatal", "excluded", "reported")
    assumptions = ("the files of a sample are next to each other in the tar file", "tarfile gives the entries of the opened window in order, with their offsets in it",
                   "the two name patterns are applied to names in an arbitrary way (their meaning is checked by the bounded runs)")

    def opaque_attr(self, P, v, name):
        if name == "offset":
            return self.off(v)
        return NotImplemented

    def off(self, e):
        return mkint(z3.Function("entry.offset", U, I)(e.e))

    def start(self, P):
        self.P = P
        wc, nw, w = worker(self, P)
        wc.should_log = lambda level=0: False
        g = P.ghost
        g.useful = g.done = g.failed = g.fatal = g.end = g.open = g.lastex = g.have = False
        shard = ShardInfo("shard", "path", P.int("shard_offset", 0), P.int("count", 0), byte_offset=P.int("shard_byte", 0), byte_size=P.int("shard_size", 0))
        o0, b0, orig = P.int("offset", 0), P.int("byte", 0), P.int("opened_at", 0)
        P.assume(and_(b0 <= shard.byte_size, orig <= b0))
        self.o0 = o0
        st = ShardState(shard=shard, offset=o0, byte_offset=b0)
        R = self.R = SingleShardReader.__new__(SingleShardReader)
        R.worker_config, R.exclude, R.shard_state = wc, Excluded(), st
        R.part_filter = self.part_filter if self.filtering else None
        R.handler = self.handler
        R._tar_file = types.SimpleNamespace(extractfile=lambda e: Content(self, e))
        R._stream = Entries(self)
        R._absolute_byte_offset = shard.byte_offset + orig
        R._orig_shard_state_byte_offset = orig
        R._skipped_key = None
        R._cur_tarinfo = R._cur_base_name = R._cur_ext = R._cur_key = None
        self.size = shard.byte_size - orig
        self.patch(reader_module, "skip_meta_re", Names(self, "meta"))
        self.patch(reader_module, "split_name_re", Names(self, "split"))
        self.patch(reader_module, "dict", Group)
        self.patch(reader_module, "warnings", types.SimpleNamespace(warn=lambda *a: None))
        Group.g = self
        self.group = None
        g.p = P.int("entries_read", 0)
        g.begun = 0                    # samples begun, including the one of the current entry
        g.last = P.val("last_base")    # the base name of the last part of a sample seen (if g.have)
        g.gbase = P.val("no_group")    # the base name of the sample being read (if g.open)
        if self.waiting:
            self.waits(P.int("read_before", 0))
        return R, g

    def relations(self, P, R, st):
        g = P.ghost
        P.free = ("p", "useful", "done", "failed", "fatal", "end", "open", "lastex", "have", "begun", "last", "gbase", "R._cur_tarinfo", "R._cur_base_name", "R._cur_ext", "R._cur_key", "R.shard_state.offset")
        P.preset = P.free
        P.invs = lambda P: [("p", g.p >= 0), ("cur", implies(g.useful, and_(g.p > 0, g.have, g.last == self.base(self.cur()), not_(g.end)))), ("begun", g.begun >= ite(g.have, 1, 0)), ("lastex", implies(g.lastex, and_(g.have, not_(g.useful)))), ("excluded", implies(g.have, g.lastex == predicate("excluded", self.key_of(g.last)))),
                            ("group", implies(g.open, g.have)), ("other", implies(and_(g.useful, g.open, g.done), g.last == g.gbase)), ("fine", not_(or_(g.failed, g.fatal))),
                            ("waiting", implies(g.useful, and_(R._cur_tarinfo == self.cur(), R._cur_base_name == g.last, R._cur_ext == app("ext", self.cur().name), R._cur_key == self.key(self.cur()),
                                                               not_(g.lastex), self.off(self.cur()) <= self.size, self.off(self.cur()) >= 0, not_(self.excluded(self.cur()))))),
                            ("useful|read_next", and_(g.useful, not_(g.done), g.open)), ("passed|_next_tarinfo", or_(not_(g.useful), g.done)), ("offset", st.offset == self.o0 + g.begun - ite(g.open, 1, 0) - ite(and_(g.useful, or_(not_(g.open), not_(g.last == g.gbase))), 1, 0)), ("between", implies(and_(g.have, not_(g.useful), not_(g.lastex)), and_(g.open, g.last == g.gbase))), ("more", not_(g.end))]
        P.hints = lambda P: {"!skipped|_skipped_key": self.key_of(g.last) if bool(g.lastex) else None}

    def waits(self, n):
        """An entry is waiting: the first one of the next sample."""
        P, R = self.P, self.R
        g = P.ghost
        P.assume(n >= 0)
        g.p = n + 1
        cur = self.cur()
        P.assume(and_(self.part(cur), not_(self.excluded(cur)), self.off(cur) >= 0, self.off(cur) <= self.size))
        nm = cur.name
        R._cur_tarinfo, R._cur_base_name, R._cur_ext, R._cur_key = cur, app("base", nm), app("ext", nm), self.key(cur)
        g.last = app("base", nm)
        g.useful = g.have = True
        g.lastex = g.done = False
        g.begun = 1

    def first_entry(self):
        """_next_tarinfo before the first sample, by its contract (NextEntry)"""
        P, R = self.P, self.R
        del R._next_tarinfo
        if P.choose(2):
            P.ghost.end = True
            R._cur_tarinfo = R._cur_base_name = R._cur_ext = R._cur_key = None
            raise StopIteration
        skipped = P.int("excluded_samples", 0)
        R.shard_state.offset = R.shard_state.offset + skipped
        self.o0 = self.o0 + skipped
        self.waits(P.int("read_first", 0))

    def run(self, P):
        R, g = self.start(P)
        if not self.waiting:
            R._next_tarinfo = self.first_entry
        st, shard, orig = R.shard_state, R.shard_state.shard, R._orig_shard_state_byte_offset
        mode = self.named
        want = P.val("asked_for")
        P.roots.update(R=R)

        self.relations(P, R, st)
        try:
            name, s = R.read_next(want, must_match=True) if mode else R.read_next()
        except StopIteration:
            P.cover("nothing left")
            P.prove("only the end of the file ends the slice", and_(g.end, not_(g.open)))
            return
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the reading", g.fatal)
            return
        except AssertionError as e:
            P.cover("mismatch")
            P.prove("only a sample with another name than asked for is refused", and_(bool(mode), not_(g.open), g.useful, not_(want == self.base(self.cur()))))
            P.prove("it is still the next sample", R._cur_tarinfo == self.cur())
            return
        P.cover("sample")
        P.prove("the sample read is returned with its name", and_(s is self.group, g.open, name == g.gbase))
        if mode:
            P.prove("it is the sample asked for", name == want)
        P.prove("nothing of it is lost", and_(not_(g.failed), not_(g.fatal)))
        P.prove("the offset counts the samples passed, including excluded ones", st.offset == self.o0 + g.begun - ite(g.useful, 1, 0))
        if bool(g.end):
            P.cover("last")
            P.prove("nothing waits at the end of the slice", R._cur_tarinfo is None)
            P.prove("the byte offset is the end of the slice", st.byte_offset == shard.byte_size)
        else:
            P.prove("the first entry of the next sample waits", and_(g.useful, not_(g.done), R._cur_tarinfo == self.cur(), R._cur_base_name == self.base(self.cur()), not_(self.base(self.cur()) == g.gbase),
                                                                     R._cur_ext == app("ext", self.cur().name), R._cur_key == self.key(self.cur())))
            P.prove("the byte offset is where the next sample starts", st.byte_offset == orig + self.off(self.cur()))
            P.prove("no excluded sample is being skipped", R._skipped_key is None)

    # the tar file
    def entry(self, i):
        return app("entry", i)

    def cur(self):
        return self.entry(self.P.ghost.p - 1)

    def base(self, e):
        return app("base", e.name)

    def key_of(self, base):
        return app("fstr.{}/{}", "shard", base)

    def key(self, e):
        return self.key_of(self.base(e))

    def part(self, e):
        return and_(predicate("truth", app("call", app("attr.isreg", e))), not_(predicate("meta", e.name)), predicate("splits", e.name))

    def excluded(self, e):
        return predicate("excluded", self.key(e))

    def fetch(self):
        P, g = self.P, self.P.ghost
        P.prove("every part of a sample is read, filtered out or reported before the next one is looked at", implies(g.useful, g.done))
        P.prove("a failure is reported at once", and_(not_(g.failed), not_(g.fatal)))
        if bool(g.end) or P.choose(2):
            g.end = True
            g.useful = False
            return END
        e = self.entry(g.p)
        g.p = g.p + 1
        P.assume(and_(self.off(e) >= 0, self.off(e) <= self.size))
        g.useful = False
        if bool(self.part(e)):
            b = self.base(e)
            if bool(g.have) and bool(b == g.last):
                pass
            else:
                g.begun = g.begun + 1
                # different names give different keys (the key is the shard's name, a slash and the name)
                P.assume(implies(g.have, not_(self.key_of(b) == self.key_of(g.last))))
                # the files of a sample are next to each other
                P.assume(implies(g.open, not_(b == g.gbase)))
            g.last = b
            g.have = True
            g.lastex = self.excluded(e)
            if bool(g.lastex):
                P.cover("excluded")
            else:
                g.useful = True
                g.done = False
        return e

    # the sample
    def opened(self, group, k):
        P, g = self.P, self.P.ghost
        P.prove("a sample starts with its first entry", and_(g.useful, not_(g.done), not_(g.open)))
        e = self.cur()
        P.prove("the sample has the name of its files", and_(k["__key__"] == self.key(e), k["__shard__"] == "shard"))
        rk = k["__restore_key__"]
        P.prove("the restore key names the shard and the index of the sample", and_(len(k) == 3, len(rk) == 3, rk[0] == "Webdataset", rk[1] == "shard",
                                                                                   rk[2] == self.R.shard_state.shard.offset + self.o0 + g.begun - 1))
        self.group = group
        g.open = True
        g.gbase = self.base(e)

    def put(self, group, ext, content):
        P, g = self.P, self.P.ghost
        e = self.cur()
        P.prove("only parts of the sample are put into it, under their own name", and_(group is self.group, g.useful, not_(g.done), self.base(e) == g.gbase, ext == app("ext", e.name), content == app("content", e)))
        g.done = True

    def part_filter(self, ext):
        P, g = self.P, self.P.ghost
        P.prove("the filter is asked about the current part", and_(g.useful, ext == app("ext", self.cur().name)))
        if bool(predicate("wanted", ext)):
            return True
        P.cover("filtered")
        g.done = True
        return False

    def handler(self, e, key):
        P, g = self.P, self.P.ghost
        P.cover("reported")
        P.prove("a failing part is reported with the key of its sample", and_(g.failed, key == self.key(self.cur())))
        g.failed = False
        g.done = True


class NextEntry(ReadNext):
    """Before a sample is begun: excluded samples and what is no part of a sample are passed."""
    name = "SingleShardReader._next_tarinfo"
    covers = ("next", "nothing left", "excluded")

    def run(self, P):
        R, g = self.start(P)
        P.roots.update(R=R)
        self.relations(P, R, R.shard_state)
        try:
            R._next_tarinfo()
        except StopIteration:
            P.cover("nothing left")
            P.prove("only the end of the file ends the slice", g.end)
            P.prove("nothing waits at the end", and_(R._cur_tarinfo is None, R._cur_base_name is None, R._cur_ext is None, R._cur_key is None))
            return
        P.cover("next")
        e = self.cur()
        P.prove("the next file of a sample which is not excluded waits", and_(g.useful, R._cur_tarinfo == e, R._cur_base_name == self.base(e), R._cur_ext == app("ext", e.name), R._cur_key == self.key(e),
                                                                              self.part(e), not_(self.excluded(e))))
        P.prove("the excluded samples before it are counted", and_(g.begun >= 1, R.shard_state.offset == self.o0 + g.begun - 1))
        P.prove("no excluded sample is being skipped", R._skipped_key is None)


class IndexFile:
    """An index file: `words` entries of 8 bytes; word i holds the byte offset of sample i."""
    _stub = True

    def __init__(self, T):
        self.T, self.pos, self.open = T, 0, True

    def seek(self, o, whence=0):
        self.pos = (o if whence == 0 else 8 * self.T.words + o)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        T = self.T
        T.P.prove("whole entries of the index are read", and_(self.open, n == 8, self.pos % 8 == 0, self.pos >= 0, self.pos < 8 * T.words))
        return Word(self.pos // 8)

    def close(self):
        self.open = False


class Word:
    _stub = True

    def __init__(self, i):
        self.i = i


class Lookup(Contract):
    name = "get_itar_byte_offset / TarIndexReader"
    covers = ("in the index", "not in the index", "first")
    assumptions = ("struct packs and unpacks 8 byte numbers",)

    def index(self, P):
        """The index of the tar file `path`."""
        self.P = P
        self.words = P.int("samples", 0) + 1
        self.opened = []
        T = self

        class Path:
            _stub = True

            def __init__(self, p, suffix=""):
                P.prove("the index of the shard is used", p == "path" if isinstance(p, str) else p.p == "path")
                self.p, self.suffix = "path", suffix

            def with_suffix(self, s):
                return Path("path", s)

            def open(self, mode):
                P.prove("the index of the shard is opened", and_(self.suffix == ".tar.idx", mode == "rb"))
                f = IndexFile(T)
                T.opened.append(f)
                return f
        self.patch(itar, "EPath", Path)
        self.patch(itar, "struct", types.SimpleNamespace(unpack=lambda f, w: (self.at(w.i),) if f == "Q" else None))

    def at(self, i):
        return mkint(z3.Function("index", I, I)(num(i)))

    def run(self, P):
        self.index(P)
        i = P.int("i")
        P.assume(self.at(0) == 0)
        try:
            o = itar.get_itar_byte_offset("path", i)
        except IndexError:
            P.cover("not in the index")
            P.prove("every entry of the index can be looked up", or_(i < 0, i >= self.words))
        else:
            P.cover("first" if bool(i == 0) else "in the index")
            P.prove("the byte offset of a sample is the one in the index", and_(i >= 0, i < self.words, o == self.at(i)))
        for f in self.opened:
            P.prove("the index is closed", not_(f.open))


class Slice(Lookup):
    """The window of the tar file which is opened for a slice, from its beginning or from where it was left."""
    name = "SingleShardReader.__init__"
    covers = ("computed", "known", "none", "at the end", "opened")

    def run(self, P):
        self.index(P)
        wc, nw, w = worker(self, P)
        wc.should_log = lambda level=0: False
        o, c, done, b = P.int("slice_offset", 0), P.int("slice_count", 0), P.int("samples_read", 0), P.int("bytes_read", 0)
        P.assume(o + c < self.words)
        P.assume(done <= c)
        # the offsets in the index increase
        P.assume(and_(self.at(0) == 0, self.at(o) >= 0, self.at(o) <= self.at(o + c)))
        size = self.at(o + c) - self.at(o)
        P.assume(b <= size)
        known = P.choose(2)
        sh = ShardInfo("shard", "path", o, c, byte_offset=self.at(o) if known else None, byte_size=size if known else None)
        P.cover("known" if known else "computed")
        st = ShardState(shard=sh, offset=done, byte_offset=b)
        got = []

        class Tar:
            _stub = True

            def __init__(self, *a, **k):
                got.append((a, k))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def __iter__(self):
                return self

            def __next__(self):
                raise StopIteration
        self.patch(reader_module, "open_itar", Tar)
        R = SingleShardReader(wc, set(), st, None, None)
        P.prove("the state is kept", and_(R.shard_state is st, st.shard is sh, st.offset == done, st.byte_offset == b, sh.offset == o, sh.count == c, sh.name == "shard", sh.path == "path"))
        if not got:
            P.cover("none" if bool(done == c) else "at the end")
            P.prove("a slice is not opened only if nothing is left of it", or_(done == c, b == size))
            P.prove("then nothing is read", R._cur_tarinfo is None)
            try:
                R._next_tarinfo()
                P.prove("then nothing is read", False)
            except StopIteration:
                pass
            return
        P.cover("opened")
        a, k = got[0]
        P.prove("the file of the slice is opened once", and_(len(got) == 1, a == ("path",), sorted(k) == ["byte_offset", "byte_size"]))
        P.prove("the window begins where the first sample left begins", k["byte_offset"] == self.at(o) + b)
        P.prove("the window ends where the slice ends", k["byte_offset"] + k["byte_size"] == self.at(o + c))
        P.prove("the byte range of the slice is the one of its samples", and_(sh.byte_offset == self.at(o), sh.byte_size == size))
        P.prove("the entries of the window are read", and_(isinstance(R._tar_file, Tar), R._stream is R._tar_file, R._orig_shard_state_byte_offset == b, R._absolute_byte_offset == self.at(o) + b))


class BuildIndex(ReadNext):
    """The index of a tar file: the offset of the first entry of each sample, then where the samples end."""
    name = "WebdatasetPreparator._preprocess_tar"
    covers = ("indexed", "broken", "same sample", "no part")
    assumptions = ("tarfile gives the entries of the file in order, with their offsets, and its position is the end of the last one",
                   "the two name patterns are applied to names in an arbitrary way (their meaning is checked by the bounded runs)")

    def run(self, P):
        self.P = P
        g = P.ghost
        T = self
        g.p, g.samples, g.words, g.due, g.end, g.have = 0, 0, 0, False, False, False
        g.last = P.val("no_sample")
        self.done, self.raised = [], False

        class Tar(Entries):
            _ghost = True
            offset = P.int("end_of_entries", 0)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        class Writer:
            _stub = True

            def __init__(self, path):
                P.prove("the index is the one of the tar file", path is T.path)

            def __enter__(self):
                return self

            def __exit__(self, t, v, tb):
                T.done.append(v is None)

            def append(self, o):
                if bool(g.end):
                    P.prove("the end of the samples follows the samples, once", and_(not_(g.due), o == T.tar.offset, g.words == g.samples))
                else:
                    P.prove("the index has the offset of the first entry of each sample", and_(g.due, o == T.off(T.entry(g.p - 1))))
                g.due = False
                g.words = g.words + 1

        class Path:
            _stub = True
            relpath, name = "shard", "shard"

            def is_absolute(self):
                return True

            def open(self, mode):
                return Closing()

        class Closing:
            _stub = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        class Parts:
            """Some of the parts, for the information shown to the user."""
            _stub = True

            def __init__(self):
                self.n = P.int("parts_seen", 0)

            def __len__(self):
                return P.int("parts", 0)

            def add(self, x):
                pass
        self.path = Path()
        self.tar = Tar(self)
        self.patch(prepare, "EPath", type("EPath", (), dict(__new__=lambda cls, p: p, prepare_forked_process=staticmethod(lambda: None))))
        self.patch(prepare, "tarfile", types.SimpleNamespace(open=lambda fileobj=None, mode=None: self.tar))
        self.patch(prepare, "TarIndexWriter", Writer)
        self.patch(prepare, "skip_meta_re", Names(self, "meta"))
        self.patch(prepare, "split_name_re", Names(self, "split"))
        self.patch(prepare, "set", Parts)
        self.patch(prepare, "logger", types.SimpleNamespace(exception=lambda *a: None))
        P.free = P.preset = ("p", "samples", "words", "due", "end", "have", "last")
        P.invs = lambda P: [("p", g.p >= 0), ("words", g.words == g.samples), ("samples", g.samples >= ite(g.have, 1, 0)), ("written", not_(g.due)), ("more", not_(g.end)), ("none", implies(not_(g.have), g.samples == 0))]
        P.hints = lambda P: {"!n|count": g.samples, "!last|last_base_name": g.last if bool(g.have) else None}
        info, parts = prepare.WebdatasetPreparator._preprocess_tar(self.path, "parent", P.int("max_parts"))
        P.prove("the tar file is named in the result", and_(info.name == "shard", info.path is self.path, info.offset == 0))
        if self.raised:
            P.cover("broken")
            P.prove("no index is left of a broken tar file", self.done == [False])
            P.prove("no samples are counted in a broken tar file", info.count == 0)
        else:
            P.cover("indexed")
            P.prove("the index is kept", and_(self.done == [True], g.end))
            P.prove("the number of samples is the one in the index", and_(info.count == g.samples, g.words == g.samples + 1))

    def fetch(self):
        P, g = self.P, self.P.ghost
        P.prove("no sample is missing in the index", not_(g.due))
        k = P.choose(3)
        if k == 0:
            g.end = True
            return END
        if k == 1:
            self.raised = True
            raise OSError("truncated")
        e = self.entry(g.p)
        g.p = g.p + 1
        if bool(self.part(e)):
            b = self.base(e)
            if bool(g.have) and bool(b == g.last):
                P.cover("same sample")
            else:
                g.samples = g.samples + 1
                g.due = True
            g.have, g.last = True, b
        else:
            P.cover("no part")
        return e


class IndexWriter(Contract):
    name = "TarIndexWriter"
    covers = ("complete", "broken", "closed by hand")
    assumptions = ("struct packs and unpacks 8 byte numbers",)

    def run(self, P):
        log = []

        class Path:
            _stub = True

            def __init__(self, s):
                self.s = s

            def with_suffix(self, s):
                P.prove("the files lie next to the tar file", self.s == "")
                return Path(s)

            def open(self, mode):
                log.append(("open", self.s, mode))
                return types.SimpleNamespace(write=lambda b: log.append(("write", b)), close=lambda: log.append(("close",)))

            def move(self, to):
                log.append(("move", self.s, to.s))

            def unlink(self):
                log.append(("unlink", self.s))
        self.patch(itar, "struct", types.SimpleNamespace(pack=lambda f, n: (f, n)))
        a, b = P.int("a"), P.int("b")
        fails = P.choose(3)
        if fails == 2:
            P.cover("closed by hand")
            w = itar.TarIndexWriter(Path(""))
            keep = P.choose(2)
            w.append(a), w.append(b), w.close(finalize=bool(keep))
        else:
            keep = not fails
            P.cover("broken" if fails else "complete")
            try:
                with itar.TarIndexWriter(Path("")) as w:
                    w.append(a)
                    w.append(b)
                    if fails:
                        raise Broken
            except Broken:
                P.prove("only a failure is reported", bool(fails))
            else:
                P.prove("a failure is reported", not fails)
        P.prove("the index is written to a temporary file first", and_(len(log) == 5, log[0] == ("open", ".tar.idx.tmp", "wb")))
        P.prove("the numbers are written in order", and_(log[1][1][0] == "Q", log[1][1][1] == a, log[2][1][0] == "Q", log[2][1][1] == b, log[3] == ("close",)))
        P.prove("only a complete index gets its final name", log[4] == (("move", ".tar.idx.tmp", ".tar.idx") if keep else ("unlink", ".tar.idx.tmp")))


class Broken(Exception):
    pass


def variant(f, w, m):
    return type("ReadNext", (ReadNext,), dict(filtering=f, waiting=w, named=m, name="SingleShardReader.read_next" + ", parts filtered" * f + ", an entry waits" * w + ", a name asked for" * m,
                                              covers=ReadNext.covers + ("filtered",) * f + ("nothing left",) * (not w) + ("mismatch",) * m))


CONTRACTS = [Lookup, Slice, BuildIndex, IndexWriter, NextEntry] + [variant(f, w, m) for f in (False, True) for w in (False, True) for m in (False, True)]
