"""Where in the library's code an interruption or a thread switch is most
telling: instructions that touch state shared beyond the running call.  Only a
bias of the search - every instruction stays a candidate."""
import dis
import gc
import locale
import os
import sys
import time
import types
import warnings
import zoneinfo

PLAIN = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, str, bytes, int, float, bool, tuple,
         frozenset, type(None))
_written = {}  # file -> names of globals its code assigns
_keep = []
_hot = {}  # id(code) -> (offsets near shared globals, offsets near other stores)


def codes(c):
    yield c
    for x in c.co_consts:
        if isinstance(x, types.CodeType):
            yield from codes(x)


MUTATORS = {"append", "clear", "pop", "update", "setdefault", "add", "remove", "discard", "popitem", "extend", "insert",
            "move_to_end", "appendleft", "popleft", "sort", "reverse", "__setitem__", "send"}


def prepare(files):
    for f in files:
        with open(f) as fh:
            top = compile(fh.read(), f, "exec", dont_inherit=True)
        names = set()
        for c in codes(top):
            if c is top:
                continue
            loads, mutates = set(), False
            for ins in dis.get_instructions(c):
                n = ins.opname
                if n in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    names.add(ins.argval)
                elif n == "LOAD_GLOBAL":
                    loads.add(ins.argval)
                elif n in ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_ATTR", "DELETE_ATTR") or (
                        n in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in MUTATORS):
                    mutates = True
            if mutates:
                names |= loads
        _written[f] = names
    # (done once, before the forks)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename in _written:
            for c in codes(o.__code__):
                spots(c, o.__globals__)


def shared(name, glob, file):
    if name.startswith("__") or name not in glob:
        return False
    v = glob[name]
    of = getattr(v, "__self__", None)
    if isinstance(of, (dict, list, set, bytearray)):
        return v.__name__ in MUTATORS or v.__name__ in ("get", "__getitem__")
    if isinstance(v, PLAIN) or isinstance(of, PLAIN[3:]) and of is not None:
        # (rebound)
        return name in _rebound(file)
    if isinstance(v, bytearray):
        return True
    if isinstance(v, (dict, list, set)):
        return name in _written.get(file, ())
    if type(v) is object or type(v).__module__ != "_thread" and getattr(v, "__dict__", None) == {}:
        return False  # (a sentinel)
    return type(v).__module__ not in ("typing", "datetime", "re", "abc", "operator", "__future__")


_re = {}


def _rebound(file):
    r = _re.get(file)
    if r is None:
        r = set()
        try:
            with open(file) as fh:
                top = compile(fh.read(), file, "exec", dont_inherit=True)
        except OSError:
            top = None
        for c in codes(top) if top else ():
            for ins in dis.get_instructions(c):
                if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    r.add(ins.argval)
        _re[file] = r
    return r


def spots(code, glob):
    r = _hot.get(id(code))
    if r is None:
        g, s = set(), set()
        prev = None
        last = None
        own = code.co_varnames[0] if code.co_argcount and code.co_name not in ("__init__", "__new__", "__setstate__") else None
        for ins in dis.get_instructions(code):
            if prev is not None:
                prev.add(ins.offset)  # right after it
            prev = None
            n = ins.opname
            if n in ("STORE_GLOBAL", "DELETE_GLOBAL") or (
                    n == "LOAD_GLOBAL" and shared(ins.argval, glob, code.co_filename)):
                prev = g
            elif n in ("STORE_ATTR", "DELETE_ATTR") and last is not None and (
                    last.opname == "LOAD_FAST" and last.argval == own or last.opname == "LOAD_GLOBAL"):
                prev = g  # (of an object that existed before)
            elif n in ("STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_DEREF"):
                prev = s
            if prev is not None:
                prev.add(ins.offset)
            last = ins
        r = _hot[id(code)] = (g, s)
        _keep.append(code)
    return r


def process():
    """State of the whole process that code may change for a while."""
    return (os.environ.get("TZ"), time.tzname, time.timezone, locale.setlocale(locale.LC_ALL), zoneinfo.TZPATH,
            len(warnings.filters), gc.isenabled(), sys.getrecursionlimit())


class Record:
    """The places a piece of sequential execution passes."""

    def __init__(self):
        self.count = {}  # (name, offset) -> times
        self.n = 0
        self.g, self.s = set(), set()
        self.p = set()  # places where process-wide state differs
        self.base = process()
        self.around = set()  # functions with telling places

    def see(self, code, at, glob, opcodes):
        self.n += 1
        k = (code.co_qualname, at)
        if process() != self.base:
            self.p.add(k)
        c = self.count.get(k)
        if c is None:
            self.count[k] = 1
            if opcodes:
                g, s = spots(code, glob)
                # (zoneinfo's own state is not whenever's)
                if code.co_filename not in _written:
                    g = ()
                if g and not k[0].endswith(".now"):
                    self.around.add(k[0])
                if at in g:
                    self.g.add(k)
                elif at in s:
                    self.s.add(k)
        else:
            self.count[k] = c + 1

    def g_only(self):
        return {k for k in self.g if not k[0].endswith(".now")}

    def hot(self):
        return bool(self.p or self.g_only())

    def choose(self, rng):
        """A place as [name, offset, how many passes before] or an index."""
        if not self.count:
            return 0
        r = rng.random()
        if r < 0.15:
            return rng.randrange(self.n)
        if self.p and r < 0.6:
            k = rng.choice(sorted(self.p))
            return [k[0], k[1], 0]
        # (reading the clock function is not telling)
        g = self.g_only()
        if r < 0.7 and g and rng.random() < 0.5:
            g = {k for k in self.count if k[0] in self.around}
        pool = g if r < 0.7 and g else self.g if r < 0.25 and self.g else self.s if r < 0.4 and self.s else self.count
        k = rng.choice(sorted(pool))
        c = self.count[k]
        n = 0 if rng.random() < 0.6 else rng.randrange(c)
        return [k[0], k[1], n]
