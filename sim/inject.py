"""Asynchronous exceptions at a chosen point: the n-th trace event (line or
bytecode instruction, or the entry of a function) in the Python code of the
library and of zoneinfo."""
import dis
import os
import sys


class SimTimeout(Exception):
    """What a signal handler that enforces a timeout raises."""


class SimAbort(BaseException):
    """An exception that `except Exception` must not stop."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit,
    "SimTimeout": SimTimeout, "SimAbort": SimAbort, "RecursionError": RecursionError,
}


def prefixes():
    import zoneinfo

    import whenever

    return (os.path.dirname(whenever.__file__) + "/", os.path.dirname(zoneinfo.__file__) + "/")


def prime():
    """CPython 3.12 delivers opcode events only to trace functions that are
    set after f_trace_opcodes was first used in the interpreter."""
    def local(frame, what, arg):
        return local

    def glob(frame, what, arg):
        frame.f_trace_opcodes = True
        return local

    def nothing():
        return 1

    sys.settrace(glob)
    nothing()
    sys.settrace(None)


KNOWN, KEEP, LEAVING = {}, [], {}


def leaving_with(code, at):
    """Is this instruction on the way to the __exit__ of a with block?

    CPython never interrupts there (no check for signals between the end of the
    block and the call of __exit__), so neither does the simulator."""
    r = LEAVING.get(id(code))
    if r is None:
        r = set()
        ins = list(dis.get_instructions(code))
        names = [x.opname for x in ins]
        if "BEFORE_WITH" in names:
            for i in range(len(ins) - 3):
                if all(names[j] == "LOAD_CONST" and ins[j].argval is None for j in (i, i + 1, i + 2)) \
                        and names[i + 3] == "CALL" and ins[i + 3].arg == 2:
                    j = i
                    while j > 0 and names[j - 1] in ("NOP", "SWAP", "STORE_FAST"):
                        j -= 1
                    r.update(x.offset for x in ins[j:i + 4])
                if names[i] == "PUSH_EXC_INFO" and names[i + 1] == "WITH_EXCEPT_START":
                    r.update((ins[i].offset, ins[i + 1].offset))
        LEAVING[id(code)] = r
        KEEP.append(code)
    return at in r


class Injector:
    def __init__(self):
        prime()
        self.pre = prefixes()

    def mine(self, code):
        r = KNOWN.get(id(code))
        if r is None:
            r = KNOWN[id(code)] = code.co_filename.startswith(self.pre)
            KEEP.append(code)
        return r

    def watch(self, fn, opcodes, rec):
        """Runs fn, recording the places it passes."""
        def event(frame):
            if leaving_with(frame.f_code, frame.f_lasti):
                return
            rec.see(frame.f_code, frame.f_lasti if opcodes else frame.f_lineno - frame.f_code.co_firstlineno,
                    frame.f_globals, opcodes)

        def local(frame, what, arg):
            if what == "opcode" if opcodes else what == "line":
                event(frame)
            return local

        def glob(frame, what, arg):
            if not self.mine(frame.f_code):
                return None
            frame.f_trace_opcodes = opcodes
            frame.f_trace_lines = not opcodes
            event(frame)
            return local

        sys.settrace(glob)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def call(self, fn, at, exc, opcodes):
        """Runs fn, raising exc at the at-th event or at a place
        [function, offset, passes before].

        -> (result, exception or None, the point of injection or None, events seen)"""
        n = 0
        fired = None
        name = off = None
        if not isinstance(at, int):
            name, off, at = at

        def event(frame, what):
            nonlocal n, fired
            if leaving_with(frame.f_code, frame.f_lasti):
                return
            if name is not None:
                here = frame.f_lasti if opcodes else frame.f_lineno - frame.f_code.co_firstlineno
                if here != off or frame.f_code.co_qualname != name:
                    return
            if n == at:
                n += 1
                fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name} ({what})"
                sys.settrace(None)
                raise exc
            n += 1

        def local(frame, what, arg):
            if what == "opcode" if opcodes else what == "line":
                event(frame, what)
            return local

        def glob(frame, what, arg):
            if not self.mine(frame.f_code):
                return None
            frame.f_trace_opcodes = opcodes
            frame.f_trace_lines = not opcodes
            event(frame, what)
            return local

        got = err = None
        sys.settrace(glob)
        try:
            got = fn()
        except BaseException as e:
            err = e
        finally:
            sys.settrace(None)
        return got, err, fired, n
