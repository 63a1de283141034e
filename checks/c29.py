"""C29: timed blocks measure, report, log and limit wall-clock time."""

import builtins
import io
import logging
import os
import re
import shutil
import signal as _signal
import sys
import tempfile
import time as _time
import types

BOUNDS = ("blocks of one to three steps, up to three blocks in sequence and two nested, every real duration of each step and every processor time, every origin of each clock; "
          "time limits none, -3, 0, 0.2, 1, 1.9, 2, 3, 5.5 seconds; with and without rebuffering, printing, log files and messages; blocks ended by an exception at every step")
OUTSIDE = ("the operating system's clocks and signal delivery (stand-ins: all wall clocks of `time` advance together from arbitrary origins, the alarm goes off exactly on time, between two bytecodes of the block); "
           "the overhead of the timer itself; two nested blocks that both have a limit (there is only one alarm per process); the wording of the messages")

WALL = ("time", "perf_counter", "monotonic")
CPU = ("process_time", "thread_time")


class Killed(Exception):
    """The alarm went off without a handler: the process would be terminated."""


class Mine(Exception):
    pass


class World:
    """Clocks, the alarm, the screen and the log."""

    def __init__(self, c):
        self.c = c
        self.wall, self.cpu = c.real("w0"), c.real("c0")
        self.origin = {k: c.real(f"origin_{k}") for k in WALL[1:] + CPU}
        self.deadline, self.handler, self.fired = None, _signal.SIG_DFL, 0
        self.armed = []
        self.numbers = []
        if c.symbolic:
            c.opt("format", self.shown)

    # -- clocks
    def read(self, name):
        base = self.wall if name in WALL else self.cpu
        return base + self.origin[name] if name in self.origin else base

    def advance(self, wall, cpu):
        target = self.wall + wall
        if self.deadline is not None and self.deadline <= target:
            self.wall, self.deadline = self.deadline, None
            self.cpu = self.cpu + cpu
            self.fired += 1
            if not callable(self.handler):
                if self.handler == _signal.SIG_IGN:
                    self.wall = target
                    return
                raise Killed()
            self.handler(_signal.SIGALRM, None)
            raise Mine("the handler returned")
        self.wall = target
        self.cpu = self.cpu + cpu

    # -- signals
    def set_handler(self, sig, handler):
        if sig != _signal.SIGALRM:
            raise Mine("another signal")
        old, self.handler = self.handler, handler
        return old

    def alarm(self, n):
        if not isinstance(n, int):
            raise TypeError("integer expected")
        return self.arm(n)

    def arm(self, n):
        left = 0 if self.deadline is None else 1
        self.deadline = None if n == 0 else self.wall + n
        self.armed.append(n)
        return left

    def itimer(self, which, seconds, interval=0.0):
        if which != _signal.ITIMER_REAL:
            raise Mine("another timer")
        return (self.arm(seconds), 0.0)

    # -- numbers in messages
    def shown(self, x, spec):
        self.numbers.append(x)
        return f"<#{len(self.numbers) - 1}>"

    def numbers_in(self, text):
        """(value, resolution) for each number in a message."""
        if self.c.symbolic:
            return [(self.numbers[int(i)], 0) for i in re.findall(r"<#(\d+)>", text)]
        out = []
        for t in re.findall(r"(?<![\w.])-?\d+(?:\.(\d+))?(?:e([-+]\d+))?(?=\s*s)", text) and re.finditer(r"(?<![\w.])(-?\d+(?:\.(\d+))?(?:e([-+]?\d+))?)(?=\s*s)", text):
            digits = len(t.group(2) or "") - int(t.group(3) or 0)
            out.append((float(t.group(1)), .6 * 10.0 ** -digits))
        return out

    # -- installation
    def __enter__(self):
        real = {}
        T, S = types.ModuleType("time"), types.ModuleType("signal")
        T.__dict__.update(vars(_time))
        S.__dict__.update(vars(_signal))
        for k in WALL + CPU:
            real[id(getattr(_time, k))] = f = (lambda k=k: self.read(k))
            setattr(T, k, f)
            g = lambda k=k: self.read(k) * 1000000000
            real[id(getattr(_time, k + "_ns"))] = g
            setattr(T, k + "_ns", g)
        for k, f in (("signal", self.set_handler), ("alarm", self.alarm), ("setitimer", self.itimer), ("getsignal", lambda s: self.handler), ("getitimer", lambda w: (0.0 if self.deadline is None else 1.0, 0.0))):
            real[id(getattr(_signal, k))] = f
            setattr(S, k, f)
        real[id(_time)], real[id(_signal)] = T, S
        self.saved = []
        for name, mod in (("time", T), ("signal", S)):
            self.saved.append((sys.modules, name, sys.modules[name]))
            sys.modules[name] = mod
        g = self.c.op.utils.TimedBlock.__init__.__globals__
        for k, v in list(g.items()):
            if id(v) in real:
                self.saved.append((g, k, v))
                g[k] = real[id(v)]
        self.out = sys.stdout
        sys.stdout = self.screen = io.StringIO()
        self.root = logging.getLogger()
        self.level, self.handlers = self.root.level, list(self.root.handlers)
        self.root.handlers[:] = []
        self.root.setLevel(logging.INFO)
        self.log = []
        world = self

        class Recorder(logging.Handler):
            def emit(self, record):
                world.log.append((record.levelno, record.getMessage()))

        self.root.addHandler(Recorder())
        return self

    def __exit__(self, *exc):
        sys.stdout = self.out
        for h in self.root.handlers:
            if h not in self.handlers:
                h.close()
        self.root.handlers[:] = self.handlers
        self.root.setLevel(self.level)
        for d, k, v in reversed(self.saved):
            d[k] = v


def make_timer(c, rebuffer=False, verbose=True):
    class Timer(c.op.utils.TimedBlock):
        pass

    Timer.rebuffer, Timer.verbose = rebuffer, verbose
    return Timer


def steps_of(c, tag, n):
    """(wall time, processor time) of every step of a block."""
    return [(c.real(f"d{tag}_{i}", (), "nonneg"), c.real(f"p{tag}_{i}", (), "nonneg")) for i in range(n)]


def seconds(limit):
    return None if limit is None else max(int(limit), 1)


def close(c, label, W, text, value):
    got = W.numbers_in(text)
    if not got:
        c.fail(label, f"no time in {text!r}")
        return
    v, tol = got[-1]
    if c.symbolic:
        c.eq(label, v, value)
    else:
        c.true(label, abs(v - value) <= tol + 1e-9 * abs(value), f"{v} vs {value}")


def one(c, W, Timer, tag, message, limit, n, raising=None, inner=None):
    """A block of n steps, raising an exception before step `raising`."""
    D = steps_of(c, tag, n)
    outer = W.deadline
    start, logged, printed = W.wall, len(W.log), len(W.screen.getvalue())
    stdout = sys.stdout
    fired = W.fired
    boom = Mine("boom")
    block, caught, begun, spent = None, None, False, 0
    kw = {} if limit is None and raising is None else {"timelimit": limit}
    try:
        with Timer(message, **kw) as block:
            begun = True
            sec = seconds(limit)
            c.true("the limit is a whole number of seconds, at least one", block.timelimit == sec)
            c.true("no time has been recorded yet", block.elapsed is None)
            if sec is None:
                c.true("no alarm without a limit", W.deadline is outer)
            else:
                c.true("the alarm is set", W.deadline is not None)
                c.eq("the alarm goes off after the limit", W.deadline, start + sec)
            print(f"[inside {tag}]")
            for i, (d, p) in enumerate(D):
                if raising == i:
                    raise boom
                W.advance(d, p)
                spent = spent + d
            if raising == n:
                raise boom
            if inner is not None:
                inner()
    except (Mine, TimeoutError, Killed) as ex:
        caught = ex
    c.true("the block is entered", begun)
    c.true("standard output is restored", sys.stdout is stdout)
    if limit is None:
        c.true("an enclosing alarm is left alone", W.fired > fired or W.deadline is outer)
    else:
        c.true("the alarm is cancelled", W.deadline is None)
    text, log = W.screen.getvalue()[printed:], W.log[logged:]
    c.true("what the block prints appears once", text.count(f"[inside {tag}]") == 1)
    short = message.rstrip() if message else ""
    elapsed = W.wall - start
    if W.fired > fired and limit is not None:
        c.true("interrupted by an exception", isinstance(caught, TimeoutError), repr(caught))
        c.eq("interrupted at the limit", elapsed, sec)
        if isinstance(caught, TimeoutError):
            close(c, "reported time limit", W, str(caught), sec)
        c.true("logged once", len(log) == 1)
        c.true("the message is logged", short in log[0][1])
        close(c, "logged time limit", W, log[0][1], sec)
    elif W.fired > fired:
        c.true("the enclosing block is interrupted", isinstance(caught, TimeoutError))
    elif raising is not None:
        c.true("exceptions are propagated", caught is boom, repr(caught))
        c.true("exceptions are logged", any(lv >= logging.ERROR for lv, _ in log) and any("boom" in t for _, t in log))
        if short:
            c.true("the message of the block is logged", any(short in t for _, t in log))
        close(c, "time of the exception", W, [t for lv, t in log if lv >= logging.ERROR][-1], elapsed)
    else:
        c.true("no exception", caught is None, repr(caught))
        if limit is not None:
            c.le("not interrupted before the limit", spent, sec)
        c.eq("recorded time", block.elapsed, elapsed)
        c.true("logged once", len(log) == 1 and log[0][0] == logging.INFO)
        c.true("the message is logged", short in log[0][1])
        close(c, "logged time", W, log[0][1], elapsed)
        if Timer.verbose and short:
            c.true("the message is printed", short in text)
            close(c, "printed time", W, text, elapsed)
    if not Timer.verbose and caught is None:
        c.true("nothing else is printed", text == f"[inside {tag}]\n" or inner is not None)
    return caught


def single(c, limit, n=2, raising=None, message="A message", rebuffer=False, verbose=True):
    with World(c) as W:
        one(c, W, make_timer(c, rebuffer, verbose), "a", message, limit, n, raising)


def sequence(c, blocks, rebuffer=False):
    """Blocks one after another do not influence each other."""
    with World(c) as W:
        Timer = make_timer(c, rebuffer)
        for i, (limit, raising) in enumerate(blocks):
            one(c, W, Timer, f"s{i}", f"Block number{'abc'[i]}", limit, 1, raising)
            W.advance(c.real(f"gap{i}", (), "nonneg"), c.real(f"gapc{i}", (), "nonneg"))
        c.true("no alarm is left", W.deadline is None)


def reused(c, limits):
    """The same timer object twice."""
    with World(c) as W:
        T = make_timer(c)("again", timelimit=limits)
        for i in range(2):
            (d, p), = steps_of(c, f"r{i}", 1)
            start = W.wall
            try:
                with T:
                    W.advance(d, p)
            except TimeoutError:
                c.true("interrupted after the limit", limits is not None)
                c.eq("interrupted at the limit", W.wall - start, seconds(limits))
                return
            c.eq(f"time of use {i}", T.elapsed, d)


def redirected(c, limit, rebuffer, raising):
    """The standard output in place when the block is entered gets the text and is restored, use after use."""
    with World(c) as W:
        T = make_timer(c, rebuffer)("redirected", timelimit=limit)
        for i in range(3):
            mine, before = io.StringIO() if i < 2 else sys.stdout, W.screen.getvalue()
            old, sys.stdout = sys.stdout, mine
            (d, p), = steps_of(c, f"q{i}", 1)
            boom, caught = Mine("boom"), None
            try:
                with T:
                    print(f"[inside {i}]")
                    if raising:
                        raise boom
                    W.advance(d, p)
            except (Mine, TimeoutError) as ex:
                caught = ex
            c.true("standard output is restored", sys.stdout is mine)
            sys.stdout = old
            text = mine.getvalue() if i < 2 else mine.getvalue()[len(before):]
            c.true("what the block prints appears once", text.count(f"[inside {i}]") == 1, repr(text))
            c.true("the message is printed", "redirected" in text)
            c.true("other outputs are left alone", i == 2 or W.screen.getvalue() == before)
            c.true("exceptions are propagated", caught is boom if raising else caught is None or limit is not None)


def nested(c, outer, raising=None):
    """A block without a limit inside another one."""
    with World(c) as W:
        Timer = make_timer(c)

        def inner():
            caught = one(c, W, Timer, "in", "Inner", None, 1, raising)
            if caught is not None:
                raise caught

        start = W.wall
        D = steps_of(c, "out", 2)
        sec, caught, block = seconds(outer), None, None
        try:
            with Timer("Outer", timelimit=outer) as block:
                W.advance(*D[0])
                inner()
                W.advance(*D[1])
        except (Mine, TimeoutError) as ex:
            caught = ex
        c.true("no alarm is left", W.deadline is None)
        if W.fired:
            c.true("the outer limit holds", isinstance(caught, TimeoutError))
            c.eq("interrupted at the outer limit", W.wall - start, sec)
        elif raising is not None:
            c.true("exceptions pass through both blocks", isinstance(caught, Mine))
        else:
            c.true("no exception", caught is None)
            c.eq("recorded time", block.elapsed, W.wall - start)


def logfiles(c, how):
    """Each file receives each message once, however often it is added."""
    with World(c) as W:
        Timer = make_timer(c, verbose=how != "quiet")
        folder = tempfile.mkdtemp(prefix="c29_")
        cwd = os.getcwd()
        try:
            os.chdir(folder)
            os.mkdir("sub")
            a, b = os.path.join(folder, "a.log"), os.path.join("sub", "b.log")
            n = len(W.root.handlers)
            Timer.add_logfile(a)
            if how in ("again", "quiet"):
                Timer.add_logfile(a)
            elif how == "relative":
                Timer.add_logfile("a.log")
                Timer.add_logfile(os.path.join(".", "sub", "..", "a.log"))
            elif how == "two":
                Timer.add_logfile(b)
                Timer.add_logfile(a)
                Timer.add_logfile(os.path.join(folder, "sub", "b.log"))
            elif how == "moved":
                os.chdir("sub")
                Timer.add_logfile("a.log")
                Timer.add_logfile(os.path.join("..", "a.log"))
            files = {"two": [a, os.path.join(folder, b)], "moved": [a, os.path.join(folder, "sub", "a.log")]}.get(how, [a])
            c.true("one handler per file", len(W.root.handlers) == n + len(files))
            (d, p), = steps_of(c, "l", 1)
            with Timer("logged message"):
                W.advance(d, p)
            for h in W.root.handlers:
                h.flush()
            for f in files:
                with open(f) as fh:
                    text = fh.read()
                c.true("the message is in the file once", text.count("logged message") == 1)
                close(c, "time in the file", W, text, d)
        finally:
            os.chdir(cwd)
            for h in list(W.root.handlers):
                h.close()
            shutil.rmtree(folder)


LIMITS = (None, -3, 0, .2, 1, 1.9, 2, 3, 5.5)


def cases(tier):
    for lim in LIMITS:
        for n in (1, 2, 3):
            yield f"block-{lim}-{n}", single, dict(limit=lim, n=n)
        for n in (1, 2):
            for at in range(n + 1):
                yield f"exception-{lim}-{n}-{at}", single, dict(limit=lim, n=n, raising=at)
    for lim in (None, 2):
        for raising in (None, 1):
            for message in ("", None, "two\nlines", "ends\n", "back\r", "  spaces  "):
                yield f"message-{lim}-{raising}-{message!r}", single, dict(limit=lim, n=1, raising=raising, message=message)
            for rebuffer in (False, True):
                for verbose in (False, True):
                    yield f"output-{lim}-{raising}-{rebuffer}-{verbose}", single, dict(limit=lim, n=1, raising=raising, rebuffer=rebuffer, verbose=verbose)
        for rebuffer in (False, True):
            for raising in (False, True):
                yield f"redirected-{lim}-{rebuffer}-{raising}", redirected, dict(limit=lim, rebuffer=rebuffer, raising=raising)
        yield f"reused-{lim}", reused, dict(limits=lim)
    B = [(None, None), (2, None), (1.9, 0), (None, 1), (3, 1)]
    for x in B:
        for y in B:
            yield f"sequence-{x}-{y}", sequence, dict(blocks=(x, y))
            if tier == "thorough":
                for z in B:
                    yield f"sequence-{x}-{y}-{z}", sequence, dict(blocks=(x, y, z))
    yield "sequence-rebuffer", sequence, dict(blocks=((2, None), (None, 1), (2, None)), rebuffer=True)
    for outer in (None, 1, 2, 5.5):
        for raising in (None, 0, 1):
            yield f"nested-{outer}-{raising}", nested, dict(outer=outer, raising=raising)
    for how in ("once", "again", "relative", "two", "moved", "quiet"):
        yield f"logfile-{how}", logfiles, dict(how=how)
