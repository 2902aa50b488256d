"""
Control of the execution of the code under test, line by line.

sys.monitoring calls a hook before each line of typedload is executed.  The
hook can raise (fault injection: an exception at an exact point of the
execution) or make the thread wait (schedules: the threads are run one at a
time, and switched at chosen points).
"""
import sys
import threading
import types

import typedload
from typedload import dataloader, datadumper, typechecks, helpers, exceptions


class Lines:
    TOOL = 4

    def __init__(self):
        self.hook = None
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'tlv-lines')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.register_callback(self.TOOL, m.events.PY_START, self.start)
        self.roots = typedload.__file__.rsplit('/', 1)[0] + '/'
        seen = set()
        for module in (typedload, dataloader, datadumper, typechecks, helpers, exceptions):
            for v in list(vars(module).values()):
                self.walk(v, seen)
        m.set_events(self.TOOL, m.events.PY_START)

    def walk(self, v, seen):
        if isinstance(v, types.FunctionType):
            self.code(v.__code__, seen)
        elif isinstance(v, type) and v.__module__.startswith('typedload'):
            for i in list(vars(v).values()):
                if isinstance(i, (types.FunctionType, types.CodeType)):
                    self.walk(i, seen)

    def code(self, c, seen):
        if c in seen or not c.co_filename.startswith(self.roots):
            return
        seen.add(c)
        sys.monitoring.set_local_events(self.TOOL, c, sys.monitoring.events.LINE)
        for i in c.co_consts:
            if isinstance(i, types.CodeType):
                self.code(i, seen)

    def start(self, code, off):
        if code.co_filename.startswith(self.roots):
            sys.monitoring.set_local_events(self.TOOL, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    def line(self, code, line):
        if self.hook is not None:
            self.where = code, line
            self.hook()

    def trace(self, f):
        """The lines executed by f, each once"""
        seen = {}

        def hook():
            seen.setdefault(self.where)
        self.hook = hook
        try:
            f()
        finally:
            self.hook = None
        return list(seen)


_lines = None


def lines():
    """The only instance: it is created when the first case needs it"""
    global _lines
    if _lines is None:
        _lines = Lines()
    return _lines


class Interrupt(BaseException):
    """What the user sends with ^C"""


class Interrupted:
    """
    Runs a call, raising Interrupt before its nth line of typedload.
    """
    def __init__(self, at):
        self.at = at
        self.count = 0
        self.fired = None

    def hook(self):
        self.count += 1
        if self.count - 1 == self.at:
            self.fired = Interrupt()
            raise self.fired

    def run(self, f, *a):
        l = lines()
        l.hook = self.hook
        try:
            return f(*a)
        finally:
            l.hook = None


class Schedule:
    """
    Runs functions in threads, one at a time; switches says for how many lines
    each turn lasts, and who is next. When it is used up each thread runs until
    it ends.

    Should the one that has the turn not go on (it might be waiting for
    a lock that another one has), they are all let go.
    """
    def __init__(self, functions, switches, stop=None):
        """stop: (line, n), the first thread is suspended when it gets there for the nth time"""
        self.functions = functions
        self.stop = stop
        self.switches = list(reversed(switches))
        self.cond = threading.Condition()
        self.alive = list(range(len(functions)))
        self.turn = 0
        self.left = 0
        self.free = False
        self.stuck = False
        self.steps = 0
        self.taken = 0        # real switches
        self.ids = {}
        self.results = [None] * len(functions)

    def next(self):
        """Who has the next turn. With the lock."""
        if not self.alive:
            return
        if self.switches:
            n, who = self.switches.pop()
            new = self.alive[who % len(self.alive)]
            self.left = n
        else:
            new = self.turn if self.turn in self.alive else self.alive[0]
            self.left = -1
        if new != self.turn:
            self.taken += 1
        self.turn = new
        self.cond.notify_all()

    def hook(self):
        me = self.ids.get(threading.get_ident())
        if me is None or self.free:
            return
        self.steps += 1
        if self.stop and me == 0 and self.stop[0] == lines().where:
            if self.stop[1]:
                self.stop = self.stop[0], self.stop[1] - 1
            else:
                self.stop = None
                with self.cond:
                    self.next()
                    self.wait(me)
                return
        if self.left:
            self.left -= 1
            return
        with self.cond:
            self.next()
            self.wait(me)

    def wait(self, me):
        while self.turn != me and not self.free:
            self.cond.wait()

    def body(self, me):
        try:
            with self.cond:
                self.ids[threading.get_ident()] = me
                self.cond.notify_all()
                self.wait(me)
            self.results[me] = self.functions[me]()
        finally:
            with self.cond:
                self.ids.pop(threading.get_ident(), None)
                self.alive.remove(me)
                if self.turn == me:
                    self.next()
                self.cond.notify_all()

    def run(self):
        l = lines()
        self.turn = -1
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        try:
            l.hook = self.hook
            for t in threads:
                t.start()
            with self.cond:
                while len(self.ids) < len(threads):
                    self.cond.wait()
                self.next()
                while self.alive:
                    before = self.steps, self.taken
                    if not self.cond.wait_for(lambda: not self.alive, timeout=1) and before == (self.steps, self.taken):
                        self.stuck = self.free = True
                        self.cond.notify_all()
        finally:
            self.free = True
            with self.cond:
                self.cond.notify_all()
            for t in threads:
                t.join(30)
            l.hook = None
        return self.results
