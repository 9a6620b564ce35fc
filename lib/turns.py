"""
Operations that overlap in time, under a generated schedule.

Every operation runs in a thread of its own, but only one of them at a time: a thread gives the turn back at every network request
(before it is sent and after the answer is there) and, if wanted, after a given number of lines of the code under test, or of those that change something. Who gets the
next turn, and for how many lines, is taken from the schedule, so that a run can be repeated.
"""
import dis
import functools
import importlib
import os
import pkgutil
import sys
import threading
import time

from vt import SRC, attempt

PREFIX = os.path.realpath(SRC) + os.sep
LONG = 10 ** 9
CHANGING = {"update", "append", "extend", "insert", "add", "remove", "discard", "pop", "popitem", "clear", "setdefault", "set", "delete", "setattr", "__setitem__", "__delitem__", "store_item", "load"}


def load_all():
    """Nothing is imported for the first time while operations overlap"""
    import oidcrp
    for m in pkgutil.walk_packages(oidcrp.__path__, "oidcrp."):
        importlib.import_module(m.name)


class Stuck(Exception):
    pass


def status(tid):
    with open("/proc/self/task/{}/stat".format(tid)) as fp:
        p = fp.read().rpartition(")")[2].split()
    return p[0], time.clock_gettime(~tid << 3 | 6)    # CPU time of the thread


@functools.lru_cache(None)
def writes(code):
    """The lines of a function that change an attribute or an item of something, or may do so by a method of it"""
    res, line = set(), None
    for i in dis.get_instructions(code):
        line = i.positions.lineno if i.positions else line
        if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR", "DELETE_SUBSCR") or i.argval in CHANGING and i.opname.startswith("LOAD_"):
            res.add(line)
    return res


class Op:
    def __init__(self, n, func):
        self.n, self.func = n, func
        self.go = threading.Event()
        self.done = False
        self.parked = True
        self.out = None
        self.lines = LONG
        self.requests = []
        self.turns = 0
        self.wrote, self.seen = None, set()
        self.used = None


class Schedule:
    current = None

    def __init__(self, world, turns, lines=False, wait=20.0):
        """turns: list of (choice, number of lines[, True if the turn isn't over at network requests])"""
        self.world, self.turns, self.lines, self.wait = world, list(turns), lines, wait
        self.back = threading.Event()
        self.local = threading.local()
        self.serving = threading.Lock()
        self.turn = None
        self.switches = 0

    # -- in the threads ---------------------------------------------------------
    def park(self):
        op = getattr(self.local, "op", None)
        if op is None:
            return
        op.go.clear()
        op.parked = True
        if self.turn in (op, None):
            self.back.set()
        if not op.go.wait(self.wait * 10):
            raise Stuck()

    def trace(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(PREFIX) or frame.f_code.co_name == "<module>":
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            op = self.local.op
            if self.turn is not op:     # waited for a lock when it had its turn
                self.park()
            if self.lines == "writes":
                here = frame.f_lineno in writes(frame.f_code)
                after, op.wrote = op.wrote is frame, None
                if here and (frame.f_code, frame.f_lineno) not in op.seen:     # every such place once
                    op.seen.add((frame.f_code, frame.f_lineno))
                    op.wrote = frame
                elif not after:
                    return self.line
            op.lines -= 1
            if op.lines <= 0:
                self.park()
        return self.line

    def run_op(self, op):
        self.local.op = op
        op.tid = threading.get_native_id()
        op.go.wait()
        try:
            if self.lines:
                sys.settrace(self.trace)
            op.out = attempt(op.func)
        finally:
            sys.settrace(None)
            op.done = op.parked = True
            if self.turn in (op, None):
                self.back.set()

    def dispatch(self, orig):
        def func(prep, kwargs):
            op = getattr(self.local, "op", None)
            if op is None:
                return orig(prep, kwargs)
            self.park()
            try:
                # one that has got a lock it waited for may be here without having the turn
                with self.serving:
                    mark = len(self.world.log)
                    try:
                        return orig(prep, kwargs)
                    finally:
                        op.requests.extend(self.world.log[mark:])
            finally:
                self.park()
        return func

    # -- the schedule -----------------------------------------------------------
    def wait_for(self, op):
        """Until it gives back the turn, or sleeps (it waits for a lock that one of the others has)"""
        asleep, used = 0, None
        for n in range(int(self.wait / 0.005)):
            if self.back.wait(0.005):
                return
            try:
                state, now = status(op.tid)
            except OSError:    # has just ended
                continue
            asleep = asleep + 1 if state == "S" and now == used else 0
            used = now
            if asleep >= 4:
                op.used = used
                return

    def settle(self, ops):
        """Those that waited for a lock and have got it come to a stop"""
        for op in ops:
            for n in range(int(self.wait / 0.002)):
                if op.done or op.parked:
                    break
                try:
                    state, now = status(op.tid)
                except OSError:
                    break
                if state == "S" and now == op.used:
                    break
                if state == "S" and n and now == last:
                    op.used = now
                last = now
                time.sleep(0.002)

    def run(self, funcs):
        """Runs the operations and returns them"""
        ops = [Op(i, f) for i, f in enumerate(funcs)]
        orig = self.world.dispatch
        self.world.dispatch = self.dispatch(orig)
        threads = [threading.Thread(target=self.run_op, args=(op,), daemon=True) for op in ops]
        last = None
        try:
            for th in threads:
                th.start()
            n, keep = 0, None
            while True:
                self.settle(ops)
                waiting = [op for op in ops if not op.done and op.parked]
                if not waiting:
                    if all(op.done for op in ops):
                        break
                    # somebody waits for a lock
                    self.turn = None
                    for _ in range(int(self.wait / 0.005)):
                        if any(op.parked and not op.done for op in ops) or all(op.done for op in ops):
                            break
                        time.sleep(0.005)
                    else:
                        raise Stuck("operations wait for each other: {}".format([op.n for op in ops if not op.done]))
                    continue
                if keep is not None and keep in waiting and keep.lines > 0:
                    op = keep
                else:
                    choice, lines, *stay = self.turns[n] if n < len(self.turns) else (0, LONG)
                    n += 1
                    op = waiting[choice % len(waiting)]
                    op.lines = lines if self.lines else LONG
                    keep = op if stay else None
                op.turns += 1
                if last is not None and last is not op and not last.done:
                    self.switches += 1
                last = op
                op.parked = False
                self.turn = op
                self.back.clear()
                op.go.set()
                self.wait_for(op)
        finally:
            self.world.dispatch = orig
        for th in threads:
            th.join(self.wait)
        return ops
