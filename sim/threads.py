"""A seeded scheduler for real threads: one runs at a time, and the schedule
decides at every source line of the code under test and at every file-system
call whether another one goes on."""
import threading

from sim.grids import quiet
from sim.world import HarnessError, Lines

STUCK = 20.0        # real seconds without progress: a lock held elsewhere


class Scheduler:
    """schedule: [[steps, actor], ...]; afterwards in turn to completion."""

    def __init__(self, world, schedule, lines=True, passing=()):
        self.world = world
        self.passing = passing      # files whose lines are no switch points
        self.schedule = [tuple(s) for s in schedule]
        self.lines = lines
        self.gates, self.alive, self.me = [], [], {}
        self.current, self.left = 0, 0
        self.over = threading.Event()
        self.beat = 0
        self.switches = 0
        self.where = "start"
        self.errors = []

    # -- called in the running actor's thread
    def point(self, where):
        """A place where another actor may go on."""
        me = self.me.get(threading.get_ident())
        if me is None:
            return
        self.beat += 1
        if getattr(quiet.held, "on", False):
            return
        self.left -= 1
        if self.left > 0 or me != self.current:
            return
        target = self._next()
        if target != me:
            self._log(me, target, where)
            self.gates[target].release()
            self.gates[me].acquire()

    def _next(self):
        while self.schedule:
            self.left, actor = self.schedule.pop(0)
            actor %= len(self.gates)
            if self.alive[actor]:
                self.current = actor
                return actor
        self.left = 10**12
        if not self.alive[self.current]:
            rest = [k for k, a in enumerate(self.alive) if a]
            if rest:
                self.current = rest[0]
        return self.current

    def _log(self, me, target, where):
        self.switches += 1
        self.world.trace.append(f"  {me} -> {target} at {where}")

    def _main(self, k, body):
        self.gates[k].acquire()
        try:
            body()
        except BaseException as e:      # bodies handle what they expect
            self.errors.append(e)
        self.alive[k] = False
        target = self._next()
        if not any(self.alive):
            self.over.set()
        else:
            self._log(k, target, "its end")
            self.gates[target].release()

    def _line(self, code, line):
        me = self.me.get(threading.get_ident())
        if me is None:
            return
        self.seen += 1
        if self.lines and not code.co_filename.endswith(self.passing or "\0"):
            self.point(f"{code.co_qualname}:+{line - code.co_firstlineno}")
        hook = self.hooks[me]
        if hook is not None:
            hook(code, line)

    # -- called by the harness
    def run(self, bodies, hooks=None):
        w = self.world
        self.hooks = hooks or [None] * len(bodies)
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True] * len(bodies)
        threads = [threading.Thread(target=self._main, args=(k, b),
                                    daemon=True)
                   for k, b in enumerate(bodies)]
        for k, t in enumerate(threads):
            t.start()
            self.me[t.ident] = k
        owners, w.owners = w.owners, set(self.me)
        w.io_n.clear()
        self.seen = 0
        w.on = True
        if self.lines:
            w.on_switch = lambda kind: self.point(kind)
        Lines.enable(self._line)
        stuck = 0
        try:
            first = self._next()
            self.gates[first].release()
            beat = self.beat
            while not self.over.wait(STUCK):
                if self.beat != beat:
                    beat, stuck = self.beat, 0
                    continue
                stuck += 1
                others = [k for k, a in enumerate(self.alive)
                          if a and k != self.current]
                if stuck > 4 or not others:
                    raise HarnessError("threads make no progress")
                # blocked on a lock that another actor holds
                self.current, self.left = others[stuck % len(others)], 10**12
                self.gates[self.current].release()
        finally:
            Lines.disable()
            w.on = False
            w.on_switch = None
            w.owners = owners
            w.n_events += sum(w.io_n.values())
            w.n_lines += self.seen
        for t in threads:
            t.join(5)
        if self.errors:
            raise self.errors[0]
