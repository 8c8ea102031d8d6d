"""Runs functions in threads under a generated schedule, switching at the source lines of selected files.

Real threads execute the real code; only one of them runs at a time.  A thread that does not reach its next line
(because it waits for a lock held by another) is set aside until it does.
"""
import sys
import threading
import time


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, files, schedule, patience=0.05):
        self.files, self.schedule, self.patience = files, list(schedule), patience
        self.cond = threading.Condition()
        self.switches = 0

    def _trace(self, k):
        def local(frame, event, arg):
            if event == "line":
                self._pause(k)
            return local

        def glob(frame, event, arg):
            if any(f in frame.f_code.co_filename for f in self.files):
                return local
            return None

        return glob

    def _pause(self, k):
        with self.cond:
            self.state[k] = "ready"
            self.cond.notify_all()
            while self.turn != k:
                self.cond.wait()
            self.turn = None
            self.state[k] = "running"

    def run(self, fns):
        n = len(fns)
        self.state = ["new"] * n
        self.turn = None
        errors = [None] * n

        def main(k):
            self._pause(k)
            sys.settrace(self._trace(k))
            try:
                fns[k]()
            except Exception as e:  # kept for the caller
                errors[k] = e
            finally:
                sys.settrace(None)
                with self.cond:
                    self.state[k] = "done"
                    self.cond.notify_all()

        ts = [threading.Thread(target=main, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        pos, last, idle = 0, None, 0
        while True:
            with self.cond:
                end = time.time() + 5
                while any(s == "new" for s in self.state):
                    self.cond.wait(1)
                ready = [k for k in range(n) if self.state[k] == "ready"]
                if not ready:
                    if all(s == "done" for s in self.state):
                        break
                    self.cond.wait(self.patience)
                    idle += 1
                    if idle > 100:
                        raise Deadlock("threads %r never proceed" % [k for k in range(n) if self.state[k] != "done"])
                    continue
                idle = 0
                k = ready[(self.schedule[pos % len(self.schedule)] if self.schedule else 0) % len(ready)]
                pos += 1
                if last is not None and k != last:
                    self.switches += 1
                last = k
                self.state[k] = "running"
                self.turn = k
                self.cond.notify_all()
                end = time.time() + self.patience
                while (self.turn == k or self.state[k] == "running") and time.time() < end:
                    self.cond.wait(self.patience)
                # Still running: it is waiting for something; go on with the others.
        for t in ts:
            t.join(5)
        return errors
