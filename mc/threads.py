"""
A controlled scheduler for two real threads.

Every line the threads execute in the package under test is a scheduling point
(sys.settrace); between the points a thread runs alone.  A schedule is a list
of switches: thread 0 starts, switch k takes place after that many points of
the thread then running, and a thread which ends hands over to the other.  The
same schedule always gives the same interleaving.
"""
import sys
import threading

from mc import env

BLOCKED_SECONDS = 0.3


class Run(object):
    def __init__(self, jobs, switches, opcodes=False):
        self.jobs = jobs
        self.switches = list(switches)
        self.opcodes = opcodes
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.answers = [None, None]
        self.points = [0, 0]
        self.ended = [False, False]
        self.left = self.switches.pop(0) if self.switches else -1
        self.blocked = 0
        self.prefix = env.REPO + '/blmath/'

    def go(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for t in threads:
            t.start()
        self.turn[0].release()
        for t in threads:
            t.join()
        return self.answers

    def _thread(self, me):
        self.turn[me].acquire()
        sys.settrace(lambda frame, event, arg: self._enter(me, frame))
        try:
            try:
                self.answers[me] = self.jobs[me]()
            finally:
                sys.settrace(None)
        except Exception as e:
            self.answers[me] = e
        self.ended[me] = True
        self.turn[1 - me].release()

    def _enter(self, me, frame):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False

        def local(frame, event, arg):
            if event == 'opcode' or event == 'line':
                self._point(me)
            return local
        return local

    def _point(self, me):
        self.points[me] += 1
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        other = 1 - me
        if self.ended[other]:
            self.left = -1
            return
        self.left = self.switches.pop(0) if self.switches else -1
        self.turn[other].release()
        # a thread which cannot go on (it waits for a lock we hold) lets us go on
        if not self.turn[me].acquire(timeout=BLOCKED_SECONDS):
            self.blocked += 1


def points(job, opcodes=False):
    """The number of scheduling points of a job run alone."""
    run = Run([job, lambda: None], [], opcodes)
    run.go()
    return run.points[0]


def schedules(n, m, preemptions, limit=None):
    """All schedules of a thread of n points and one of m points with at most this
    many preemptions (switches away from a thread which could go on)."""
    yield ()
    for i in range(n):
        yield (i,)
    if preemptions >= 2 and (limit is None or n * m <= limit):
        for i in range(n):
            for j in range(m):
                yield (i, j)
