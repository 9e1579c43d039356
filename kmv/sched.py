"""Deterministic control of thread interleavings.

A Worker runs one operation in a thread of its own and can be paused at a chosen point:
the k-th kernel evaluation ('eval'), or the k-th line / bytecode executed in the
library's own source files ('line' / 'opcode', by a trace function). While it is paused,
other workers run. If another worker cannot finish because the paused one holds a lock,
the paused one is released: such a schedule is infeasible, not wrong.
"""
import os
import sys
import threading

JOIN_S = 60.0
LOCKED_S = 0.5


class Worker(object):
    def __init__(self, func, source_dir, pause_at=None, unit='line'):
        self.func, self.source_dir = func, source_dir
        self.pause_at, self.unit = pause_at, unit
        self.count = 0
        self.paused = threading.Event()
        self.go = threading.Event()
        self.done = threading.Event()
        self.result, self.error = None, None
        self.was_paused = False
        self.where = None
        self.thread = threading.Thread(target=self._run, daemon=True)

    # -------------------------------------------------------------- inside the thread
    def _point(self, where=None):
        self.count += 1
        if self.count == self.pause_at:
            self.was_paused = True
            self.where = where
            self.paused.set()
            self.go.wait(JOIN_S)

    def evaluation(self):
        """to be called by the kernel function"""
        if self.unit == 'eval' and threading.current_thread() is self.thread:
            self._point('evaluation')

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.source_dir):
            return None
        if self.unit == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if self.unit == 'opcode' and not frame.f_trace_opcodes:
            frame.f_trace_opcodes = True
        if event == self.unit:
            self._point('{}:{}'.format(os.path.basename(frame.f_code.co_filename),
                                       frame.f_lineno))
        return self._local

    def _run(self):
        if self.unit in ('line', 'opcode'):
            sys.settrace(self._trace)
        try:
            self.result = self.func()
        except BaseException as exc:
            self.error = exc
        finally:
            sys.settrace(None)
            self.done.set()
            self.paused.set()

    # ------------------------------------------------------------- outside the thread
    def start(self):
        self.thread.start()

    def run_to_pause(self):
        """True if it is paused, False if it finished"""
        self.start()
        return self.wait_pause(JOIN_S)

    def wait_pause(self, timeout):
        self.paused.wait(timeout)
        return not self.done.is_set()

    def finish(self, timeout=JOIN_S):
        """lets it run on; True if it finished in time"""
        self.go.set()
        self.thread.join(timeout)
        return not self.thread.is_alive()
