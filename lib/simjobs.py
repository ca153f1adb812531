"""
Simulated processes for job control: a shell starting jobs, looking whether they have ended, and sending signals.

A process is executed when it is started, but its messages are delivered, and it ends, only when the harness says so
(finish()), unless it is killed before. Signals have the usual effect (SIGTERM is pending while a process is stopped).
"""
import io
import multiprocessing
import multiprocessing.connection
import os
import pickle
import signal
import sys
import threading
import time
from multiprocessing.reduction import ForkingPickler

_world = None


def _restore_connection(id):
    pipe = _world.pipes[id]
    return Writer(pipe, _world.child)


class Pipe(object):
    def __init__(self, id):
        self.id = id
        self.sent = []         # by a process that has not ended
        self.messages = []     # can be received
        self.writers = []


class Reader(object):
    def __init__(self, pipe):
        self.pipe = pipe
        self.done = False

    def ready(self):
        return not self.done and (len(self.pipe.messages) > 0 or len(self.pipe.writers) == 0)

    def recv(self):
        if self.pipe.messages:
            return pickle.loads(self.pipe.messages.pop(0))
        assert not self.pipe.writers
        self.done = True
        raise EOFError()

    def poll(self, timeout=0):
        return self.ready()

    def close(self):
        pass


class Writer(object):
    def __init__(self, pipe, owner):
        self.pipe = pipe
        self.owner = owner
        self.closed = False
        pipe.writers.append(self)
        if owner is not None:
            owner.handles.append(self)

    def __reduce__(self):
        return _restore_connection, (self.pipe.id,)

    def send(self, x):
        self.pipe.sent.append(ForkingPickler.dumps(x).tobytes())

    def close(self):
        # A child's handles are closed when it ends
        if self.owner is None and not self.closed:
            self.closed = True
            self.pipe.writers.remove(self)


class Process(object):
    RUNNING, STOPPED, ENDED = 'running', 'stopped', 'ended'

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self.target = target
        self.args = tuple(args)
        self.kwargs = dict(kwargs)
        self.daemon = daemon
        self.pid = None
        self.state = None
        self.pending = False     # SIGTERM
        self.stubborn = False    # Ignores SIGTERM
        self.reaped = False
        self.handles = []
        self.output = None
        self.how = None

    def __repr__(self):
        return f'{self.pid}:{self.state}'

    def start(self):
        world = _world
        world.reap()
        self.pid = 9000001 + len(world.processes)
        world.processes.append(self)
        # The terminal's signals, as seen by the child
        self.sigint = signal.getsignal(signal.SIGINT)
        self.sigtstp = signal.getsignal(signal.SIGTSTP)
        state = ForkingPickler.dumps((self.target, self.args, self.kwargs))
        world.child = self
        cwd = os.getcwd()
        from marcel.object.workspace import Workspace
        from marcel.env import Environment
        default, Workspace.DEFAULT = Workspace.DEFAULT, None
        current, Environment.current = getattr(Environment, 'current', None), None
        streams = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        try:
            target, args, kwargs = pickle.loads(state)
            target(*args, **kwargs)
        finally:
            self.output = sys.stdout.getvalue()
            sys.stdout, sys.stderr = streams
            Workspace.DEFAULT = default
            Environment.current = current
            os.chdir(cwd)
            world.child = None
        self.state = Process.RUNNING

    def end(self, how):
        self.state = Process.ENDED
        self.how = how
        for handle in self.handles:
            if how == 'finished':
                handle.pipe.messages.extend(handle.pipe.sent)
            handle.pipe.sent.clear()
            handle.pipe.writers.remove(handle)

    def signal(self, sig):
        if self.state == Process.ENDED:
            return
        if sig == signal.SIGKILL:
            self.end('killed')
        elif sig == signal.SIGTERM:
            if self.stubborn:
                pass
            elif self.state == Process.STOPPED:
                self.pending = True
            else:
                self.end('killed')
        elif sig == signal.SIGTSTP or sig == signal.SIGSTOP:
            self.state = Process.STOPPED
        elif sig == signal.SIGCONT:
            self.state = Process.RUNNING
            if self.pending:
                self.end('killed')
        elif sig == signal.SIGINT:
            if self.sigint is not signal.SIG_IGN:
                self.end('killed')
        else:
            assert False, sig

    def is_alive(self):
        if self.state == Process.ENDED:
            self.reaped = True
            return False
        return self.state is not None

    def join(self, timeout=None):
        _world.waiting(self)
        if self.state == Process.ENDED:
            self.reaped = True
        else:
            assert timeout is not None, 'waits forever'

    @property
    def exitcode(self):
        return None if self.state != Process.ENDED else 0 if self.how == 'finished' else -15

    def terminate(self):
        self.signal(signal.SIGTERM)

    def kill(self):
        self.signal(signal.SIGKILL)


class World(object):
    """waiting(process) is called whenever the shell waits for a process"""

    def __init__(self, waiting):
        self.waiting = waiting
        self.pipes = []
        self.readers = []
        self.processes = []
        self.child = None
        self.listener_go = threading.Semaphore(0)
        self.listener_idle = threading.Semaphore(0)
        self.watched = []
        self.stop = False
        self.stopped = False

    def process(self, pid):
        for p in self.processes:
            if p.pid == pid:
                return p
        return None

    def reap(self):
        for p in self.processes:
            if p.state == Process.ENDED:
                p.reaped = True

    # The terminal

    def ctrl_z(self):
        for p in self.processes:
            if p.state == Process.RUNNING and p.sigtstp is signal.SIG_DFL:
                p.signal(signal.SIGTSTP)
        signal.getsignal(signal.SIGTSTP)(signal.SIGTSTP, None)

    def ctrl_c(self):
        for p in self.processes:
            p.signal(signal.SIGINT)
        signal.getsignal(signal.SIGINT)(signal.SIGINT, None)

    # The thread receiving messages

    def wait(self, handles, timeout=None):
        if threading.current_thread() is threading.main_thread():
            return [h for h in handles if h.ready()]
        self.watched = list(handles)
        self.listener_idle.release()
        self.listener_go.acquire()
        if self.stop:
            return []
        return [h for h in handles if h.ready()]

    def pump(self):
        """Until the thread has received what there is to be received"""
        deadline = time.time() + 20
        while any(r.ready() for r in self.readers):
            if self.listener_idle.acquire(timeout=0.001):
                self.listener_go.release()
            assert time.time() < deadline, 'messages are not received'

    def kill(self, pid, sig):
        p = self.process(pid)
        if p is None or p.reaped:
            raise ProcessLookupError(3, 'No such process')
        p.signal(sig)

    def pipe(self, duplex=True):
        assert not duplex
        pipe = Pipe(len(self.pipes))
        self.pipes.append(pipe)
        reader = Reader(pipe)
        self.readers.append(reader)
        return reader, Writer(pipe, None)

    def __enter__(self):
        global _world
        _world = self
        self.saved = (multiprocessing.Pipe, multiprocessing.Process, multiprocessing.connection.wait, os.kill)
        self.handlers = [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTSTP)]
        multiprocessing.Pipe = self.pipe
        multiprocessing.Process = Process
        multiprocessing.connection.wait = self.wait
        os.kill = self.kill
        return self

    def __exit__(self, *a):
        global _world
        self.stop = True
        self.listener_go.release()
        multiprocessing.Pipe, multiprocessing.Process, multiprocessing.connection.wait, os.kill = self.saved
        for s, h in self.handlers:
            signal.signal(s, h)
        _world = None
        return False
