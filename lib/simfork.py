"""
Simulated multiprocessing: Process and Pipe(duplex=False), for a parent reading what its children write.

A child does not receive anything from its parent after it has been started, so it is executed when it is started,
and what is symbolic is when what it has done (each message sent, closing its end of the pipe, exiting) is noticed by the
parent: each time the parent looks, it may not have happened yet (up to a number of times). A child may also die, before
any of the messages it would have sent. What is passed to a child is pickled and unpickled, as by the spawn method.
"""
import io
import multiprocessing
import multiprocessing.connection
import os
import pickle
import sys
from multiprocessing.reduction import ForkingPickler


class Dead(BaseException):
    pass


class Deadlock(BaseException):
    """The parent waits for something that cannot happen"""


_world = None


def _restore_connection(id, writer):
    """A connection passed to a child: another handle for the same pipe"""
    pipe = _world.pipes[id]
    return pipe.handle(writer, _world.child)


class Pipe(object):
    def __init__(self, world, id):
        self.world = world
        self.id = id
        self.messages = []     # Sent and not received
        self.writers = []      # Handles open for writing
        self.eof_wait = 0

    def handle(self, writer, owner):
        return (Writer if writer else Reader)(self, owner)


class Handle(object):
    def __init__(self, pipe, owner):
        self.pipe = pipe
        self.owner = owner
        self.closed = False
        if owner is not None:
            owner.handles.append(self)

    def __reduce__(self):
        return _restore_connection, (self.pipe.id, type(self) is Writer)

    def check(self):
        if self.closed:
            raise OSError('handle is closed')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        self.check()
        return 1000 + self.pipe.id


class Reader(Handle):
    readable = True
    writable = False

    def close(self):
        self.closed = True

    def ready(self):
        """Is there a message, or end of file, by now?"""
        self.check()
        pipe = self.pipe
        if not pipe.messages and pipe.writers:
            # Nothing will ever come
            pipe.world.idle()
            return False
        return not pipe.world.late()

    def poll(self, timeout=0.0):
        return self.ready()

    def recv(self):
        self.check()
        if self.pipe.messages:
            return pickle.loads(self.pipe.messages.pop(0))
        if self.pipe.writers:
            raise Deadlock('recv: nothing to be received')
        raise EOFError()

    def recv_bytes(self, maxlength=None):
        return self.recv()


class Writer(Handle):
    readable = False
    writable = True

    def __init__(self, pipe, owner):
        super().__init__(pipe, owner)
        pipe.writers.append(self)

    def send(self, x):
        self.check()
        if self.owner is not None:
            self.owner.step()
        self.pipe.messages.append(ForkingPickler.dumps(x).tobytes())

    send_bytes = send

    def close(self):
        if not self.closed:
            self.closed = True
            self.pipe.writers.remove(self)


class Process(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self.target = target
        self.args = tuple(args)
        self.kwargs = dict(kwargs)
        self.daemon = daemon
        self.pid = None
        self.exitcode = None
        self.dead = False
        self.handles = []
        self.n_steps = 0

    def step(self):
        if self.dead:
            raise Dead()
        if _world.dies(self, self.n_steps):
            self.dead = True
            raise Dead()
        self.n_steps += 1

    def start(self):
        world = _world
        assert self.pid is None
        self.pid = 9000001 + len(world.processes)
        world.processes.append(self)
        state = ForkingPickler.dumps((self.target, self.args, self.kwargs))
        assert world.child is None
        world.child = self
        cwd = os.getcwd()
        # State of marcel in the memory of the parent, that the child does not inherit
        from marcel.object.workspace import Workspace
        from marcel.env import Environment
        default, Workspace.DEFAULT = Workspace.DEFAULT, None
        current, Environment.current = getattr(Environment, 'current', None), None
        streams = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        try:
            target, args, kwargs = pickle.loads(state)
            target(*args, **kwargs)
        except Dead:
            pass
        except BaseException as e:
            world.failures.append(e)
        finally:
            sys.stdout, sys.stderr = streams
            Workspace.DEFAULT = default
            Environment.current = current
            os.chdir(cwd)
            world.child = None
            # The operating system closes them
            for handle in self.handles:
                handle.close()

    def is_alive(self):
        if self.pid is None or self.exitcode is not None:
            return False
        if _world.late():
            return True
        self.exitcode = -9 if self.dead else 0
        return False

    def join(self, timeout=None):
        if timeout is None:
            self.exitcode = -9 if self.dead else 0
        else:
            self.is_alive()

    def terminate(self):
        pass

    kill = terminate

    def close(self):
        pass


class World(object):
    def __init__(self, c, late, deaths=0):
        self.c = c
        self.n_late = late
        self.n_deaths = deaths
        self.n = 0
        self.pipes = []
        self.processes = []
        self.child = None
        self.failures = []
        self.n_idle = 0

    def late(self):
        if self.n_late > 0 and self.child is None:
            self.n += 1
            if self.c.flag(f'late{self.n}'):
                self.n_late -= 1
                self.c.reach('late')
                return True
        return False

    def idle(self):
        self.n_idle += 1
        if self.n_idle > 50:
            raise Deadlock('waiting for input that cannot come')

    def dies(self, process, step):
        if self.n_deaths > 0 and self.c.flag(f'dies{process.pid}-{step}'):
            self.n_deaths -= 1
            self.c.reach('dies')
            return True
        return False

    def pipe(self, duplex=True):
        assert not duplex
        pipe = Pipe(self, len(self.pipes))
        self.pipes.append(pipe)
        return pipe.handle(False, None), pipe.handle(True, None)

    def wait(self, handles, timeout=None):
        ready = []
        handles = list(handles)
        while not ready:
            ready = [h for h in handles if h.ready()]
            if timeout is not None:
                break
        return ready

    def __enter__(self):
        global _world
        assert _world is None
        _world = self
        self.saved = (multiprocessing.Pipe, multiprocessing.Process, multiprocessing.connection.wait,
                      multiprocessing.connection.Pipe)
        multiprocessing.Pipe = multiprocessing.connection.Pipe = self.pipe
        multiprocessing.Process = Process
        multiprocessing.connection.wait = self.wait
        return self

    def __exit__(self, *a):
        global _world
        (multiprocessing.Pipe, multiprocessing.Process, multiprocessing.connection.wait,
         multiprocessing.connection.Pipe) = self.saved
        _world = None
        return False
