"""
Simulated programs, and a scheduler for threads.

While a World is entered, subprocess.Popen starts a simulated program (a generator, see below), and threads started, locks,
queues, selectors, and reads from and writes to the programs' streams are under the control of a scheduler: one thread runs at a
time, and at each point where it interacts with a program, another thread or program may go on instead. What goes on is decided
by the harness' symbolic choices.

A program is a generator yielding
    ('read',)                  -> the next line of stdin (bytes), b'' at the end
    ('write', stream, bytes)   stream is 1 or 2
    ('closein',)               closes stdin
    ('fork', generator)        starts a process which shares the streams
    ('step',)                  nothing
    ('never',)                 goes on forever
and terminates when it returns. The value returned is its exit code. Streams have a capacity (number of writes of the program;
number of lines, or bytes, for stdin). Writing to a stream that nobody reads kills the program.
"""
import _thread
import io
import os
import queue
import select
import selectors
import subprocess
import threading
import time

_world = None
FD = 1000000


class Deadlock(Exception):
    pass


class Abandoned(BaseException):
    pass


class Task(object):
    """A thread"""

    def __init__(self, name):
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.waiting = None        # condition, or None if it can run
        self.timed = False
        self.timed_out = False
        self.done = False
        self.ident = None

    def ready(self):
        return not self.done and (self.waiting is None or bool(self.waiting()))

    def __repr__(self):
        return self.name


class Stream(object):
    """A pipe"""

    def __init__(self, capacity):
        self.capacity = capacity
        self.chunks = []
        self.readers = 1
        self.writers = 1

    def full(self):
        return self.readers > 0 and len(self.chunks) >= self.capacity

    def readable(self):
        return len(self.chunks) > 0 or self.writers == 0

    def take(self, n):
        data = b''
        # A reader may see several writes at once
        if self.chunks:
            chunk = self.chunks.pop(0)
            if len(chunk) > n > 0:
                self.chunks.insert(0, chunk[n:])
                chunk = chunk[:n]
            data = chunk
        return data

    def take_line(self):
        data = b''.join(self.chunks)
        line, newline, rest = data.partition(b'\n')
        if not newline and self.writers > 0:
            return None
        self.chunks = [rest] if rest else []
        return line + newline


class Raw(io.RawIOBase):
    """marcel's end of a stream"""

    def __init__(self, world, stream, writing):
        super().__init__()
        self.world = world
        self.stream = stream
        self.writing = writing
        self.blocking = True
        self.fd = FD + len(world.fds)
        world.fds[self.fd] = self

    def readable(self):
        return not self.writing

    def writable(self):
        return self.writing

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        return self.fd

    def get(self, n):
        if self.blocking:
            self.world.switch(self.stream.readable)
        elif not self.stream.readable():
            raise BlockingIOError()
        return self.stream.take(n)

    def readinto(self, b):
        try:
            data = self.get(len(b))
        except BlockingIOError:
            return None
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self.world.switch(lambda: not self.stream.full())
        if self.stream.readers == 0:
            raise BrokenPipeError(32, 'Broken pipe')
        if len(b):
            self.stream.chunks.append(bytes(b))
        return len(b)

    def close(self):
        if not self.closed:
            super().close()
            if self.world is _world:
                if self.writing:
                    self.stream.writers -= 1
                else:
                    self.stream.readers -= 1
                # A program may be executing, if this is closed by the garbage collector
                if not self.world.dead and not self.world.stepping:
                    self.world.switch()


class Program(object):
    """A process, not under the control of a Popen object"""

    def __init__(self, world, name, generator, streams, parent=None):
        self.world = world
        self.name = name
        self.generator = generator
        self.streams = list(streams)
        self.exitcode = None
        self.lines = []
        self.request = None
        self.advance(None)

    def __repr__(self):
        return self.name

    def advance(self, x):
        try:
            self.request = self.generator.send(x)
        except StopIteration as e:
            self.exit(e.value or 0)

    def exit(self, code):
        self.exitcode = code
        self.request = None
        self.close(0)
        for i in (1, 2):
            if self.streams[i] is not None:
                self.streams[i].writers -= 1

    def close(self, i):
        if self.streams[i] is not None:
            self.streams[i].readers -= 1
            self.streams[i] = None

    def ready(self):
        if self.exitcode is not None:
            return False
        what = self.request[0]
        if what == 'read':
            s = self.streams[0]
            return s is None or s.writers == 0 or b'\n' in b''.join(s.chunks)
        if what == 'write':
            s = self.streams[self.request[1]]
            return s is None or not s.full()
        return what != 'never'

    def step(self):
        what = self.request[0]
        result = None
        if what == 'read':
            s = self.streams[0]
            result = b'' if s is None else s.take_line()
            if result:
                self.lines.append(result)
        elif what == 'write':
            s = self.streams[self.request[1]]
            if s is not None:
                if s.readers <= 0:
                    return self.exit(-13)
                s.chunks.append(self.request[2])
                self.world.written.append((self, self.request[1], self.request[2]))
        elif what == 'closein':
            self.close(0)
        elif what == 'fork':
            for i, s in enumerate(self.streams):
                if s is not None:
                    if i == 0:
                        s.readers += 1
                    else:
                        s.writers += 1
            self.world.programs.append(Program(self.world, f'{self.name}-child', self.request[1], self.streams))
        elif what == 'step':
            pass
        else:
            assert False, what
        self.advance(result)


class Popen(object):
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *, encoding=None, errors=None, text=None, **kw):
        world = _world
        self.args = args
        command = args if shell and isinstance(args, str) else args[0] if shell and len(args) == 1 else args
        if not shell and not isinstance(args, str) and len(args) == 3 and args[1] == '-c':
            command = args[2]   # bash -c
        world.commands.append(command)
        streams = [None, None, None]
        is_text = bool(text or universal_newlines or encoding or errors)
        self.stdin = self.stdout = self.stderr = None

        def wrap(i, redirected):
            if redirected == subprocess.PIPE:
                streams[i] = Stream(world.capacity)
                raw = Raw(world, streams[i], i == 0)
                f = io.BufferedWriter(raw) if i == 0 else io.BufferedReader(raw)
                if is_text:
                    f = io.TextIOWrapper(f, encoding or 'utf-8', errors, write_through=i == 0)
                return f
        self.stdin = wrap(0, stdin)
        self.stdout = wrap(1, stdout)
        if stderr == subprocess.STDOUT:
            streams[2] = streams[1]
            if streams[1] is not None:
                streams[1].writers += 1
        else:
            self.stderr = wrap(2, stderr)
        self.pid = 8000000 + len(world.started)
        program = world.program(command)
        self.program = Program(world, f'program{len(world.started)}', program, streams)
        world.programs.append(self.program)
        world.started.append(self.program)
        self.returncode = None
        world.switch()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f:
                f.close()
        self.wait()

    def ended(self):
        return self.program.exitcode is not None

    def poll(self):
        if self.returncode is None:
            _world.switch()
            if self.ended():
                self.returncode = self.program.exitcode
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            if not _world.switch(self.ended, timeout):
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self.program.exitcode
        return self.returncode

    def communicate(self, input=None, timeout=None):
        for raw in _world.fds.values():
            raw.stream.capacity = 1 << 30
        if self.stdin:
            try:
                if input:
                    self.stdin.write(input)
                self.stdin.close()
            except BrokenPipeError:
                pass
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        self.wait()
        return out, err

    def send_signal(self, signal):
        if not self.ended():
            self.program.exit(-signal)

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)


class Selector(object):
    def __init__(self):
        self.keys = {}

    def _fd(self, f):
        return f if isinstance(f, int) else f.fileno()

    def register(self, fileobj, events, data=None):
        fd = self._fd(fileobj)
        if fd in self.keys:
            raise KeyError(f'{fd} is already registered')
        self.keys[fd] = key = selectors.SelectorKey(fileobj, fd, events, data)
        return key

    def unregister(self, fileobj):
        for fd, key in self.keys.items():
            if key.fileobj is fileobj or fd == fileobj:
                return self.keys.pop(fd)
        raise KeyError(f'{fileobj} is not registered')

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return {key.fileobj: key for key in self.keys.values()}

    def get_key(self, fileobj):
        return self.get_map()[fileobj]

    def close(self):
        self.keys = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def select(self, timeout=None):
        def ready():
            result = []
            for fd, key in self.keys.items():
                raw = _world.fds[fd]
                events = 0
                if key.events & selectors.EVENT_READ and not raw.writing and raw.stream.readable():
                    events |= selectors.EVENT_READ
                if key.events & selectors.EVENT_WRITE and raw.writing and not raw.stream.full():
                    events |= selectors.EVENT_WRITE
                if events:
                    result.append((key, events))
            return result
        _world.switch(ready, timeout)
        return ready()


def _select(r, w, x, timeout=None):
    s = Selector()
    for f in r:
        s.register(f, selectors.EVENT_READ)
    for f in w:
        s.register(f, selectors.EVENT_WRITE)
    found = s.select(timeout)
    return ([k.fileobj for k, e in found if e & selectors.EVENT_READ], [k.fileobj for k, e in found if e & selectors.EVENT_WRITE], [])


class Lock(object):
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            if not blocking:
                return False
            if not _world.switch(lambda: not self.held, None if timeout is None or timeout < 0 else timeout):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(object):
    def __init__(self):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _world.current
        if self.owner not in (None, me):
            if not blocking:
                return False
            if not _world.switch(lambda: self.owner is None, None if timeout < 0 else timeout):
                return False
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is not _world.current:
            raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    # For Condition

    def _is_owned(self):
        return self.owner is _world.current

    def _release_save(self):
        n, self.n, self.owner = self.n, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n


_real_lock = _thread.allocate_lock
_real_os_read = os.read
_real_os_write = os.write
_real_os_close = os.close
_real_blocking = os.set_blocking
_real_sleep = time.sleep


class World(object):
    def __init__(self, c, program, capacity=2, preemptions=1, choices=3):
        self.c = c
        self.program = program             # command -> generator
        self.capacity = capacity
        self.preemptions = preemptions
        self.choices = choices
        self.n_choices = 0
        self.commands = []
        self.started = []
        self.programs = []
        self.written = []
        self.fds = {}
        self.tasks = []
        self.dead = False
        self.failure = None
        self.idle = 0
        self.stepping = False
        self.turn = 0
        self.uncaught = []

    # Scheduling

    def choose(self, options, budget):
        if len(options) == 1:
            return options[0]
        if getattr(self, budget) <= 0:
            return options[0]
        self.n_choices += 1
        k = self.c.small(f'schedule{self.n_choices}', 0, len(options) - 1)
        if k > 0:
            setattr(self, budget, getattr(self, budget) - 1)
        return options[k]

    def switch(self, condition=None, timeout=None):
        """
        The current thread waits for condition, or just gives others a chance to run. Returns False if the wait timed out.
        """
        me = self.current
        if self.dead:
            raise Abandoned()
        me.waiting = condition
        me.timed = condition is not None and timeout is not None
        me.timed_out = False
        while True:
            n = len(self.tasks) + len(self.programs)
            others = [x for x in self.programs + self.tasks if x is not me and x.ready()]
            if me.ready():
                # Continue, or preempt
                chosen = self.choose([me] + others, 'preemptions')
                self.idle = 0
            elif others:
                # Fair, unless chosen otherwise
                self.turn += 1
                k = self.turn % len(others)
                others = others[k:] + others[:k]
                timed = [('timeout', x) for x in self.tasks if x.timed and not x.done and not x.ready()] if self.choices > 0 else []
                chosen = self.choose(others + timed, 'choices')
                if type(chosen) is not tuple:
                    self.idle = 0
            else:
                timed = [x for x in self.tasks if x.timed and not x.done]
                self.idle += 1
                if not timed or self.idle > 12:
                    waiting = [x for x in self.tasks if not x.done]
                    self.fail(Deadlock(f'deadlock: waiting are {waiting}, and {[p for p in self.programs if p.exitcode is None]}'))
                    continue
                self.turn += 1
                chosen = ('timeout', timed[self.turn % len(timed)])
            if type(chosen) is Program:
                self.stepping = True
                try:
                    chosen.step()
                finally:
                    self.stepping = False
                continue
            if type(chosen) is tuple:
                chosen = chosen[1]
                chosen.timed_out = True
            if chosen is not me:
                self.transfer(me, chosen)
            break
        me.waiting = None
        me.timed = False
        return not me.timed_out or condition is None or bool(condition())

    def transfer(self, me, to):
        self.current = to
        to.baton.release()
        if not me.done:
            me.baton.acquire()
            if self.dead:
                raise Abandoned()
            if self.failure is not None and me is self.tasks[0]:
                raise self.failure

    def fail(self, e):
        if self.current is self.tasks[0]:
            raise e
        self.failure = e
        self.transfer(self.current, self.tasks[0])

    # Threads

    def start(self, thread):
        if thread._started.is_set():
            raise RuntimeError('threads can only be started once')
        task = Task(thread.name)
        thread._task = task
        self.tasks.append(task)

        def run():
            task.baton.acquire()
            task.ident = thread._ident = _thread.get_ident()
            thread._native_id = 0
            threading._active[thread._ident] = thread
            failure = None
            try:
                if not self.dead:
                    thread.run()
            except Abandoned:
                pass
            except Exception as e:
                self.uncaught.append(e)
            except BaseException as e:
                # Symbolic execution ends
                failure = e
            threading._active.pop(thread._ident, None)
            task.done = True
            if self.dead:
                self.exited.release()
                return
            try:
                if failure is not None:
                    self.failure = failure
                    self.transfer(task, self.tasks[0])
                else:
                    self.switch_from_dead(task)
            finally:
                self.exited.release()
        self.n_threads += 1
        _thread.start_new_thread(run, ())
        thread._started.set()
        self.switch()

    def switch_from_dead(self, task):
        task.waiting = lambda: False
        try:
            self.switch(lambda: False)
        except Abandoned:
            pass
        except BaseException as e:
            # A decision ended the symbolic execution
            self.failure = e
            self.transfer(task, self.tasks[0])

    def join(self, thread, timeout=None):
        self.switch(lambda: thread._task.done, timeout)

    # Patches

    def __enter__(self):
        global _world
        assert _world is None
        _world = self
        world = self
        main = Task('main')
        main.ident = _thread.get_ident()
        self.tasks.append(main)
        self.current = main
        self.exited = threading.Semaphore(0)
        self.n_threads = 0
        self.saved = []

        def patch(object, name, value):
            self.saved.append((object, name, object.__dict__[name]))
            setattr(object, name, value)
        patch(subprocess, 'Popen', Popen)
        patch(selectors, 'DefaultSelector', Selector)
        patch(select, 'select', _select)
        patch(threading, 'Lock', Lock)
        patch(threading, '_allocate_lock', Lock)
        patch(threading, 'RLock', RLock)
        patch(threading.Thread, 'start', lambda thread: world.start(thread))
        patch(threading.Thread, 'join', lambda thread, timeout=None: world.join(thread, timeout))
        patch(threading.Thread, 'is_alive', lambda thread: thread._started.is_set() and not thread._task.done)
        patch(queue, 'SimpleQueue', queue._PySimpleQueue)
        patch(os, 'read', lambda fd, n: world.fds[fd].get(n) if fd in world.fds else _real_os_read(fd, n))
        patch(os, 'write', lambda fd, b: world.fds[fd].write(b) if fd in world.fds else _real_os_write(fd, b))
        patch(os, 'close', lambda fd: world.fds[fd].close() if fd in world.fds else _real_os_close(fd))
        patch(os, 'set_blocking', lambda fd, x: setattr(world.fds[fd], 'blocking', x) if fd in world.fds else _real_blocking(fd, x))
        patch(time, 'sleep', lambda t: world.switch(lambda: False, t))
        return self

    def __exit__(self, *a):
        global _world
        for object, name, value in reversed(self.saved):
            setattr(object, name, value)
        self.dead = True
        for task in self.tasks[1:]:
            if not task.done:
                task.baton.release()
        for i in range(self.n_threads):
            self.exited.acquire(timeout=10)
        _world = None
        return False
