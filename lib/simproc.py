"""
Simulated processes, sharing the real file system (of a scratch directory).

Each process is a thread, but only one runs at a time, and only the scheduler (in the main thread) decides which. A
process pauses before each file system operation on a watched path. os.getpid(), os.getppid() and os.kill(pid, 0) refer
to the simulated processes. A process that is killed does not do anything anymore: what it has written to a file
without flushing is lost, files renamed, created, and so on, remain.
"""
import builtins
import io
import os
import threading


class Dead(BaseException):
    """Raised in the thread of a dead process. (Its file system operations have no effect.)"""


class Process(object):

    def __init__(self, machine, name, pid, ppid, body):
        self.machine = machine
        self.name = name
        self.pid = pid
        self.ppid = ppid
        self.alive = True
        self.finished = False
        self.error = None
        self.go = threading.Semaphore(0)
        self.paused = threading.Semaphore(0)
        self.files = []

        def run():
            self.go.acquire()
            try:
                if self.alive:
                    body(self)
            except Dead:
                pass
            except BaseException as e:
                if self.alive:
                    self.error = e
            self.finished = True
            self.paused.release()

        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.process = self
        self.thread.start()

    def __repr__(self):
        return f'{self.name}({self.pid})'

    def pause(self):
        """Called by the process: lets others run"""
        if not self.alive:
            raise Dead()
        self.paused.release()
        self.go.acquire()
        if not self.alive:
            raise Dead()

    def step(self):
        """Called by the scheduler: runs the process up to the next operation"""
        assert self.alive and not self.finished
        self.go.release()
        self.paused.acquire()


class File(io.BufferedWriter):
    """A file written by a simulated process"""

    def __init__(self, process, path, mode):
        super().__init__(io.FileIO(path, mode.replace('b', '').replace('t', '')), buffer_size=1 << 20)
        self.process = process
        process.files.append(self)

    def close(self):
        # Flushing is an operation on the file system. (Closing without anything to flush is not.)
        if not self.closed:
            if self.process.alive:
                if threading.current_thread() is self.process.thread:
                    self.process.pause()
                super().close()
            else:
                self.discard()

    def discard(self):
        if not self.closed:
            os.close(os.dup(self.raw.fileno()))
            try:
                self.raw.close()
            except OSError:
                pass


class Machine(object):

    DEAD = 7777777   # pid of a process that does not exist
    PATH_FUNCTIONS = ('stat', 'lstat', 'listdir', 'scandir', 'rename', 'replace', 'unlink', 'remove', 'mkdir', 'rmdir',
                      'open', 'chmod', 'link', 'symlink')

    def __init__(self, watched):
        self.watched = [os.fspath(w) for w in watched]
        self.processes = []
        self.saved = {}

    def spawn(self, name, body, ppid=1):
        p = Process(self, name, 8000001 + len(self.processes), ppid, body)
        self.processes.append(p)
        return p

    def kill(self, p):
        p.alive = False

    def active(self):
        return [p for p in self.processes if p.alive and not p.finished]

    def is_watched(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        return isinstance(path, str) and any(path == w or path.startswith(w + '/') for w in self.watched)

    # The file system

    def __enter__(self):
        machine = self

        def current():
            return getattr(threading.current_thread(), 'process', None)

        def wrap(f):
            def g(path, *args, **kwargs):
                p = current()
                if p is not None and p.machine is machine:
                    if not p.alive:
                        raise Dead()
                    if machine.is_watched(path) or args and machine.is_watched(args[0]):
                        p.pause()
                return f(path, *args, **kwargs)
            return g

        def getpid():
            p = current()
            return machine.saved['getpid']() if p is None else p.pid

        def getppid():
            p = current()
            return machine.saved['getppid']() if p is None else p.ppid

        def kill(pid, signal):
            assert signal == 0, f'kill {pid} {signal}'
            if not any(p.pid == pid and p.alive for p in machine.processes):
                raise ProcessLookupError(3, 'No such process')

        def open(file, mode='r', *args, **kwargs):
            p = current()
            if p is not None and p.machine is machine:
                if not p.alive:
                    raise Dead()
                if machine.is_watched(file):
                    p.pause()
                    if mode in ('wb', 'w', 'wt', 'ab', 'xb', 'x', 'a'):
                        f = File(p, os.fspath(file), mode)
                        return f if 'b' in mode else io.TextIOWrapper(f, write_through=True)
            return machine.saved['builtins.open'](file, mode, *args, **kwargs)

        import psutil
        self.saved = {name: getattr(os, name) for name in Machine.PATH_FUNCTIONS + ('getpid', 'getppid', 'kill')}
        self.saved['builtins.open'] = builtins.open
        self.saved['io.open'] = io.open
        self.saved['psutil'] = psutil.pid_exists, psutil.pids
        for name in Machine.PATH_FUNCTIONS:
            setattr(os, name, wrap(self.saved[name]))
        os.getpid, os.getppid, os.kill = getpid, getppid, kill
        builtins.open = io.open = open
        psutil.pid_exists = lambda pid: any(p.pid == pid and p.alive for p in machine.processes)
        psutil.pids = lambda: [p.pid for p in machine.processes if p.alive]
        return self

    def __exit__(self, *a):
        # End all threads, without any effect
        for p in self.processes:
            p.alive = False
            for f in p.files:
                f.discard()
            while not p.finished:
                p.go.release()
                p.paused.acquire()
            p.thread.join()
        import psutil
        for name, f in self.saved.items():
            if name not in ('builtins.open', 'io.open', 'psutil'):
                setattr(os, name, f)
        builtins.open = self.saved['builtins.open']
        io.open = self.saved['io.open']
        psutil.pid_exists, psutil.pids = self.saved['psutil']
        return False

    # Scheduling

    def run(self, c, switches, crashes=0, crashable=None, steps=400, prefix=''):
        """
        Runs all processes until each has ended. Which one starts, at which operations another one continues (up to
        the given number of times) and at which ones a process dies is symbolic.
        """
        schedule = []
        active = self.active()
        current = active[0] if len(active) == 1 else c.pick(prefix + 'first', active)
        n = 0
        while True:
            active = self.active()
            if not active:
                break
            if current not in active:
                current = active[0] if len(active) == 1 else c.pick(f'{prefix}next{n}', active)
            elif len(active) > 1 and switches > 0 and n > 0 and c.flag(f'{prefix}switch{n}'):
                switches -= 1
                others = [p for p in active if p is not current]
                current = others[0] if len(others) == 1 else c.pick(f'{prefix}to{n}', others)
                c.reach('switch')
            if crashes > 0 and (crashable is None or current in crashable) and c.flag(f'{prefix}crash{n}'):
                crashes -= 1
                self.kill(current)
                schedule.append(f'{current} dies')
                c.reach('crash')
                n += 1
                continue
            if not schedule or schedule[-1] != current.name:
                schedule.append(current.name)
            current.step()
            n += 1
            if n > steps:
                c.fail(f'no termination: {schedule}')
        return schedule
