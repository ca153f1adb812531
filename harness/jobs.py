"""Job control of the interactive shell"""
import builtins
import os
import sys

import marceldrv as d
import simjobs
import streams
from symex import same, conj, disj, not_, implies, ite, total, b2i
from vcore import case, prop
from streams import scalars, expect, cli, cli_source, bind

FG, BG, PAUSED = '*', '+', '-'


def forget():
    """Nothing is left from a previous session"""
    import glob
    for saved in glob.glob(os.path.join(os.environ['HOME'], '**', '*.env.pickle'), recursive=True, include_hidden=True):
        os.remove(saved)
    # The session of a script, if any, shares its workspace with the one that has ended
    streams._cli = None


class Shell(object):
    """An interactive shell, whose terminal input comes from commands()"""

    def __init__(self, commands):
        import atexit
        import marcel.env
        import marcel.job
        import marcel.main
        import marcel.object.workspace
        forget()
        cli()
        workspace = marcel.object.workspace.Workspace.default()
        marcel.job.JobControl.only = None
        marcel.job.JobControl.pid = os.getpid()
        forget()
        with d.Capture():
            self.env = marcel.env.EnvironmentInteractive.create(workspace=workspace)
            self.main = marcel.main.MainInteractive(None, self.env)
            self.env.enforce_var_immutability()
        atexit.unregister(self.main.shutdown)
        self.commands = commands
        self.jobs = marcel.job

    def run(self):
        saved = builtins.input, sys.stdin
        output = []

        def input(*a):
            cap.out.flush()
            text = cap.out.getvalue() + cap.err.getvalue()
            cap.out.truncate(0)
            cap.out.seek(0)
            cap.err.truncate(0)
            cap.err.seek(0)
            try:
                return self.commands.send(text)
            except StopIteration:
                raise EOFError()
        next(self.commands)
        builtins.input = input
        sys.stdin = open(os.devnull)
        try:
            with d.Capture() as cap:
                self.main.run()
        finally:
            sys.stdin.close()
            builtins.input, sys.stdin = saved

    def shutdown(self):
        with d.Capture():
            self.main.shutdown(restart=True)


class Job(object):
    def __init__(self, process, source, i):
        self.process = process
        self.source = source
        self.i = i
        self.state = FG

    def __repr__(self):
        return f'{self.source}({self.state})'


def session(c, n_commands, n_events, kinds, hows, stubborn):
    log = []
    jobs = []          # that have not ended
    world = None
    events = [n_events]
    busy = []
    started = [0]
    counter = [0]
    V = c.ints('v', 2)

    def name(x):
        counter[0] += 1
        return f'{x}{counter[0]}'

    def job_of(process):
        for job in jobs:
            if job.process is process:
                return job
        return None

    def notice():
        """Processes that have been started"""
        for p in world.processes[started[0]:]:
            i = started[0]
            started[0] += 1
            jobs.append(Job(p, sources[-1], i))
            if stubborn and i == 0:
                p.stubborn = True

    def agree(when):
        for job in jobs:
            expected = simjobs.Process.STOPPED if job.state == PAUSED else simjobs.Process.RUNNING
            c.check(job.process.state == expected, f'{log}: {when}: {job} is {job.process.state}')
        for p in world.processes:
            if job_of(p) is None:
                c.check(p.state == simjobs.Process.ENDED, f'{log}: {when}: job {p} should have ended')
        c.check(len([j for j in jobs if j.state == FG]) <= 1, f'{log}: {when}: several jobs in the foreground {jobs}')

    ended = {}
    appended = [0]      # Number of jobs that appended to rr, None if that is not known

    def appends(job):
        return job.source.endswith('rr')

    def finish(job):
        log.append(f'{job.source} ends')
        job.process.end('finished')
        ended[job.i] = True
        jobs.remove(job)
        if appends(job) and appended[0] is not None:
            appended[0] += 1
        world.pump()

    def event(options):
        """Something happens: a job ends, or the terminal sends a signal"""
        e = c.pick(name('event'), options)
        busy.append(e)
        if e == 'ctrl-c':
            log.append(e)
            world.ctrl_c()
            c.reach(e)
            for job in [j for j in jobs if j.state == FG]:
                jobs.remove(job)
                ended[job.i] = False
                if appends(job):
                    appended[0] = None
        elif e == 'ctrl-z':
            log.append(e)
            world.ctrl_z()
            c.reach(e)
            for job in jobs:
                if job.state == FG:
                    job.state = PAUSED
        elif e is not None:
            finish(e)
        busy.pop()
        agree(e)

    def waiting(process):
        # The shell waits for a process
        notice()
        job = job_of(process)
        if job is None or shell is None or busy:
            return
        c.check(job.state == FG, f'{log}: the shell waits for {job}')
        running = [j for j in jobs if j.state == BG]
        if events[0] > 0:
            events[0] -= 1
            event([job, 'ctrl-c', 'ctrl-z'] + running)
        else:
            finish(job)

    sources = []

    def commands():
        text = yield
        for i in range(n_commands + 1):
            notice()
            # At the prompt
            fg = [j for j in jobs if j.state == FG]
            c.check(not fg, f'{log}: the shell does not wait for {fg}')
            agree('prompt')
            running = [j for j in jobs if j.state == BG]
            if events[0] > 0 and jobs:
                options = [None, 'ctrl-c', 'ctrl-z'] + running
                before = len(log)
                event(options)
                if len(log) > before:
                    events[0] -= 1
            world.pump()
            # What jobs have stored is available if and only if they have not been killed
            for k, ok in ended.items():
                if sources[k].endswith(f'r{k}'):
                    c.check(env.hasvar(f'r{k}') == ok, f'{log}: r{k} defined: {env.hasvar(f"r{k}")}')
            if appended[0] and not any(appends(j) for j in jobs):
                contents = list(env.getvar('rr'))
                c.check(same(contents, [(x,) for x in V[:2]] * appended[0]), f'{log}: rr contains {contents}, V: {V}')
                c.reach('appended')
            if i == n_commands:
                break
            kind = kinds[0] if i == 0 else c.pick(f'command{i}', kinds)
            valid = None
            if kind in ('run', 'store', 'append'):
                k = len(sources)
                source = (f'gen 1 {k}' if kind == 'run' else f'gen 2 | map (x: V[x]) >$ r{k}' if kind == 'store' else
                          'gen 2 | map (x: V[x]) >>$ rr')
                if kind == 'append' and any(appends(j) for j in jobs):
                    # Jobs appending at the same time
                    appended[0] = None
                sources.append(source)
                log.append(source)
                text = yield source
                notice()
                c.check(len(world.processes) == len(sources), f'{log}: {source} was not run: {text}')
            elif kind == 'jobs':
                log.append('jobs')
                listed = list(jobs)
                text = yield 'jobs'
                lines = text.strip().split('\n') if text.strip() else []
                expected = [f'{x}({j.state}): {j.process.pid}  {j.source}' for x, j in enumerate(listed)]
                c.check([l.strip() for l in lines] == expected, f'{log}: {lines}, expected {expected}')
                c.reach('jobs')
            else:
                how = c.pick(f'how{i}', hows)
                # A job, or one that does not exist (any more)
                x = c.pick(f'job{i}', list(range(len(jobs) + 1)))
                job = jobs[x] if x < len(jobs) else None
                if how == '-p ':
                    gone = [p for p in world.processes if p.state == simjobs.Process.ENDED]
                    number = job.process.pid if job else gone[0].pid if gone else 4000000
                else:
                    number = x
                command = f'{kind} ({number})' if how == '(' else f'{kind} {how}{number}'
                log.append(command)
                if job is not None:
                    job.state = FG if kind == 'fg' else BG
                    c.reach(kind)
                text = yield command
                if job is None:
                    c.reach('no job')
                    c.check(text.strip() != '', f'{log}: no error')
                else:
                    c.check(text.strip() == '', f'{log}: {text}')

    shell = None
    with simjobs.World(waiting) as world:
        s = Shell(commands())
        env = s.env
        env.setvar('V', V)
        shell = s
        try:
            s.run()
            log.append('exit')
            shell = None
            s.shutdown()
            for p in world.processes:
                c.check(p.state == simjobs.Process.ENDED, f'{log}: {p} survives the shell')
            c.reach('exit')
        finally:
            world.stop = True
            if shell is not None:
                shell = None
                s.shutdown()
            for var in ('V', 'rr'):
                if env.hasvar(var):
                    env.delvar(var)


@prop('P26', ['MainInteractive.run', 'JobControl', 'Job', 'ChildListener', 'run_command_in_child', 'Jobs', 'Fg', 'Bg', 'JobOp'],
      {'quick': 'sessions of 3 commands (run, store, append, jobs, fg and bg of any job, or of none) and 2 events (a job ends, ctrl-C, '
                'ctrl-Z, at the prompt or while a job is in the foreground); jobs that ignore SIGTERM',
       'thorough': '4 commands'},
      ['Processes, pipes and signals are simulated; signal handlers run only while the shell waits for a job or for input; a '
       'terminal sends ctrl-Z to all running processes. Messages are received before the next command is read'])
def p26(tier):
    q = tier == 'quick'
    n, e = (3, 2) if q else (4, 2)
    cases = []
    for first in ('run', 'store'):
        for others in (['jobs', 'fg', 'bg'], ['run', 'fg', 'bg'], ['store', 'jobs']):
            hows = ['', '-j ', '-p ', '('] if not q else ['(', '-p '] if first == 'run' and others[0] == 'run' else ['']
            kinds = [first] + [k for k in others if k != first]
            cases.append(case(f'{first}-{"-".join(others)}', session, n, e, kinds, hows, False, reach=['exit', 'ctrl-c', 'ctrl-z']))
        if first == 'store':
            cases.append(case('append', session, n + 1, 1, ['append', 'bg', 'run'], [''], False, reach=['exit', 'appended', 'ctrl-c', 'ctrl-z']))
        cases.append(case(f'{first}-stubborn', session, 3 if q else 4, 2, [first, 'fg', 'bg'], [''], True, reach=['exit', 'ctrl-c']))
    return cases
