"""
Sets up geophile/marcel, from /repo's working tree, for execution inside a harness: scratch HOME, no history, no
effect outside the scratch directory.
"""
import atexit
import builtins
import io
import os
import pathlib
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'

_scratch = None


def scratch_dir():
    """Scratch directory of this process, also used as HOME. Removed by the process that created the root."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        root = os.environ.get('VERIF_SCRATCH')
        if root is None:
            root = scratch_root()
        _scratch = os.getpid(), tempfile.mkdtemp(prefix='w', dir=root)
    return _scratch[1]


def scratch_root():
    root = tempfile.mkdtemp(prefix='verif-marcel-')
    os.environ['VERIF_SCRATCH'] = root
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            for dir, dirs, files in os.walk(root):
                for d in dirs:
                    try:
                        os.chmod(os.path.join(dir, d), 0o700)
                    except OSError:
                        pass
            shutil.rmtree(root, ignore_errors=True)
    atexit.register(remove)
    return root


def prepare():
    sys.dont_write_bytecode = True
    home = os.path.join(scratch_dir(), 'home')
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    for v in ('XDG_CONFIG_HOME', 'XDG_DATA_HOME'):
        os.environ.pop(v, None)
    os.environ.setdefault('USER', 'root')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    os.chdir(home)
    tempfile.tempdir = None
    os.environ['TMPDIR'] = os.path.join(scratch_dir(), 'tmp')
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)


class _TypeMeta(type):

    def __call__(cls, *args, **kwargs):
        import symex
        if len(args) == 1:
            t = builtins.type(args[0])
            if t is symex.SymInt:
                return int
            if t is symex.SymBool:
                return bool
            pretend = getattr(t, '_pretend_type', None)
            if pretend is not None:
                return pretend
            return t
        return builtins.type(*args, **kwargs)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __eq__(cls, other):
        return other is cls or other is builtins.type

    def __hash__(cls):
        return hash(builtins.type)


class symtype(metaclass=_TypeMeta):
    pass


def symrange(*args):
    import symex
    if not any(builtins.type(x) is symex.SymInt for x in args):
        return builtins.range(*args)
    start, stop, step = ((0, args[0], 1) if len(args) == 1 else
                         (args[0], args[1], 1) if len(args) == 2 else
                         args)

    def generate():
        x = start
        while (x < stop) if step > 0 else (x > stop):
            yield x
            x = x + step
    return generate()


def instrument_types():
    """
    `type(x)` in marcel's modules reports the type that a proxy stands for. (isinstance() already does.)
    `range` accepts symbolic integers.
    """
    for name, module in list(sys.modules.items()):
        if (name == 'marcel' or name.startswith('marcel.')) and module is not None:
            module.__dict__['type'] = symtype
            module.__dict__['range'] = symrange


_api = None


def api():
    global _api
    if _api is None:
        prepare()
        import marcel.persistence.storagelayout
        marcel.persistence.storagelayout.ensure_current(testing=True)
        import marcel.api
        marcel.api.INITIALIZATION.ensure_initialized()
        _api = marcel.api
    return _api


def start(symbolic, strings=False):
    if symbolic and strings:
        import symstr
        symstr.install(REPO)
    a = api()
    if symbolic:
        instrument_types()
        if strings:
            import csv
            import symcsv
            for name, module in list(sys.modules.items()):
                if (name == 'marcel' or name.startswith('marcel.')) and getattr(module, 'csv', None) is csv:
                    module.csv = symcsv
    return a


class Capture(object):
    """Captures stdout/stderr"""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        return False

    def stdout(self):
        return self.out.getvalue()

    def stderr(self):
        return self.err.getvalue()


# Streams through the API ----------------------------------------------------------------------------------------

def source(xs):
    """An API pipeline yielding exactly xs, and then end of stream."""
    a = api()
    xs = list(xs)
    if not xs:
        return a.gen(1) | a.select(lambda i: False)
    return a.gen(len(xs)) | a.map(lambda i: xs[i])


class Killed(Exception):
    pass


def gather(pipeline, errors=None, unwrap=True):
    """Output of the pipeline. A command killed by an error raises Killed."""
    a = api()
    with Capture() as cap:
        out = a.gather(pipeline, unwrap_singleton=unwrap, errors=errors)
    if cap.stderr():
        raise Killed(cap.stderr().strip())
    return out


def is_error(x):
    import marcel.object.error
    return builtins.type(x) is marcel.object.error.Error


# Command line ---------------------------------------------------------------------------------------------------

class Cli(object):
    """A non-interactive session (like a script), in the default workspace of the scratch HOME."""

    def __init__(self, interactive=False):
        prepare()
        import marcel.env
        import marcel.main
        import marcel.object.workspace
        import marcel.persistence.storagelayout
        import marcel.parser
        import marcel.exception
        self.marcel = sys.modules['marcel']
        marcel.persistence.storagelayout.ensure_current(testing=True)
        workspace = marcel.object.workspace.Workspace.default()
        with Capture() as cap:
            if interactive:
                self.env = marcel.env.EnvironmentInteractive.create(workspace=workspace)
                self.main = marcel.main.MainInteractive(None, self.env, testing=True)
            else:
                self.env = marcel.env.Environment.create(workspace=workspace)
                self.main = marcel.main.MainScript(self.env)
            self.env.enforce_var_immutability()
        atexit.unregister(self.main.shutdown)

    def run(self, text):
        """Runs a command just as a script would. Returns (stdout, stderr)"""
        with Capture() as cap:
            self.main.parse_and_run_command(text)
        return cap.stdout(), cap.stderr()

    def gather(self, text, unwrap=True, errors=None):
        """Runs a command, returning the values that it outputs. Raises Killed if the command is killed."""
        import marcel.core
        import marcel.exception
        import marcel.opmodule
        import marcel.parser
        env = self.env
        out = []
        try:
            env.workspace.namespace.set_env(env)
            pipeline = marcel.parser.Parser(text, env).parse()
            op = env.op_modules['gather'].api_function()(output=out, unwrap_singleton=unwrap, errors=errors)
            pipeline.append(op)
            with Capture() as cap:
                marcel.core.Command(text, pipeline).execute(env)
            self.last_output = cap.stdout(), cap.stderr()
        except marcel.exception.KillCommandException as e:
            raise Killed(str(e))
        return out
