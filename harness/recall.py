"""Recalling and editing commands of the history"""
import os
import shlex
import sys

import marceldrv as d
import simjobs
from symex import same
from vcore import case, prop
from jobs import Shell, forget

# Commands of the history. What they write shows which of them are executed
COMMANDS = ['gen 1 11', 'gen 1 22', 'gen 2\n| map (x: x + 33)', 'gen 1 44 | map (x: "edit 1")']
OUTPUTS = {'gen 1 11': ['11'], 'gen 1 22': ['22'], 'gen 2\n| map (x: x + 33)': ['33', '34'], 'gen 1 44 | map (x: "edit 1")': ['edit 1'],
           'gen 1 77': ['77'], 'gen 2 88\n| map (x: x)': ['88', '89']}
# What the user does in the editor: nothing, or replaces the text. Editors put a newline at the end of the last line
EDITS = [None, 'gen 1 77\n', 'gen 1 77', 'gen 2 88\n| map (x: x)\n', '']


class History(object):
    """Of prompt_toolkit"""

    def __init__(self, commands):
        self.commands = commands

    def load_history_strings(self):
        return list(reversed(self.commands))

    def get_strings(self):
        return list(self.commands)

    def append_string(self, text):
        self.commands.append(text)


class Document(object):

    def __init__(self, text):
        self.text = text


class Buffer(object):
    """Of prompt_toolkit, holding one command"""

    def __init__(self, history, text):
        self.history = history
        self.text = text
        self.accepted = None

    @property
    def document(self):
        return Document(self.text)

    def delete_before_cursor(self, n):
        self.text = self.text[:len(self.text) - n]

    def insert_text(self, text):
        self.text = self.text + text

    def validate_and_handle(self):
        self.accepted = self.text
        if len(self.text) > 0:
            self.history.append_string(self.text)


class Event(object):

    def __init__(self, buffer):
        self.current_buffer = buffer


def press_enter(reader, text):
    """The user types text, then enter. Returns the command to be executed"""
    buffer = Buffer(reader._history, text)
    for binding in reader.setup_key_bindings().bindings:
        if [getattr(k, 'value', k) for k in binding.keys] == ['c-m']:
            binding.handler(Event(buffer))
            return buffer.accepted
    assert False


def number(c, name, k, symbolic):
    """The text of a number from -1 to k + 1, and its value"""
    if symbolic:
        from symex import SymInt
        text = c.string(name, 1, [ord(str(x)) for x in range(k + 2)])
        var = c.vars[name + '0'] if hasattr(c, 'vars') else None
        return text, (SymInt(var) - 48 if var is not None else int(text))
    n = c.small(name, 0, k + 2) - 1
    return str(n), n


def recall(c, k, forms, symbolic):
    """k commands, then those of forms, in which N stands for a number"""
    import subprocess
    typed = [COMMANDS[c.small(f'c{i}', 0, len(COMMANDS) - 1)] if len(forms) == 1 and k <= 2 else COMMANDS[(i + k) % 4] for i in range(k)]
    history = []       # what it should be
    indirect = []

    def commands():
        """Generates what the user types, and checks the response"""
        for text in typed:
            history.append(text)
            response = yield text
            c.check(response == ''.join(x + '\n' for x in OUTPUTS[text]), f'{text}: {response}')
        for i, form in enumerate(forms):
            text, n = form, None
            if 'N' in form:
                digits, n = number(c, f'n{i}', k, symbolic)
                a, _, b = form.partition('N')
                text = a + digits + b
            kind = next(x for x in ('!!', '!', form.split()[0]) if form.strip().startswith(x))
            # The command that is to be executed or edited, if any
            excess = len(form.split()) > 1 if kind == '!!' else len(form.replace('!', '! ').split()) > 2
            selected = None
            if kind in ('!', '!!', 'edit', 'run') and not excess and form not in ('edit -s', 'edit x', '! x'):
                if n is not None:
                    if n >= 0 and n < len(history):
                        selected = history[n]
                        if kind == 'run' and selected.split()[0] == 'run':
                            selected = None
                elif kind == 'run':
                    selected = next((x for x in reversed(history) if x.split()[0] != 'run'), None)
                elif kind != '!':
                    selected = history[-1] if history else None
            # What becomes part of the history
            editor.edited = []
            if kind in ('run', 'gen', 'history', 'editor', 'edits'):
                history.append(text)
            before = list(history)
            if selected is None:
                response = yield text
                if kind == 'gen':
                    c.check(response == '0\n', f'{text}: {response}')
                elif kind == 'history':
                    listed = list(enumerate(history))
                    if '-c' in form:
                        listed = [(j, x) for j, x in listed if 'gen 1' in x]
                    if n is not None:
                        if n >= 1:
                            listed = listed[-int(n):]
                        else:
                            c.reach('rejected')
                            c.check('integer' in response or 'digit' in response or 'flag' in response, f'{text}: {response}')
                            continue
                    c.check(response == ''.join(f'  {j}:  {x}\n' for j, x in listed), f'{text}: {response}, expected {listed}')
                    c.reach('history')
                elif form == 'edit -s':
                    c.check(response == '' and len(editor.edited) == 1, f'{text}: {response}')
                    history.append(text)
                else:
                    # Rejected, and nothing is executed
                    c.check(response.strip() != '', f'{text}: no message')
                    c.check(not any(line in ('0', '11', '22', '33', '44') for line in response.split('\n')), f'{text}: {response}')
                    c.check(response.count('\n') == 1, f'{text}: more than one message: {response}')
                    c.check(not editor.edited, f'{text}: edited {editor.edited}')
                    c.reach('rejected')
                continue
            result = selected
            if kind == 'edit':
                edit = EDITS[c.small(f'e{i}', 0, len(EDITS) - 1)]
                editor.edit = edit
                result = selected if edit is None else edit.rstrip('\n')
            if kind != 'run' and result:
                history.append(result)
            response = yield text
            if result and result not in OUTPUTS:
                c.reach('indirect')
                indirect.append(text)
                # A command of this kind has been recalled
                return
            c.check(editor.edited == ([selected] if kind == 'edit' else []), f'{text}: edited {editor.edited}, expected {selected}')
            expected = ''.join(x + '\n' for x in OUTPUTS[result]) if result in OUTPUTS else ''
            c.check(response == expected, f'{history}: {text}: {response}, expected {expected}')
            c.reach('recalled')

    source = commands()
    editor = Editor()
    import marcel.runeditor
    saved = marcel.runeditor.subprocess.Popen
    with simjobs.World(lambda process: None) as world:
        s = Shell(iter(()))
        s.main.testing = True
        s.env.setvar('EDITOR', 'ed -x')
        reader = s.main.reader
        reader._history = History([])
        reader._command_history = []
        tmp = os.environ.get('TMPDIR')
        marcel.runeditor.subprocess.Popen = editor
        stdin = sys.stdin
        try:
            with d.Capture() as cap:
                sys.stdin = Terminal()
                text = None

                def input():
                    cap.out.flush()
                    response = cap.out.getvalue() + cap.err.getvalue()
                    for stream in cap.out, cap.err:
                        stream.truncate(0)
                        stream.seek(0)
                    try:
                        typed = source.send(response if input.started else None)
                    except StopIteration:
                        raise EOFError()
                    input.started = True
                    return press_enter(reader, typed)
                input.started = False
                reader.input = input
                s.main.run()
            c.check(reader._history.commands == history or indirect, f'history: {reader._history.commands}, expected {history}')
            c.reach('done')
        finally:
            sys.stdin = stdin
            marcel.runeditor.subprocess.Popen = saved
            world.stop = True
            s.shutdown()
            forget()


class Terminal(object):

    def isatty(self):
        return True

    def fileno(self):
        return 0


class Editor(object):

    def __init__(self):
        self.edit = None
        self.edited = []

    def __call__(self, command, **kwargs):
        words = shlex.split(command)
        assert words[:2] == ['ed', '-x'] and len(words) == 3, command
        if os.path.exists(words[2]):
            with open(words[2]) as file:
                text = file.read()
        else:
            text = None
        self.edited.append(text)
        if text is not None and not words[2].endswith('startup.py') and 'startup' not in words[2]:
            with open(words[2], 'w') as file:
                file.write(text + '\n' if self.edit is None else self.edit)
        return self

    def wait(self):
        return 0


FORMS = ['! N', '!N', ' !  N ', '!', '! x', '! N N', '!!', ' !! ', '!! 1', 'edit', 'edit N', ' edit  N', 'edit x', 'edit 1 2', 'edit -s', 'run', 'run N',
         'run (N)', 'history', 'history N', 'history -a', 'history -c "gen 1"', 'history -c "gen 1" N', 'gen 1', 'editor', 'edits N']


@prop('P35', ['Reader.handle_edit_and_run', 'Reader.command_by_id', 'Reader.history', 'edit_text', 'run_editor', 'Run', 'Edit', 'History', 'MainInteractive.run'],
      {'quick': f'histories of 0..2 commands, out of 4, followed by any 2 of {len(FORMS)} forms of recalling, editing or listing, with any number from -1 '
                'to that of the command after the next; 5 kinds of edits',
       'thorough': 'histories of 3 commands, followed by 3 forms'},
      ['the terminal (prompt_toolkit) and the editor are simulated'], strings=True)
def p35(tier):
    cases = []
    q = tier == 'quick'
    for i, f in enumerate(FORMS):
        for k in range(3):
            cases.append(case(f'{i}-after-{k}', recall, k, (f,), False, reach=['done']))
        if 'N' in f and f.count('N') == 1 and f.split()[0] in ('!', '!N', 'edit'):
            cases.append(case(f'{i}-symbolic', recall, 3, (f,), True, reach=['done']))
        for j, g in enumerate(FORMS):
            cases.append(case(f'{i}-then-{j}', recall, 1, (f, g), False, reach=['done']))
    return cases
