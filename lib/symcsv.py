"""
The csv module for symbolic strings: a transcription of CPython's _csv.c (3.12) to Python, for the dialect parameters used
by marcel. Replaces the module `csv` in marcel's modules during symbolic execution. (Replays use the real one.)
"""
import csv as real

import symstr
from symex import SymInt, disj

QUOTE_ALL, QUOTE_MINIMAL, QUOTE_NONNUMERIC, QUOTE_NONE = (real.QUOTE_ALL, real.QUOTE_MINIMAL, real.QUOTE_NONNUMERIC,
                                                          real.QUOTE_NONE)


def is_char(ch, x):
    return bool(symstr.char_eq(ch, x))


class Dialect(object):
    def __init__(self, dialect='excel', delimiter=',', quotechar='"', quoting=QUOTE_MINIMAL, lineterminator='\r\n',
                 doublequote=True, skipinitialspace=False, strict=False, escapechar=None):
        if dialect == 'excel-tab':
            delimiter = '\t'
        else:
            assert dialect == 'excel', dialect
        assert escapechar is None
        self.delimiter = delimiter
        self.quotechar = quotechar
        self.quoting = quoting
        self.lineterminator = lineterminator
        self.doublequote = doublequote
        self.skipinitialspace = skipinitialspace
        self.strict = strict


class writer(object):
    def __init__(self, file, dialect='excel', **kwargs):
        self.file = file
        self.dialect = Dialect(dialect, **kwargs)

    def field(self, x, only):
        d = self.dialect
        numeric = isinstance(x, (int, float, complex))
        s = '' if x is None else x if isinstance(x, str) else str(x)
        quoted = (d.quoting == QUOTE_ALL or
                  d.quoting == QUOTE_NONNUMERIC and not numeric)
        special = d.delimiter + d.quotechar + '\r\n' + d.lineterminator
        if not quoted:
            for ch in s:
                if bool(symstr.one_of(ch, special)) if symstr.is_place(ch) else ch in special:
                    if d.quoting == QUOTE_NONE:
                        raise real.Error('need to escape, but no escapechar set')
                    quoted = True
                    break
            if s == '' and only:
                if d.quoting == QUOTE_NONE:
                    raise real.Error('single empty field record must be quoted')
                quoted = True
        if not quoted:
            return s
        out = [d.quotechar]
        for ch in s:
            if is_char(ch, d.quotechar):
                out.append(d.quotechar)
            out.append(ch)
        out.append(d.quotechar)
        return ''.join(out)

    def writerow(self, row):
        row = list(row)
        return self.file.write(self.dialect.delimiter.join(self.field(x, len(row) == 1) for x in row) +
                               self.dialect.lineterminator)

    def writerows(self, rows):
        for row in rows:
            self.writerow(row)


START_RECORD, START_FIELD, IN_FIELD, IN_QUOTED, QUOTE_IN_QUOTED, EAT_CRNL = range(6)


class reader(object):
    def __init__(self, lines, dialect='excel', **kwargs):
        self.lines = iter(lines)
        self.dialect = Dialect(dialect, **kwargs)
        self.line_num = 0

    def __iter__(self):
        return self

    def save(self):
        self.fields.append(''.join(self.buffer))
        self.buffer = []

    def step(self, ch):
        """ch: None at the end of a line"""
        d = self.dialect
        end = ch is None
        newline = not end and bool(disj([symstr.char_eq(ch, '\n'), symstr.char_eq(ch, '\r')]))
        s = self.state
        if s == START_RECORD:
            if end:
                return
            if newline:
                self.state = EAT_CRNL
                return
            s = START_FIELD
        if s == START_FIELD:
            if newline or end:
                self.save()
                self.state = START_RECORD if end else EAT_CRNL
            elif d.quoting != QUOTE_NONE and is_char(ch, d.quotechar):
                self.state = IN_QUOTED
            elif d.skipinitialspace and is_char(ch, ' '):
                self.state = START_FIELD
            elif is_char(ch, d.delimiter):
                self.save()
                self.state = START_FIELD
            else:
                assert d.quoting != QUOTE_NONNUMERIC
                self.buffer.append(ch)
                self.state = IN_FIELD
        elif s == IN_FIELD:
            if newline or end:
                self.save()
                self.state = START_RECORD if end else EAT_CRNL
            elif is_char(ch, d.delimiter):
                self.save()
                self.state = START_FIELD
            else:
                self.buffer.append(ch)
        elif s == IN_QUOTED:
            if end:
                pass
            elif is_char(ch, d.quotechar):
                self.state = QUOTE_IN_QUOTED if d.doublequote else IN_FIELD
            else:
                self.buffer.append(ch)
        elif s == QUOTE_IN_QUOTED:
            if newline or end:
                self.save()
                self.state = START_RECORD if end else EAT_CRNL
            elif is_char(ch, d.quotechar):
                self.buffer.append(ch)
                self.state = IN_QUOTED
            elif is_char(ch, d.delimiter):
                self.save()
                self.state = START_FIELD
            elif d.strict:
                raise real.Error("delimiter expected after '\"'")
            else:
                self.buffer.append(ch)
                self.state = IN_FIELD
        elif s == EAT_CRNL:
            if newline:
                pass
            elif end:
                self.state = START_RECORD
            else:
                raise real.Error('new-line character seen in unquoted field - do you need to open the file with '
                                 'newline=\'\'?')

    def __next__(self):
        self.state = START_RECORD
        self.fields = []
        self.buffer = []
        while True:
            try:
                line = next(self.lines)
            except StopIteration:
                if self.buffer or self.state == IN_QUOTED:
                    if self.dialect.strict:
                        raise real.Error('unexpected end of data')
                    self.save()
                    return self.fields
                raise
            self.line_num += 1
            for ch in line:
                self.step(ch)
            self.step(None)
            if self.state == START_RECORD:
                return self.fields


def __getattr__(name):
    return getattr(real, name)
