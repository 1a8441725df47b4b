"""
Drive the real asterisklint in this process and observe it from the outside:
the messages on standard error, the parsed objects and the files it opens.
"""
import collections
import io
import posixpath
import re
import sys

from .model import Msg

from asterisklint import (
    FileConfigParser, FileDialplanParser, FileFuncOdbcParser)
from asterisklint.defines import MessageDefManager

LINE_RE = re.compile(r'^(.*?):(-?\d+) ([EWHI]_[A-Z0-9_]+): (.*)\Z', re.S)


class Full(collections.namedtuple('Full', 'file line code text')):
    @property
    def msg(self):
        return Msg(self.file, self.line, self.code)


class MemFile(io.BytesIO):
    def __init__(self, name, data, log):
        super().__init__(data)
        self.name = name
        self.log = log
        log.opened.append(name)

    def close(self):
        if not self.closed:
            self.log.closed.append(self.name)
        super().close()


class Opener(object):
    def __init__(self, files):
        self.files = files
        self.opened = []
        self.closed = []

    def __call__(self, name):
        try:
            data = self.files[posixpath.normpath(name)]
        except KeyError:
            raise FileNotFoundError(2, 'No such file or directory', name)
        return MemFile(name, data, self)


class Observed(object):
    def __init__(self):
        self.messages = []      # Full, in order
        self.noise = []         # stderr lines that are not a message
        self.dialplan = None
        self.opener = None

    @property
    def msgs(self):
        return [i.msg for i in self.messages]


def fresh():
    "Forget the messages of earlier runs, like a new process would."
    MessageDefManager.reset()
    MessageDefManager.muted = False


class captured(object):
    "Captures what goes to standard error."
    def __enter__(self):
        self.saved = sys.stderr
        sys.stderr = self.stream = io.StringIO()
        return self

    def __exit__(self, *args):
        sys.stderr = self.saved
        self.text = self.stream.getvalue()


def parse_stderr(text):
    messages, noise = [], []
    if text and not text.endswith('\n'):
        noise.append('(no newline at end)')
    for line in text.split('\n')[0:-1] if text else []:
        match = LINE_RE.match(line)
        if match:
            messages.append(Full(match.group(1), int(match.group(2)),
                                 match.group(3), match.group(4)))
        else:
            noise.append(line)
    return messages, noise


def dialplan(files, name='extensions.conf', walk=True):
    ret = Observed()
    ret.opener = Opener(files)
    fresh()
    with captured() as cap:
        try:
            parser = FileDialplanParser(opener=ret.opener)
            parser.include(name)
            ret.dialplan = next(iter(parser))
            if walk:
                ret.dialplan.walk_jump_destinations()
        finally:
            ret.dialplan_done = True
    ret.messages, ret.noise = parse_stderr(cap.text)
    return ret


def config(files, name='extensions.conf'):
    "Returns Observed with sections: [(name, file, line, sets)]."
    ret = Observed()
    ret.opener = Opener(files)
    fresh()
    with captured() as cap:
        parser = FileConfigParser(opener=ret.opener)
        parser.include(name)
        contexts = list(parser)
    ret.messages, ret.noise = parse_stderr(cap.text)
    ret.sections = [
        (c.name, c.where.filename, c.where.lineno, [
            (v.variable, v.value, v.arrow, v.where.filename, v.where.lineno)
            for v in c]) for c in contexts]
    return ret


def odbc(files, name='func_odbc.conf'):
    ret = Observed()
    ret.opener = Opener(files)
    fresh()
    with captured() as cap:
        parser = FileFuncOdbcParser(opener=ret.opener)
        parser.include(name)
        ret.functions = list(parser)
    ret.messages, ret.noise = parse_stderr(cap.text)
    return ret


def extens_of(context):
    return [(e.pattern.raw, e.prio, e.label or '', e.app.raw,
             e.where.filename, e.where.lineno) for e in context]


def sections_of(dialplan):
    return [
        (c.name, (c.where.filename, c.where.lineno), extens_of(c),
         [(i.context_name, i.where.filename, i.where.lineno)
          for i in c.includes])
        for c in dialplan.contexts]


def sets_of(context):
    return [(v.variable, v.value, v.arrow, v.where.filename, v.where.lineno)
            for v in context]


def compare(case, what, expected, observed, codes=None):
    """
    Compare messages as multisets; codes is a tuple of prefixes, or None.
    One failure per code that differs.
    """
    def pick(msgs):
        return collections.Counter(
            m for m in msgs if codes is None or m.code.startswith(codes))
    want, got = pick(expected), pick(observed)
    for msg in (want - got):
        case.fail('missed:{}'.format(msg.code),
                  '{}: {}:{} {} was not reported'.format(what, *msg))
    for msg in (got - want):
        case.fail('bogus:{}'.format(msg.code),
                  '{}: {}:{} {} should not have been reported'.format(
                      what, *msg))
    for msg in got:
        case.see(msg.code)
        case.stats['messages'] += got[msg]
    return want == got
