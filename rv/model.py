"""
The reference: what linting a configuration has to report and to yield.

This is written from the documentation, the Asterisk sources that the code
refers to and the meaning of the messages; it shares no code and no data
structures with asterisklint. Text is handled as bytes/lines/tokens, patterns
as sequences of byte sets, variables as token lists.

Deliberately left out: the text of the messages (apart from where a property
is about it) and everything that is listed as excluded in DESIGN.md.
"""
import json
import os
import posixpath
from collections import namedtuple

HERE = os.path.dirname(os.path.abspath(__file__))
CATALOGUE = json.load(open(os.path.join(HERE, 'catalogue.json')))

class Msg(namedtuple('Msg', 'file line code')):
    """
    A finding. The items are what its text has to name, in order: texts or
    tokens that are quoted, and Plain ones. Not a part of its identity.
    """
    items = ()

    def naming(self, *items):
        self.items = items
        return self


class Plain(list):
    "An item that may be without quotes: the characters or tokens."
    def __init__(self, value):
        super().__init__(str(value) if isinstance(value, int) else value)
Exten = namedtuple('Exten', 'raw prio label app file line')


def is_space(text):
    return all(ch.isspace() for ch in text)


# -- patterns ---------------------------------------------------------------

ANY1, ANY0 = '.', '!'
DIGITS = {
    ord('X'): b'0123456789', ord('x'): b'0123456789',
    ord('Z'): b'123456789', ord('z'): b'123456789',
    ord('N'): b'23456789', ord('n'): b'23456789'}


class Pat(object):
    """kind: 'lit'/'pat'; seq: tuple of frozenset|ANY1|ANY0; None if bad."""
    def __init__(self, raw):
        self.raw = raw
        data = raw.encode('utf-8')
        if data[0:1] == b'_':
            self.kind = 'pat'
            self.seq = self._sets(data[1:])
        else:
            self.kind = 'lit'
            self.seq = tuple(frozenset([ch]) for ch in data if ch != 0x2d)
        self.valid = self.seq is not None

    @staticmethod
    def _sets(data):
        seq = []
        pos = 0
        while pos < len(data):
            ch = data[pos]
            pos += 1
            if ch == 0x2d:
                continue
            elif ch in DIGITS:
                seq.append(frozenset(DIGITS[ch]))
            elif ch == 0x2e:
                seq.append(ANY1)
            elif ch == 0x21:
                seq.append(ANY0)
            elif ch == 0x5b:
                end = data.find(b']', pos)
                if end < 0 or end == pos:
                    return None
                seq.append(Pat._members(data[pos:end]))
                pos = end + 1
            else:
                seq.append(frozenset([ch]))
        return tuple(seq)

    @staticmethod
    def _members(data):
        members = set()
        pos = 0
        while pos < len(data):
            if pos + 2 < len(data) and data[pos + 1] == 0x2d:
                lo, hi = sorted((data[pos], data[pos + 2]))
                members.update(range(lo, hi + 1))
                pos += 3
            else:
                members.add(data[pos])
                pos += 1
        return frozenset(members)

    @property
    def key(self):
        "Equal for patterns that are the same extension."
        return self.seq

    @property
    def ident(self):
        return (self.kind, self.seq)

    def nodash(self):
        "The spelling without the decorative dashes."
        if self.kind == 'lit':
            ret = self.raw.replace('-', '')
            # One dash stays if it would become a pattern otherwise.
            return '-' + ret if ret.startswith('_') else ret
        ret = []
        inset = False
        for ch in self.raw:
            if ch == '[':
                inset = True
            if inset or ch != '-':
                ret.append(ch)
            if ch == ']':
                inset = False
        return ''.join(ret)

    def matches(self, exten):
        data = exten.replace('-', '').encode('utf-8', 'surrogateescape')
        for i, item in enumerate(self.seq):
            if item == ANY1:
                return len(data) > i
            if item == ANY0:
                return True
            if i >= len(data) or data[i] not in item:
                return False
        return len(data) == len(self.seq)

    def sortkey(self):
        """
        Literals first, then by position: fewest characters first, then
        lowest character; '.', '!' and the end of the pattern come last.
        """
        ret = []
        for item in self.seq:
            if item == ANY1:
                ret.append((0x180, 0, 0, ()))
            elif item == ANY0:
                ret.append((0x280, 0, 0, ()))
            else:
                members = sorted(item)
                gaps = len(members) != members[-1] - members[0] + 1
                ret.append((
                    len(members), members[0], int(gaps),
                    tuple(members) if gaps else ()))
        if self.kind == 'pat':
            ret.append((0x300, 0, 0, ()))
        return (self.kind == 'pat', tuple(ret))


# -- variables ----------------------------------------------------------------

class Unterminated(Exception):
    pass


class NoValue(Exception):
    pass


class Node(object):
    """A ${...} or $[...]. Everything else is a single character."""
    def __init__(self, kind, text, name, start=None, length=None):
        self.kind = kind        # var / func / expr
        self.text = text        # as written
        self.name = name        # tokens
        self.start = start      # int / tokens / None
        self.length = length

    def __repr__(self):
        return '<{}>'.format(self.text)

    def value(self, env):
        if self.kind == 'expr':
            raise NoValue(self.text)
        name = format_tokens(self.name, env)
        if name not in env:
            raise NoValue(name)
        ret = env[name]
        if self.start is not None:
            ret = substring(ret, intval(self.start, env, 0),
                            intval(self.length, env, None))
        return ret


def intval(value, env, default):
    if value is None or isinstance(value, int):
        return default if value is None else value
    # sscanf("%30d")
    text = format_tokens(value, env).lstrip()
    sign = 1
    if text[0:1] in ('+', '-') and text:
        sign = -1 if text[0] == '-' else 1
        text = text[1:]
    digits = ''
    for ch in text[0:30]:
        if ch not in '0123456789':
            break
        digits += ch
    if not digits:
        return default
    return sign * int(digits)


def substring(value, offset, length):
    "main/pbx_variables.c: substring()"
    total = len(value)
    if offset < 0:
        offset = total + offset
        if offset < 0:
            offset = 0
    if offset >= total:
        return ''
    ret = value[offset:]
    if length is None:
        return ret
    if length >= 0:
        return ret[:length] if length < len(ret) else ret
    if -length >= len(ret):
        return ''
    return ret[:len(ret) + length]


def format_tokens(tokens, env):
    return ''.join(
        t if isinstance(t, str) else t.value(env) for t in tokens)


def text_of(tokens):
    return ''.join(t if isinstance(t, str) else t.text for t in tokens)


def all_text(tokens):
    return all(isinstance(t, str) for t in tokens)


def split_tokens(tokens, sep, maxsplit=-1):
    ret = [[]]
    for t in tokens:
        if t == sep and maxsplit != 0:
            ret.append([])
            maxsplit -= 1
        else:
            ret[-1].append(t)
    return ret


def find_token(tokens, wanted):
    for i, t in enumerate(tokens):
        if t == wanted:
            return i
    return -1


def balanced(tokens):
    stack = []
    for t in tokens:
        if not isinstance(t, str):
            continue
        if stack and stack[-1] in '"\'':
            if t == stack[-1]:
                stack.pop()
        elif t in '"\'':
            stack.append(t)
        elif t in '({[':
            stack.append(t)
        elif t in ')}]':
            if not stack or stack[-1] + t not in ('()', '{}', '[]'):
                return False
            stack.pop()
    return not stack


def separate(tokens, delimiter, remove):
    "main/app.c: __ast_app_separate_args()"
    args = [[]]
    paren = bracket = 0
    quote = False
    i = 0
    while i < len(tokens):
        t = tokens[i]
        keep = True
        if not isinstance(t, str):
            pass
        elif t == '[':
            bracket += 1
        elif t == ']':
            bracket = max(0, bracket - 1)
        elif t == '(':
            paren += 1
        elif t == ')':
            paren = max(0, paren - 1)
        elif t == '"':
            quote = not quote
            keep = not remove
        elif t == '\\':
            # The next one is taken as it is: a character, or (the first
            # character of) a variable.
            if not remove:
                args[-1].append(t)
            i += 1
            if i < len(tokens):
                args[-1].append(tokens[i])
            i += 1
            continue
        elif t == delimiter and not (paren or bracket or quote):
            args.append([])
            keep = False
        if keep:
            args[-1].append(t)
        i += 1
    return args


def strip_tokens(tokens):
    tokens = list(tokens)
    while tokens and isinstance(tokens[0], str) and tokens[0].isspace():
        tokens.pop(0)
    while tokens and isinstance(tokens[-1], str) and tokens[-1].isspace():
        tokens.pop()
    return tokens


NAME_CHARS = set(
    'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_')


def is_number(text):
    return 0 < len(text) <= 30 and all(ch in '0123456789' for ch in text)


class Expander(object):
    """Parses variables, collecting codes and counting variables."""
    def __init__(self, report, count, funcs=None, used=None, unknown=None):
        self.unknown = unknown if unknown is not None else set()
        self.report = report
        self.count_ = count
        self.funcs = funcs if funcs is not None else FUNCS
        self.used = used if used is not None else set()

    def count(self, name):
        if any(ch not in NAME_CHARS for ch in name):
            self.report('E_VAR_BAD_TOKENS', name)
        self.count_(name)

    def parse(self, text):
        ret = []
        pos = 0
        while pos < len(text):
            two = text[pos:pos + 2]
            if two == '${' or two == '$[':
                opening, closing = ('{', '}') if two == '${' else ('[', ']')
                depth = 1
                end = pos + 2
                while depth:
                    if end >= len(text):
                        raise Unterminated(text[pos:])
                    if text[end] == opening:
                        depth += 1
                    elif text[end] == closing:
                        depth -= 1
                    end += 1
                inner = self.parse(text[pos + 2:end - 1])
                source = text[pos:end]
                if opening == '[':
                    ret.append(Node('expr', source, inner))
                else:
                    ret.append(self.variable(source, inner))
                pos = end
            else:
                ret.append(text[pos])
                pos += 1
        return ret

    def variable(self, source, inner):
        if find_token(inner, '(') >= 0:
            return self.read_function(source, inner)
        if find_token(inner, ':') >= 0:
            name, start, length = self.slice(inner)
            if all_text(name):
                self.count(text_of(name))
            return Node('var', source, name, start, length)
        if all_text(inner):
            self.count(text_of(inner))
        return Node('var', source, inner)

    def slice(self, tokens):
        parts = split_tokens(tokens, ':')
        if len(parts) == 2:
            name, start, length = parts[0], parts[1], None
        elif len(parts) == 3:
            name, start, length = parts
        else:
            self.report('E_VAR_SUBSTR_ARGS', tokens)
            return parts[0], None, None

        def number(text):
            if is_number(text) or (text[0:1] == '-' and is_number(text[1:])):
                return int(text)
            return None

        if all_text(start):
            text = text_of(start)
            start = number(text)
            if start is None:
                self.report('E_VAR_SUBSTR_START', text)
                return name, None, None
        if length is not None and all_text(length):
            text = text_of(length)
            length = number(text)
            if length is None:
                self.report('E_VAR_SUBSTR_LENGTH', text)
                return name, None, None
            if length == 0 or (
                    isinstance(start, int) and start < 0 and
                    length >= -start):
                self.report('E_VAR_SUBSTR_LENGTH', Plain(length))
                length = None
        if start == 0 and length is None:
            self.report('E_VAR_SUBSTR_START', Plain(0))
            start = None
        return name, start, length

    def read_function(self, source, inner):
        opening = find_token(inner, '(')
        name = inner[0:opening]
        closing = None
        for i in range(len(inner) - 1, opening, -1):
            if inner[i] == ')':
                closing = i
                break
        start = length = None
        if closing is None:
            self.report('E_FUNC_PARENS', inner)
            args, tail = inner[opening + 1:], []
        else:
            args, tail = inner[opening + 1:closing], inner[closing + 1:]
        if tail:
            rest, start, length = self.slice(tail)
            if rest:
                self.report('E_FUNC_TAIL', inner)
                start = length = None
        if not all_text(name):
            self.report('W_FUNC_DYNAMIC', inner)
        else:
            self.call(text_of(name), args)
        return Node('func', source, inner[0:opening + 1] + args + [')'],
                    start, length)

    def write_function(self, dest):
        opening = find_token(dest, '(')
        if opening < 0:
            self.report('E_FUNC_PARENS', dest)
            return
        name, args = dest[0:opening], dest[opening + 1:-1]
        if not all_text(name):
            self.report('W_FUNC_DYNAMIC', dest)
        else:
            self.call(text_of(name), args)

    def call(self, name, args):
        proper = self.funcs.get(name.lower())
        if proper is None:
            if name != 'UNKNOWN':
                self.unknown.add(name)
                self.report('E_FUNC_MISSING', name)
        else:
            self.used.add(proper)
            if proper != name:
                self.report('E_FUNC_BAD_CASE', name, proper)
        if proper == 'SET':
            self.assignment(args)
        if proper == 'AUDIOHOOK_INHERIT' and all_text(args):
            if text_of(args) not in (
                    'MixMonitor', 'Chanspy', 'Volume', 'Speex',
                    'pitch_shift', 'JACK_HOOK', 'Mute'):
                self.report('E_FUNC_BAD_ARGS', proper, args)
        if not balanced(args):
            self.report('W_FUNC_BALANCE', args)
        if proper in ('INC', 'DEC') and all_text(args):
            self.count(text_of(args))

    def assignment(self, tokens):
        if not tokens:
            self.report('E_ASSIGN_EMPTY')
            return
        parts = split_tokens(tokens, '=', 1)
        if len(parts) == 1:
            self.report('E_ASSIGN_NO_EQUALS', tokens)
            return
        dest = parts[0]
        if find_token(dest, ' ') >= 0:
            self.report('W_ASSIGN_SPACES', dest)
        if dest and dest[-1] == ')':
            self.write_function(dest)


# -- applications -------------------------------------------------------------

def load_catalogue(version='v13'):
    apps = {k.lower(): k for k in CATALOGUE[version]['app']}
    funcs = {k.lower(): k for k in CATALOGUE[version]['func']}
    return apps, funcs


APPS, FUNCS = load_catalogue()


class Jump(object):
    def __init__(self, context, exten, prio):
        self.context = context  # tokens, or None
        self.exten = exten
        self.prio = prio

    def __repr__(self):
        return '<Jump {}>'.format(','.join(
            '-' if i is None else text_of(i)
            for i in (self.context, self.exten, self.prio)))


class AppLinter(object):
    def __init__(self, report, count=(lambda name: None), funcs=None,
                 state=None):
        self.report = report
        self.state = state if state is not None else {}
        self.used = self.state.setdefault('apps', set())
        self.expander = Expander(
            report, count, funcs, self.state.setdefault('funcs', set()),
            self.state.setdefault('unknown_funcs', set()))
        self.unknown = self.state.setdefault('unknown_apps', set())

    def lint(self, raw):
        "Returns the jumps."
        return self.app(list(raw), parsed=False)

    def app(self, tokens, parsed):
        opening = find_token(tokens, '(')
        if opening < 0:
            name, data = tokens, []
            if all_text(name) and text_of(name).lower() != 'noop':
                self.report('W_APP_NEED_PARENS', name)
        else:
            name, data = tokens[0:opening], tokens[opening:]
            if len(data) > 1 and data[-1] == ')':
                data = data[1:-1]
        if not all_text(name):
            return []
        name = text_of(name)
        if name.rstrip() != name:
            self.report('E_APP_WSH', name)
            return []
        if name.lstrip() != name:
            self.report('W_APP_WSH', name)
            name = name.lstrip()
        if not name:
            self.unknown.add('(none)')
            self.report('E_APP_MISSING', '(none)')
            return []

        proper = APPS.get(name.lower())
        if proper == 'Background':
            if not self.state.get('background') and name in (
                    'Background', 'BackGround'):
                self.state['background'] = name
            proper_name = self.state.get('background') or 'Background'
        else:
            proper_name = proper
        if proper is None:
            if name != 'Unknown':
                self.unknown.add(name)
                self.report('E_APP_MISSING', name)
        else:
            self.used.add(proper)
            if name != proper_name:
                self.report('W_APP_BAD_CASE', name, proper_name)

        if not parsed:
            text = text_of(data)
            if '${' in text or '$[' in text:
                try:
                    data = self.expander.parse(text)
                except Unterminated:
                    self.report('E_APP_PARSE_ERROR', name, text)
                    data = list(text)

        self.name = proper
        handler = getattr(self, 'app_' + (proper or '').lower(), None)
        if handler:
            return handler(data) or []
        self.balance(data)
        return []

    def balance(self, data):
        if not balanced(data):
            self.report('W_APP_BALANCE', data)

    def delimited(self, data, least, most, pipe=True):
        args = separate(data, ',', False)
        if len(args) < least or (
                least == 1 and len(args) == 1 and not args[0]):
            self.report('E_APP_ARG_FEW', self.name, Plain(least))
        elif len(args) > most:
            self.report('E_APP_ARG_MANY', self.name, Plain(most))
        return args

    def options(self, arg, valid, number):
        chars = [t for t in arg if isinstance(t, str)]
        if any(ch not in valid for ch in chars):
            self.report(
                'E_APP_ARG_BADOPT', ''.join(i for i in chars if i not in valid),
                Plain(number), self.name)
        if len(set(chars)) != len(chars):
            self.report('E_APP_ARG_DUPEOPT', arg, Plain(number), self.name)

    def pipe(self, args, data):
        if len(args) == 1 and find_token(args[0], '|') >= 0:
            self.report('E_APP_ARG_PIPEDELIM', self.name, data)

    @staticmethod
    def jump(args):
        args = list(args)
        while len(args) > 3:
            last = args.pop()
            args[-1] = args[-1] + [','] + last
        while len(args) < 3:
            args.insert(0, None)
        return Jump(*args)

    def subjump(self, args):
        ret = self.jump(args)
        opening = find_token(ret.prio, '(')
        if opening >= 0:
            if ret.prio[-1] != ')':
                self.report('W_APP_BALANCE', ret.prio)
            ret.prio = ret.prio[0:opening]
        return ret

    def app_set(self, data):
        self.expander.assignment(data)
        self.balance(data)

    def app_goto(self, data):
        args = self.delimited(data, 1, 3)
        self.pipe(args, data)
        return [self.jump(args)]

    def app_gosub(self, data):
        args = self.delimited(data, 1, 3)
        self.pipe(args, data)
        return [self.subjump(args)]

    def app_voicemail(self, data):
        args = self.delimited(data, 1, 2)
        if len(args) > 1:
            self.options(args[1], 'bdgsuUP', 2)
        self.pipe(args, data)

    def app_milliwatt(self, data):
        args = self.delimited(data, 0, 1)
        self.options(args[0], 'o', 1)
        self.pipe(args, data)

    def app_originate(self, data):
        args = self.delimited(data, 3, 6)
        if len(args) > 1 and (
                not all_text(args[1]) or
                text_of(args[1]) not in ('app', 'exten')):
            self.report('E_APP_ARG_BADOPT', args[1], Plain(2), self.name)
        self.pipe(args, data)

    def ifstyle(self, data, constant=True):
        """Returns (iftrue, iffalse): tokens, a list of args or None."""
        args = separate(data, '?', True)
        if len(args) >= 2:
            if len(args) > 2:
                self.report('E_APP_ARG_MANY', self.name, Plain(2))
            cond = args[0]
            actions = separate(args[1], ':', False)
            ret = (actions[0], actions[1] if len(actions) > 1 else None)
            old = False
        else:
            args = separate(data, ',', False)
            cond = args[0]
            if len(args) > 1:
                self.report(
                    'E_APP_ARG_IFSTYLE', self.name, data, Plain(cond))
            else:
                self.report('E_APP_ARG_FEW', self.name, Plain(2))
            ret = (args[1:], None)
            old = True
        cond = strip_tokens(cond)
        if not cond:
            self.report('E_APP_ARG_IFEMPTY', self.name, data)
        elif constant and any(isinstance(t, str) for t in cond):
            self.report(
                'E_APP_ARG_IFCONST', self.name, data, Plain(cond))
        return ret, old

    def app_gotoiftime(self, data):
        self.ifstyle(data, constant=False)

    app_execiftime = app_gotoiftime

    def app_gotoif(self, data):
        (iftrue, iffalse), old = self.ifstyle(data)
        jumps = []
        for args in (iftrue, iffalse):
            if args:
                args = args if old else separate(args, ',', True)
                if len(args) > 3:
                    self.report('E_APP_ARG_MANY', self.name, Plain(3))
                jumps.append(self.jump(args))
        return jumps

    def app_gosubif(self, data):
        (iftrue, iffalse), old = self.ifstyle(data)
        jumps = []
        for args in (iftrue, iffalse):
            if args:
                args = args if old else separate(args, ',', True)
                if len(args) > 3:
                    self.report('E_APP_ARG_MANY', self.name, Plain(3))
                jumps.append(self.subjump(args))
        return jumps

    def app_execif(self, data):
        (iftrue, iffalse), old = self.ifstyle(data)
        if old and iftrue:
            tokens = iftrue[0] + ['(']
            for i, arg in enumerate(iftrue[1:]):
                tokens += ([','] if i else []) + arg
            iftrue = tokens + [')']
        for tokens in (iftrue, iffalse):
            if tokens:
                self.app(tokens, parsed=True)


# -- files and configuration --------------------------------------------------

class Element(object):
    def __init__(self, kind, file_, line, **kwargs):
        self.kind = kind            # header / set / blank
        self.file = file_
        self.line = line
        self.instance = None
        self.__dict__.update(kwargs)


class Instance(object):
    "One opened file."
    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.elements = []          # its own
        self.last_in_tree = None    # the last element of it and its includes


class FileModel(object):
    """
    Reads files (a dict of normalised path: bytes) and yields Elements;
    messages are collected in self.msgs.
    """
    def __init__(self, files):
        self.files = files
        self.msgs = []
        self.opened = []            # names, in order
        self.wanted = []            # also those that do not exist
        self.lines = {}             # (file, line): classification
        self.elements = []

    def report(self, file_, line, code, *items):
        self.msgs.append(Msg(file_, line, code).naming(*items))

    def read(self, name):
        self._file(name, None)
        return self.elements

    def _file(self, name, parent):
        self.wanted.append(name)
        try:
            data = self.files[posixpath.normpath(name)]
        except KeyError:
            return False
        self.opened.append(name)
        instance = Instance(name, parent)
        lines = data.split(b'\n')
        lines = [i + b'\n' for i in lines[0:-1]] + (
            [lines[-1]] if lines[-1] else [])
        dos = None
        for lineno, line in enumerate(lines, 1):
            lf = line.endswith(b'\n')
            crlf = line.endswith(b'\r\n')
            if dos is None:
                dos = crlf or not lf
            if dos and lf and not crlf:
                self.report(name, lineno, 'W_FILE_DOS_BARELF')
            if not dos and crlf:
                self.report(name, lineno, 'W_FILE_UNIX_CRLF')
            body = line[0:-2] if crlf else (line[0:-1] if lf else line)
            self._line(instance, lineno, body)
        if lines:
            if dos and lf:
                self.report(name, len(lines), 'W_FILE_DOS_EOFCRLF')
            if not dos and not lf:
                self.report(name, len(lines), 'W_FILE_UNIX_NOLF')
        self._vertical(instance)
        return True

    def _line(self, instance, lineno, body):
        name = instance.name

        def report(code, *items):
            self.report(name, lineno, code, *items)

        try:
            text = body.decode('utf-8')
        except UnicodeDecodeError:
            report('E_FILE_UTF8_BAD')
            text = body.decode('cp1252', 'replace')
        if any(ord(ch) < 0x20 and ch not in '\t\r\n' for ch in text):
            report('W_FILE_CTRL_CHAR')
        if text[-1:] in (' ', '\t') and text:
            report('W_WSH_EOL')
            text = text.rstrip(' \t')

        # Comment and escapes.
        data = []
        comment = False
        for ch in text:
            if ch == ';':
                if data and data[-1] == '\\':
                    data[-1] = '\\;'
                    continue
                comment = True
                break
            data.append(ch)
        data = ''.join(';' if ch == '\\;' else ch for ch in data)
        if comment and data and data[-1] not in ' \t':
            report('W_WSH_COMMENT')
        data = data.rstrip(' \t')
        self._config(instance, lineno, data, comment, report)

    def _add(self, instance, element, what):
        element.instance = instance
        instance.elements.append(element)
        up = instance
        while up is not None:
            up.last_in_tree = element
            up = up.parent
        self.elements.append(element)
        self.lines[(element.file, element.line)] = what

    def _config(self, instance, lineno, data, comment, report):
        name = instance.name
        # [header] / [header](x)
        stripped = data.lstrip()
        if stripped.startswith('[') and ']' in stripped:
            header, rest = stripped[1:].split(']', 1)
            rest_ = rest.lstrip()
            template = None
            if rest == '':
                template = ''
            elif (len(rest_) == 3 and rest_[0] == '(' and rest_[2] == ')' and
                    rest_[1] not in ')+'):
                template = rest_[1]
            if template is not None:
                if stripped != data:
                    report('W_WSH_BOL')
                if template:
                    report('I_NOTIMPL_TEMPLATES')
                self._add(instance, Element(
                    'header', name, lineno, name=header, template=template,
                    comment=comment), 'header')
                return
        # key = value / key => value
        if '=' in data:
            before, after = data.split('=', 1)
            arrow = after.startswith('>')
            if arrow:
                after = after[1:]
            key, value = before.rstrip(), after.lstrip()
            spacing = (before[len(key):], after[0:len(after) - len(value)])
            if arrow and spacing != (' ', ' '):
                report('W_WSH_OBJSET')
            elif not arrow and spacing != ('', ''):
                report('W_WSH_VARSET')
            if key[0:1] in (' ', '\t') and key:
                key = key.lstrip(' \t')
                if key != 'same':
                    report('W_WSH_BOL')
            self._add(instance, Element(
                'set', name, lineno, key=key, value=value, arrow=arrow,
                comment=comment), 'set')
            return
        if is_space(data):
            self._add(instance, Element(
                'blank', name, lineno, comment=comment), 'blank')
            return
        if stripped.startswith('#'):
            self._directive(instance, lineno, data, report)
            return
        self.lines[(name, lineno)] = 'bad'
        report('E_CONF_BAD_LINE', data[0:16])

    def _directive(self, instance, lineno, data, report):
        name = instance.name
        self.lines[(name, lineno)] = 'directive'
        text = data.lstrip()
        if text != data:
            report('W_WSH_BOL')
        for command in ('#include', '#tryinclude', '#exec'):
            if text.startswith(command):
                rest = text[len(command):]
                break
        else:
            report('E_CONF_BAD_LINE', text[0:16])
            return
        arg = rest.lstrip(''.join(chr(i) for i in range(33)))
        if not rest or arg == rest or not arg:
            report('E_CONF_BAD_LINE', text[0:16])
            return
        gap = rest[0:len(rest) - len(arg)]
        if len(set(gap)) > 1 or gap[0] not in ' \t':
            report('W_WSH_CTRL')
        if arg[0] == '"' and arg[-1] == '"':
            arg = arg[1:-1]
        elif arg[0] == '<' and arg[-1] == '>':
            arg = arg[1:-1]
        elif arg[0] in '<"' or arg[-1] in '>"':
            report('W_PP_QUOTE_BAD')
        if command == '#exec':
            report('W_PP_EXEC', arg)
            return
        ok = self._file(
            posixpath.join(posixpath.dirname(name), arg), instance)
        if not ok and command == '#include':
            report('W_PP_INCLUDE_MISSING', arg)

    # vertical white space: everything is known once the file is complete

    def _vertical(self, instance):
        run = []            # blank/comment lines
        sets = 0            # settings since the last header
        first = True
        for element in instance.elements:
            if element.kind == 'blank':
                run.append(element)
                continue
            if element.kind == 'header':
                least, most, code = int(sets > 2), 2, 'H_WSV_CTX_BETWEEN'
                sets = 0
            else:
                least, most, code = 0, 1, 'H_WSV_VARSET_BETWEEN'
                sets += 1
            if len(run) < least:
                self.report(element.file, element.line, code)
            else:
                groups = self._groups(run)
                if first and groups and not groups[0][0].comment:
                    group = groups.pop(0)
                    self.report(group[0].file, group[0].line, 'W_WSV_BOF')
                self._groups_check(groups, most, code)
            run = []
            first = False
        if run:
            groups = self._groups(run)
            if not groups[-1][0].comment:
                group = groups.pop()
                # If something that we included comes after these lines,
                # then they are not at the end.
                if instance.last_in_tree is group[-1]:
                    self.report(group[-1].file, group[-1].line, 'W_WSV_EOF')
            self._groups_check(groups, 2, 'H_WSV_CTX_BETWEEN')

    @staticmethod
    def _groups(run):
        groups = []
        for blank in run:
            if groups and groups[-1][0].comment == blank.comment:
                groups[-1].append(blank)
            else:
                groups.append([blank])
        return groups

    def _groups_check(self, groups, most, code):
        for group in groups:
            if not group[0].comment and len(group) > most:
                self.report(group[-1].file, group[-1].line, code)


def read_config(files, name):
    """
    A plain configuration: [(header, [(key, value, arrow, file, line)])].
    """
    fm = FileModel(files)
    sections = []
    for e in fm.read(name):
        if e.kind == 'header':
            sections.append((e.name, e.file, e.line, []))
        elif e.kind == 'set':
            if not sections:
                fm.report(e.file, e.line, 'E_CONF_CTX_MISSING')
            else:
                sections[-1][3].append(
                    (e.key, e.value, e.arrow, e.file, e.line))
    return fm, sections


# -- dialplan -------------------------------------------------------------------

class Section(object):
    def __init__(self, name):
        self.name = name
        self.where = None
        self.extens = []        # Exten, accepted
        self.pats = []          # Pat of each
        self.includes = []      # (name, file, line)
        self.dupes = {}         # key: {'prios', 'labels'}
        self.last_prio = None


class DialplanModel(object):
    def __init__(self, files, name='extensions.conf', funcs=None, state=None):
        self.fm = FileModel(files)
        self.msgs = self.fm.msgs
        self.sections = []
        self.by_name = {}
        self.general = None         # list of sets
        self.globals = None
        self.last_prio = None
        self.labels = set()
        self.jumps = []             # (context, exten, prio, file, line)
        self.vars = {}              # name: [(file, line)]
        self.funcs = funcs
        self.state = state if state is not None else {}
        self.hints = []             # [(file, line, pattern)]
        self.rejected = set()       # (file, line) of lines not in the result

        self._build(self.fm.read(name))

    # reading

    def _build(self, elements):
        cur = None
        for e in elements:
            if e.kind == 'header':
                cur = self._header(e)
            elif e.kind == 'set':
                if cur is None:
                    self._report(e, 'E_CONF_CTX_MISSING')
                elif isinstance(cur, Section):
                    self._set(cur, e)
                else:
                    cur.append((e.key, e.value, e.arrow, e.file, e.line))
        if self.sections:
            where = (self.sections[0].where[0], 0)
            if self.general is None:
                self.msgs.append(Msg(where[0], 0, 'H_DP_GENERAL_MISPLACED'))
            if self.globals is None:
                self.msgs.append(Msg(where[0], 0, 'H_DP_GLOBALS_MISPLACED'))

    def _report(self, e, code, *items):
        self.msgs.append(Msg(e.file, e.line, code).naming(*items))

    def _header(self, e):
        if e.name == 'general':
            if self.general is not None:
                self._report(e, 'W_CONF_CTX_DUPE')
            else:
                if self.globals is not None or self.sections:
                    self._report(e, 'H_DP_GENERAL_MISPLACED')
                self.general = []
            return self.general
        if e.name == 'globals':
            if self.globals is not None:
                self._report(e, 'E_DP_GLOBALS_DUPE')
                return []   # ignored
            if self.general is None or self.sections:
                self._report(e, 'H_DP_GLOBALS_MISPLACED')
            self.globals = []
            return self.globals
        section = self.by_name.get(e.name)
        if section is None:
            section = self.by_name[e.name] = Section(e.name)
            self.sections.append(section)
        section.where = (e.file, e.line)
        section.last_prio = None
        return section

    def _set(self, section, e):
        if e.key in ('exten', 'same', 'include', 'switch', 'ignorepat'):
            if not e.arrow:
                self._report(e, 'H_CONF_NO_ARROW')
        if e.key in ('exten', 'same'):
            if not self._exten(section, e):
                self.rejected.add((e.file, e.line))
        elif e.key == 'include':
            section.includes.append((e.value, e.file, e.line))
        else:
            self.rejected.add((e.file, e.line))
            code = {
                'switch': 'I_NOTIMPL_SWITCH',
                'ignorepat': 'I_NOTIMPL_IGNOREPAT',
            }.get(e.key)
            if code:
                self._report(e, code)
            else:
                self._report(e, 'E_CONF_KEY_INVALID', e.key)

    def _exten(self, section, e):
        def report(code, *items):
            self._report(e, code, *items)

        rest = e.value
        pattern = None
        if e.key == 'exten':
            pattern, comma, rest = rest.partition(',')
            if not pattern:
                return report('E_DP_PAT_MISSING')
            if not comma:
                return report('E_DP_PRIO_MISSING')
        prio, _, app = rest.partition(',')
        prio, paren, label = prio.partition('(')
        if prio == 'hint':
            return report('I_NOTIMPL_HINT')
        if prio != 'n' and not is_number(prio):
            return report('E_DP_PRIO_INVALID', prio)
        if paren:
            if not label.endswith(')'):
                return report('E_DP_LABEL_INVALID', label)
            label = label[0:-1]
        pat = None
        if pattern is not None:
            pat = Pat(pattern)
            if not pat.valid:
                return report('E_DP_PAT_INVALID')

        # The application is checked now, whatever happens to the line.
        where = (e.file, e.line)
        linter = AppLinter(
            report, (lambda name: self.vars.setdefault(name, []).append(
                where)), self.funcs, self.state)
        jumps = linter.lint(app)

        if pat is None:
            if not section.extens:
                return report('E_DP_PAT_MISSING')
            pat = section.pats[-1]
        else:
            self.hints.append((e.file, e.line, pat))
        raw = pat.raw

        if prio == 'n':
            if not self.last_prio:
                return report('E_DP_PRIO_MISSING')
            if (not section.last_prio or
                    section.pats[-1].ident != pat.ident):
                report('W_DP_PRIO_BADORDER', raw)
            prio = self.last_prio + 1
        else:
            prio = int(prio)
            if prio < 1:
                return report('E_DP_PRIO_INVALID', Plain(prio))
            if prio != 1:
                earlier = [x.prio for x, p in zip(section.extens, section.pats)
                           if p.ident == pat.ident]
                if not earlier or earlier[-1] not in (prio - 1, prio):
                    report('W_DP_PRIO_BADORDER', raw, Plain(prio))

        self.last_prio = section.last_prio = prio
        seen = section.dupes.setdefault(
            pat.key, {'prios': set(), 'labels': set()})
        if prio in seen['prios']:
            return report('E_DP_PRIO_DUPE', Plain(prio))
        seen['prios'].add(prio)
        if label:
            if label in seen['labels']:
                report('E_DP_LABEL_DUPE', label)
                label = ''
            else:
                seen['labels'].add(label)
                self.labels.add(label)
        section.extens.append(
            Exten(raw, prio, label or '', app, e.file, e.line))
        section.pats.append(pat)
        for jump in jumps:
            self.jumps.append((section, pat, jump, e.file, e.line))
        return True

    # the jumps

    def closure(self, section):
        ret = []
        todo = [section]
        while todo:
            section = todo.pop(0)
            if section in ret:
                continue
            ret.append(section)
            todo.extend(self.by_name[name] for name, _, _ in section.includes
                        if name in self.by_name)
        return ret

    def walk(self, example=None):
        """
        Report the jumps without destination. The example callable gives
        the extension that stands for "the current extension".
        """
        self.judged = []
        for section, pat, jump, file_, line in self.jumps:
            current = (example or default_example)(pat.raw)
            code = self._judge(section, current, jump)
            self.judged.append((file_, line, jump, code))
            if code:
                prio = jump.prio
                if is_number(text_of(prio)):
                    prio = int(text_of(prio))
                items = [Plain(jump.context or section.name)]
                if jump.exten and all_text(jump.exten):
                    items.append(Plain(jump.exten))
                self.msgs.append(Msg(file_, line, code).naming(
                    *items + [Plain(prio)]))

    def _judge(self, section, current, jump):
        # What is the context?
        context = jump.context or list(section.name)
        exten = jump.exten or list(current)
        prio = jump.prio
        try:
            exten = list(format_tokens(exten, {'EXTEN': current}))
        except NoValue:
            pass
        constant_label = all_text(prio) and not is_number(text_of(prio))

        def labelled(x):
            return x.label and x.label == text_of(prio)

        if not all_text(context):
            if constant_label and text_of(prio) not in self.labels:
                return 'E_DP_GOTO_NOLABEL'
            return None
        target = self.by_name.get(text_of(context))
        if target is None:
            return 'E_DP_GOTO_NOCONTEXT'
        reachable = self.closure(target)
        if not all_text(exten):
            if constant_label and not any(
                    labelled(x) for s in reachable
                    for x in s.extens):
                return 'E_DP_GOTO_CONTEXT_NOLABEL'
            return None

        def exists(exten, test):
            return any(
                p.matches(exten) and test(x)
                for s in reachable for x, p in zip(s.extens, s.pats))

        exten = text_of(exten)
        if not all_text(prio):
            found = exists(exten, lambda x: (
                could_be(prio, str(x.prio)) or
                (x.label and could_be(prio, x.label))))
        elif constant_label:
            found = exists(exten, labelled)
        else:
            number = int(text_of(prio))
            found = (
                exists(exten, lambda x: x.prio == number) or
                (exten != 'i' and exists('i', lambda x: x.prio == 1)))
        return None if found else 'W_DP_GOTO_CONTEXT_NOEXTEN'

    # output

    def show(self, reverse=False):
        lines = []
        sections = self.sections[::-1] if reverse else self.sections
        for section in sections:
            lines.append("[ Context {!r} created by 'pbx_config' ]".format(
                section.name))
            order = sorted(
                range(len(section.extens)),
                key=(lambda i: (section.pats[i].sortkey(), i)))
            last = None
            for i in order:
                x, pat = section.extens[i], section.pats[i]
                app = x.app
                if '(' not in x.app:
                    app += '('
                if ')' not in x.app:
                    app += ')'
                if last == pat.ident:
                    head = '     {:<14}'.format(
                        '[{}]'.format(x.label) if x.label else '')
                else:
                    head = "  {:<17}".format("'{}' =>".format(pat.raw))
                last = pat.ident
                lines.append('{} {:<45} [pbx_config]'.format(
                    head, '{}. {}'.format(x.prio, app)))
            for name, _, _ in section.includes:
                lines.append("  {:<17} {:<45} [pbx_config]".format(
                    'Include =>', "'{}'".format(name)))
            lines.append('')
        return '\n'.join(lines)


def could_be(tokens, value):
    """
    Whether the tokens may turn into value, if the variables are right.
    (Simulate all positions at once.)
    """
    positions = {0}
    for t in tokens:
        if isinstance(t, str):
            positions = {
                p + 1 for p in positions if value[p:p + 1] == t}
        elif positions:
            positions = set(range(min(positions), len(value) + 1))
    return len(value) in positions


def default_example(raw):
    pat = Pat(raw)
    ret = []
    for item in pat.seq:
        if item == ANY1:
            ret.extend(b'0-123456789-333')
        elif item == ANY0:
            ret.extend(b'-123456789-333')
        else:
            ret.append(min(
                [i for i in item if i != 0x2d] or [0x2d]))
    return bytes(ret).decode('utf-8', 'surrogateescape')


# -- func_odbc ------------------------------------------------------------------

ODBC_KEYS = (
    'prefix', 'synopsis', 'dsn', 'escapecommas', 'mode', 'rowlimit',
    'readhandle', 'writehandle', 'readsql', 'writesql', 'insertsql',
    'read', 'write')


class OdbcModel(object):
    def __init__(self, files, name='func_odbc.conf'):
        self.fm = FileModel(files)
        self.msgs = self.fm.msgs
        self.functions = []         # (name, file, line, {key: value}, used)
        self.names = {}             # lower: proper
        cur = None
        for e in self.fm.read(name):
            if e.kind == 'header':
                if not self._good_name(e.name):
                    self._report(e, 'W_ODBC_BADTOKENS', e.name)
                cur = {'name': e.name, 'where': (e.file, e.line), 'keys': []}
                self.functions.append(cur)
            elif e.kind == 'set':
                if e.arrow:
                    self._report(e, 'H_CONF_HAS_ARROW')
                if cur is None:
                    self._report(e, 'E_CONF_CTX_MISSING')
                else:
                    self._set(cur, e)
        for function in self.functions:
            keys = dict(function['keys'])
            function['name_full'] = '{}_{}'.format(
                keys.get('prefix') or 'ODBC', function['name'])
            if any(i in keys for i in (
                    'read', 'write', 'readsql', 'writesql')):
                self.names[function['name_full'].lower()] = (
                    function['name_full'])
            else:
                self.msgs.append(Msg(
                    function['where'][0], function['where'][1],
                    'E_ODBC_NOSQL'))

    def _report(self, e, code, *items):
        self.msgs.append(Msg(e.file, e.line, code).naming(*items))

    @staticmethod
    def _good_name(name):
        parts = name.split('_')
        return all(
            part and all(ch in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
                         for ch in part) for part in parts)

    def _set(self, cur, e):
        if e.key not in ODBC_KEYS:
            self._report(e, 'E_CONF_KEY_INVALID', e.key)
            return
        have = [key for key, _ in cur['keys']]
        if e.key in have:
            self._report(e, 'E_CONF_KEY_DUPE', e.key)
            return
        if have and ODBC_KEYS.index(e.key) < ODBC_KEYS.index(have[-1]):
            self._report(e, 'W_CONF_KEY_LATE', e.key)
        if e.key in ('read', 'write'):
            self._report(e, 'W_ODBC_LEGACY')
        if e.key in ('readsql', 'writesql', 'insertsql', 'read', 'write'):
            if e.value.endswith(';'):
                self._report(e, 'W_ODBC_TAILSEMI')
        cur['keys'].append((e.key, e.value))
