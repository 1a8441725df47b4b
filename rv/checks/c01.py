"""C01: every input ends in exit 0 or 1, never a crash, never a hang."""
import os
import re
import shutil
import subprocess
import sys

from .. import core, forked, gen, lint, magnify, model, server

PROPERTY = 'C01'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the parsers run in-process on hostile input '
             'with a watch for uncaught exceptions and a budget of executed '
             'lines; the commands run as processes with a watch on exit '
             'status, CPU time and what they print, on CPython and on PyPy')
RULE = ('Random dialplans and func_odbc files with mistakes, damaged by '
        'byte and token mutations, token soup and long repetitions; '
        'non-trivial is an input with at least one diagnostic.')
ASSUMPTIONS = [
    'Nesting of variables at most 40 deep; no file that includes itself; '
    'editdistance is available to ident-scan (a stand-in).',
    'A hang is more than {} executed lines or {:.0f} s of CPU for an input '
    'of a few kB.'.format(core.LINE_LIMIT, core.CPU_MAX),
]
TOKENS = [
    '${', '$[', '}', ']', '(', ')', ',', ':', '=', '=>', '"', "'", '\\', ';',
    '|', '?', '&', '%', '$', '{', '[', '_', '-', '.', '!', 'X', 'Z', 'N', 'n',
    's', 'i', 'h', '1', '0', '-1', '99999999999', '\u0663', 'foo', 'EXTEN',
    'LEN', 'SET', 'INC', 'DEC', 'CUT', 'IF', 'ENV', 'ODBC_X', 'CALLERID', ' ',
    '\t', 'exten', 'same', 'include', 'general', 'globals', 'Set(', 'NoOp(',
    'Goto(', 'GotoIf(', 'Gosub(', 'GosubIf(', 'ExecIf(', 'Dial(', 'VoiceMail(',
    'Milliwatt(', 'Originate(', 'GotoIfTime(', 'ExecIfTime(', 'Background(',
    'BackGround(', 'background(', 'Unknown(', 'UNKNOWN(', '#', '[', '](', '<',
    '>', '\x00', '\x1f', '\r', '\x7f', '\u20ac', '\xa0', '\u2028', '\ud7ff',
    '\U0001f600', '\x0b', '\x0c', 'hint', 'AUDIOHOOK_INHERIT(', ':-1', ':1:',
    '(l)', 'n(', '1(', '...', '--', '0x1', '1e9', '+', '*', '/', '^', '~', '`',
    '@', '${EXTEN}', '${EXTEN:1}', '${x}', '$[1]', '${ARG1}', '${SET(a=b)}',
    '{}', '[]', '()', '{0}', '{x}', '%s', '%d', '\\;', '\\\\', '[a-z]', '_X.',
]
STARTS = [
    'exten => {}', 'exten => 1,1,{}', 'exten => {},1,NoOp()', ' same => n,{}',
    ' same => {}', 'same => n({}),NoOp()', 'exten => _{},1,NoOp()',
    'exten => 1,{},NoOp()', 'include => {}', '[{}]', '[x]({})', '#include {}',
    '#tryinclude "{}"', '#exec {}', '{}', '{}={}', 'exten => 1,1,Set({})',
    'exten => 1,1,NoOp({})', 'exten => 1,1,Goto({})', 'exten => 1,1,GotoIf({})',
    'exten => 1,1,ExecIf({})', 'exten => 1,1,Gosub({})', 'switch => {}',
    'exten => 1,1,GosubIf({})', 'exten => 1,1,VoiceMail({})', '{} => {}',
    'exten => 1,1,NoOp(${{{}}})', 'exten => 1,1,NoOp($[{}])', '{}; {}',
    'exten => 1,1,NoOp(${{LEN({})}})', 'exten => 1,1,Originate({})',
    'exten => 1,1,Set({}={})', 'readsql={}', 'prefix={}', 'dsn{}', '[{}',
    'exten => 1,1,ExecIf($[1]?{}:{})', 'exten => 1,1,GotoIf($[1]?{}:{})',
    'exten => 1,1,Set(LEN({})=)', 'exten => 1,1,NoOp(${{x:{}}})',
    'exten => _[{}],1,NoOp()', 'exten => _[{}]X{},1,NoOp()',
]


def plan(tier):
    return {'cases': 26000 if tier == 'quick' else 400000,
            'min_events': {'inprocess': 10000, 'commands': 500,
                           'subprocess': 20, 'pypy': 200},
            'kinds': ('generated', 'mutated', 'soup', 'long', 'bytes',
                      'dialplan-check', 'dialplan-show', 'func_odbc-check',
                      'ident-scan', 'modules-show', 'exit0', 'exit1')}


def nesting(text):
    "An upper bound of how deep the variables are nested."
    stack = []
    most = 0
    for opening, closing in re.findall(r'(\$\{|\$\[)|([\]}])', text):
        if opening:
            stack.append('}' if opening == '${' else ']')
            most = max(most, len(stack))
        elif stack and stack[-1] == closing:
            stack.pop()
    return most


def allowed(files):
    for data in files.values():
        for line in data.split(b'\n'):
            if len(line) > 150:
                text = line.decode('latin1')
                if nesting(text) > 40 or text.lower().count('execif') > 20:
                    return False
    try:
        for name in ('extensions.conf', 'func_odbc.conf'):
            fm = model.FileModel(files)
            fm.read(name)
            if len(fm.opened) > 60:
                return False
    except RecursionError:
        return False
    return True


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier
        self.dir = os.path.join(core.WORK, 'c01-{}'.format(os.getpid()))
        self.zygote = forked.Zygote()
        self.pypy = None

    def finish(self):
        if self.pypy:
            self.pypy.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, rng, index):
        while True:
            data = self.attempt(rng, index)
            if allowed(data['files']):
                return data

    def attempt(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([.1, .3, .6]), depth=rng.choice(
            [1, 2, 4]))
        g.again = rng.choice([0, 0, 0, .3])
        kind = rng.choice(['generated', 'mutated', 'mutated', 'soup', 'soup',
                           'soup', 'bytes', 'long'])
        if kind in ('generated', 'mutated'):
            lines = g.dialplan_lines()
            odbc = self.odbc(rng)
        elif kind == 'bytes':
            lines = []
            odbc = []
        else:
            lines = ['[general]', '[globals]', '[a]']
            for _ in range(rng.randint(1, 12) if kind == 'soup' else 1):
                lines.append(self.line(rng, kind))
            if rng.random() < .3:
                rng.shuffle(lines)
            odbc = lines if rng.random() < .5 else self.odbc(rng)
        files = g.spread(lines, level=rng.choice([0, .5, 2]))
        g.spread(odbc, level=rng.choice([0, .5, 2]), name='func_odbc.conf',
                 files=files)
        if kind == 'mutated':
            for name in files:
                files[name] = self.mutate(rng, files[name])
        elif kind == 'bytes':
            for name in files:
                files[name] = bytes(
                    rng.choice(b'\x00\xff\xc3\xe2[]{}()$_;=>,\\"\r\n\n x1')
                    if rng.random() < .8 else rng.randrange(256)
                    for _ in range(rng.randint(0, 60)))
        if rng.random() < magnify.share(.06):
            magnify.magnify(rng, files)
        how = 'inprocess'
        if index % 11 == 0:
            how = 'command'
        if index % 401 == 5:
            how = 'subprocess'
        if index % 67 == 7:
            how = 'pypy'
        command = rng.choice(['dialplan-check', 'dialplan-check',
                              'dialplan-show', 'func_odbc-check',
                              'ident-scan', 'modules-show'])
        argv = [command]
        if command == 'ident-scan' and (
                how == 'subprocess' or rng.random() < .5):
            argv.append('-v')
        elif command == 'dialplan-show' and rng.random() < .3:
            argv.append('--reverse')
        elif command in ('dialplan-check', 'modules-show'):
            argv.append(rng.choice([
                '--func-odbc=', '--func-odbc=func_odbc.conf', None, None]))
        argv.append('func_odbc.conf' if command == 'func_odbc-check' else
                    'extensions.conf')
        return {'kind': kind, 'files': files, 'how': how,
                'argv': [i for i in argv if i]}

    def odbc(self, rng):
        lines = []
        for _ in range(rng.randint(0, 8)):
            lines.append(rng.choice([
                '[FOO]', '[BAR]', '[foo_]', '[]', 'readsql=SELECT 1',
                'writesql=UPDATE x', 'prefix=X', 'prefix=', 'dsn=a', 'foo=',
                'read=x', 'insertsql=y', 'mode=multirow', 'prefix=a b',
                'readsql=', 'synopsis => x', 'prefix=\u00e9(', '[a{b}c]',
                '[{0}]', 'writesql=x\\;']))
        return lines

    def soup(self, rng, most=14):
        return ''.join(rng.choice(TOKENS) for _ in range(
            rng.randint(0, most))).replace('\n', '')

    def line(self, rng, kind):
        start = rng.choice(STARTS)
        holes = start.count('{}')
        if kind == 'soup':
            return start.format(*[self.soup(rng) for _ in range(holes)])
        # One piece, many times. Then an end that does not fit.
        pieces = []
        for _ in range(holes):
            piece = self.soup(rng, 4)
            pieces.append(piece * rng.choice([20, 33, 60, 200]) +
                          self.soup(rng, 2))
        return start.format(*pieces)[0:3000]

    def mutate(self, rng, data):
        data = bytearray(data)
        for _ in range(rng.choice([1, 1, 2, 4, 10])):
            pos = rng.randint(0, len(data))
            kind = rng.random()
            if kind < .35:
                data[pos:pos] = rng.choice(TOKENS).encode(
                    'utf-8', 'surrogatepass')
            elif kind < .55:
                del data[pos:pos + rng.choice([1, 1, 2, 3, 8])]
            elif kind < .7:
                end = pos + rng.randint(1, 12)
                piece = data[pos:end]
                if b'\n' not in piece:
                    data[pos:pos] = piece * rng.choice([1, 2, 5, 20])
            elif kind < .8 and data:
                data[pos % len(data)] = rng.randrange(256)
            elif kind < .9:
                data[pos:pos] = rng.choice([
                    b'\n', b'\r\n', b'\r', b'\n\n\n\n', b'\xff', b'\x00'])
            else:
                lines = bytes(data).split(b'\n')
                a, b = rng.randrange(len(lines)), rng.randrange(len(lines))
                lines[a], lines[b] = lines[b], lines[a]
                data = bytearray(b'\n'.join(lines))
        return bytes(data)

    # observing

    def observe(self, case, data):
        case.see(data['kind'])
        if data['how'] == 'inprocess':
            self.inprocess(case, data['files'])
        else:
            self.command(case, data)

    def inprocess(self, case, files):
        case.stats['inprocess'] += 1
        a = lint.odbc(files)
        b = lint.dialplan(files)
        for reverse in (False, True):
            b.dialplan.format_as_dialplan_show(reverse=reverse)
        for context in b.dialplan.contexts:
            for exten in context:
                str(exten.pattern)
        for noise in a.noise + b.noise:
            case.fail('noise', 'stderr has {!r}'.format(noise))
        case.nontrivial = bool(b.messages)
        case.stats['diagnostics'] += len(a.messages) + len(b.messages)

    def command(self, case, data):
        shutil.rmtree(self.dir, ignore_errors=True)
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        argv = data['argv']
        case.see(argv[0])
        if data['how'] == 'subprocess':
            case.stats['subprocess'] += 1
            env = {'PATH': os.environ['PATH'], 'HOME': '/nonexistent',
                   'PYTHONPATH': core.REPO, 'PYTHONDONTWRITEBYTECODE': '1'}
            proc = subprocess.run(
                [sys.executable, os.path.join(
                    core.REPO, 'scripts', 'asterisklint')] + argv,
                cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            status = proc.returncode
            err = proc.stderr.decode('utf-8', 'replace')
        elif data['how'] == 'pypy':
            # The interpreter that builds and tests it.
            case.stats['pypy'] += 1
            if self.pypy is None:
                self.pypy = server.Server('/usr/bin/pypy3', {
                    'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
            ret = self.pypy.main(argv, None, cwd=self.dir, env={
                'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
            status, err = ret.status, ret.err
            if ret.hung:
                core.count_lines(self.inprocess, core.Case(), data['files'])
                case.stats['inconclusive'] += 1
                return
        else:
            case.stats['commands'] += 1
            ret = self.zygote.main(argv, cwd=self.dir, env={
                'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
            status, err = ret.status, ret.err
            if ret.hung:
                # The processor time ran out; count lines to be sure.
                core.count_lines(self.inprocess, core.Case(), data['files'])
                case.stats['inconclusive'] += 1
                return
        case.see('exit{}'.format(status))
        messages, noise = lint.parse_stderr(err)
        case.nontrivial = bool(messages)
        what = ' '.join(argv)
        if 'Traceback' in err:
            last = err.strip().split('\n')[-1]
            frames = re.findall(r'File "([^"]*)", line \d+, in (\S+)', err)
            site = [i for i in frames if i[0].startswith(core.REPO)][-1:]
            case.fail('crash:{}:{}'.format(last.partition(':')[0], site),
                      '{}: exit {}\n{}'.format(what, status, err[-1500:]))
        elif noise:
            case.fail('noise', '{}: stderr has {!r}'.format(what, noise[0:3]))
        if status not in (0, 1):
            case.fail('status', '{}: exit status {}\n{}'.format(
                what, status, err[-500:]))
        if argv[0] in ('dialplan-check', 'func_odbc-check'):
            if status in (0, 1) and status != int(bool(messages)):
                case.fail('status', '{}: exit status {} with {} messages'
                          .format(what, status, len(messages)))
        elif err and 'Traceback' not in err:
            case.fail('stderr', '{}: prints {!r}'.format(what, err[0:300]))
        if argv[0] in ('dialplan-show', 'func_odbc-show') and status == 1:
            case.fail('status', '{}: exit status 1'.format(what))
