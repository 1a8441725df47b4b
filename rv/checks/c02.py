"""C02: no configuration line is silently dropped."""
import collections
import posixpath

from .. import core, gen, lint, magnify, model

PROPERTY = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: conservation; every line with content is '
             'accounted for in the parsed result or in a message at its '
             'position, exactly as often as its file was opened; metamorphic '
             'runs with rejected lines put in between; read errors in the '
             'middle of a file')
RULE = ('Random dialplans, configurations and func_odbc files with every kind '
        'of good and bad line, spread over files and with damaged bytes; '
        'non-trivial is a case with both accepted and rejected lines.')
ASSUMPTIONS = [
    'A missing file at a #tryinclude and the directive of a file that was '
    'read are accounted for without a message.',
]
REJECTED = [
    # Lines that are rejected wherever they are within a section.
    'bla bla', '[x', 'x]', '#bogus', '#include', '#exec', '#exec /bin/true',
    '#include nosuch.conf', '#include "nosuch', 'foo=bar', 'foo => bar', '=',
    '=>', 'exten', 'exten =>', 'exten => ', 'exten => ,1,NoOp(m)',
    'exten => 1', 'exten => 1,', 'exten => 1,x,NoOp(m)', 'exten => 1,0,NoOp()',
    'exten => 1,-1,NoOp(m)', 'exten => 1,1(a,NoOp(m)', 'exten => 1,hint,SIP/x',
    'exten => _1[,1,NoOp(m)', 'exten => _[],1,NoOp(m)', 'same => x,NoOp(m)',
    'same => ', 'same =>', 'same => hint,SIP/1', 'same => 1(,NoOp()',
    'switch => IAX2/x', 'ignorepat => 9', 'Exten => 1,1,NoOp()', 'incl => a',
    'exten => 1,1x,NoOp(m)', 'exten => 1,\u0663,NoOp(m)', '(x)', '[a] x',
    'include', '<x>', '"', ',', '[ctx](abc)', 'x](t)', '[a]b=', 'EXTEN=>1,1,x',
    ' #include', '#tryinclude', '#tryinclude ', '\\;', 'same', '!', '[',
    'exten => 1,n(x)y,NoOp(m)', 'exten => ' + '1' * 40 + ',' + '9' * 40 + ',x',
]


class FailingFile(lint.MemFile):
    "A file that cannot be read any further after some lines."
    def take(self, get, *args):
        if not self.left:
            self.log.failed = True
            raise OSError(5, 'Input/output error')
        self.left -= 1
        return get(*args)

    def __next__(self):
        return self.take(super().__next__)

    def readline(self, *args):
        return self.take(super().readline, *args)

    def read(self, *args):
        self.left = 0
        return self.take(None)

    read1 = readinto = readlines = getvalue = getbuffer = read


class FailingOpener(lint.Opener):
    failed = False

    def __init__(self, files, name, left):
        super().__init__(files)
        self.name = name
        self.left = left

    def __call__(self, name):
        if posixpath.normpath(name) != self.name or self.name not in self.files:
            return super().__call__(name)
        ret = FailingFile(name, self.files[self.name], self)
        ret.left = self.left
        return ret


def plan(tier):
    return {'cases': 14000 if tier == 'quick' else 220000,
            'min_events': {'accepted': 20000, 'rejected': 4000,
                           'inserted': 2000},
            'kinds': ('dialplan', 'config', 'odbc', 'header', 'element',
                      'spliced', 'named', 'try', 'inserted', 'repeated',
                      'read-error')}


def content_lines(data):
    "[(lineno, text)] of the lines that are not blank or comment."
    ret = []
    for lineno, line in enumerate(data.split(b'\n'), 1):
        try:
            text = line.decode('utf-8')
        except UnicodeDecodeError:
            text = line.decode('cp1252', 'replace')
        text = text.strip()
        if text and not text.startswith(';'):
            ret.append((lineno, text))
    return ret


class Result(object):
    def __init__(self, kind, files):
        self.elements = collections.Counter()   # (file, line)
        self.headers = collections.Counter()    # name
        if kind == 'dialplan':
            self.observed = lint.dialplan(files)
            dialplan = self.observed.dialplan
            for name, _, extens, includes in lint.sections_of(dialplan):
                self.headers[name] += 1
                self.elements.update((e[4], e[5]) for e in extens)
                self.elements.update((i[1], i[2]) for i in includes)
            for name in ('general', 'globals'):
                context = getattr(dialplan, name)
                if context is not None:
                    self.headers[name] += 1
                    self.elements.update(
                        (e[3], e[4]) for e in lint.sets_of(context))
        elif kind == 'config':
            self.observed = lint.config(files, 'extensions.conf')
            for name, _, _, sets in self.observed.sections:
                self.headers[name] += 1
                self.elements.update((e[3], e[4]) for e in sets)
        else:
            self.observed = lint.odbc(files, 'extensions.conf')
            for context in self.observed.functions:
                self.headers[context.name] += 1
                self.elements.update(
                    (v.where.filename, v.where.lineno) for v in context)
        self.named = set((m.file, m.line) for m in self.observed.messages)
        self.bad = set((m.file, m.line) for m in self.observed.messages
                       if m.code in ('E_CONF_BAD_LINE',
                                     'E_CONF_CTX_MISSING'))
        # The settings of a second [globals] are covered by its header.
        self.unused = set()
        again = set((m.file, m.line) for m in self.observed.messages
                    if m.code == 'E_DP_GLOBALS_DUPE')
        if again:
            unused = False
            for e in model.FileModel(files).read('extensions.conf'):
                if e.kind == 'header':
                    unused = (e.name == 'globals' and
                              (e.file, e.line) in again)
                elif unused:
                    self.unused.add((e.file, e.line))


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier

    def generate(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([0, .05, .2, .5]))
        g.again = rng.choice([0, 0, 0, .3])
        kind = rng.choice(['dialplan'] * 4 + ['config', 'odbc'])
        if kind == 'odbc':
            lines = self.odbc(rng)
        elif rng.random() < .5:
            lines = g.dialplan_lines()
        else:
            lines = self.marked(rng)
        lines = list(lines)
        data = {'kind': kind, 'inserted': None}
        if rng.random() < .35 and kind == 'dialplan':
            # Cleanly laid out, and the same with rejected lines put in.
            data['files'] = {'extensions.conf': ''.join(
                i + '\n' for i in lines).encode('utf-8')}
            first = next((n for n, i in enumerate(lines)
                          if i.startswith('[') and i not in (
                              '[general]', '[globals]')), len(lines))
            where = list(range(len(lines)))
            for _ in range(rng.randint(1, 3)):
                if len(lines) == first:
                    break
                pos = rng.randint(first + 1, len(lines))
                # Not within [general], where anything is a setting.
                bad = rng.choice(REJECTED)
                before = [i for i in lines[0:pos] if i.startswith('[') and
                          i.endswith(']')][-1:]
                if before and before[0] in ('[general]', '[globals]'):
                    continue
                lines.insert(pos, bad)
                where.insert(pos, None)
            data['inserted'] = {
                'lines': ''.join(i + '\n' for i in lines).encode('utf-8'),
                'where': where}
            return data
        for _ in range(rng.choice([0, 0, 1, 3])):
            lines.insert(rng.randint(0, len(lines)), rng.choice(REJECTED))
        files = g.spread(lines, level=rng.choice([0, .3, 1, 2]))
        if rng.random() < .2 and len(files) > 1:
            # The same file, more than once. (But not inside itself.)
            name = rng.choice(sorted(i for i in files if '/' not in i))
            if name != 'extensions.conf' and b'#' not in files[name]:
                files['extensions.conf'] += '\n#include {}\n'.format(
                    name).encode('utf-8')
        if rng.random() < magnify.share(.05):
            data['big'] = magnify.magnify(rng, files)
        data['files'] = files
        if rng.random() < .1:
            name = rng.choice(sorted(files))
            lines = files[name].count(b'\n') + 1
            data['failing'] = [name, rng.choice([
                0, rng.randint(0, lines), lines - 1])]
        return data

    def marked(self, rng):
        lines = []
        for n in range(rng.randint(1, 30)):
            kind = rng.random()
            if kind < .2 or not lines:
                lines.append('[{}]'.format(rng.choice(
                    ['general', 'globals', 'a', 'c%d' % n, 'd', 'b c', '',
                     'a=b', 'é', '"x"', '#c'])))
            elif kind < .3:
                lines.append('include => {}'.format(rng.choice(
                    ['a', 'c%d' % n, 'd', ''])))
            elif kind < .4:
                lines.append('{}{}v{}'.format(
                    rng.choice(['k%d' % n, 'k', 'switch', 'ignorepat']),
                    rng.choice(['=', ' => ']), n))
            elif kind < .5:
                lines.append(rng.choice(REJECTED))
            elif kind < .8:
                lines.append('exten => {},{}{},NoOp(m{})'.format(
                    rng.choice(['1', '2', '_X', '_[1-3]', '_N', '_[2-9]']),
                    rng.choice(['1', 'n', '2', '3']),
                    rng.choice(['', '', '(l)', '(m)']), n))
            else:
                lines.append(' same => {},NoOp(m{})'.format(
                    rng.choice(['n', '1', '2', 'n(l)']), n))
        return lines

    def odbc(self, rng):
        lines = []
        for n in range(rng.randint(0, 16)):
            kind = rng.random()
            if kind < .3 or not lines:
                lines.append('[{}]'.format(rng.choice(
                    ['F%d' % n, 'A', 'b', ''])))
            else:
                lines.append('{}{}{}'.format(
                    rng.choice(['dsn', 'readsql', 'writesql', 'insertsql',
                                'prefix', 'synopsis', 'mode', 'bogus', '',
                                'read', 'write', 'rowlimit', 'readhandle']),
                    rng.choice(['=', '=>']),
                    rng.choice(['', 'x%d' % n, 'SELECT %d\\;' % n])))
        return lines

    def observe(self, case, data):
        result = Result(data['kind'], data['files'])
        case.see(data['kind'])
        self.account(case, data['kind'], data['files'], result)
        if data['inserted']:
            self.inserted(case, data, result)
        if data.get('failing'):
            self.failing(case, data, result)

    @staticmethod
    def failing(case, data, result):
        "A read error is not taken for the end of the file."
        from asterisklint import (
            FileConfigParser, FileDialplanParser, FileFuncOdbcParser)
        name, left = data['failing']
        opener = FailingOpener(data['files'], name, left)
        class_ = {'dialplan': FileDialplanParser, 'config': FileConfigParser,
                  'odbc': FileFuncOdbcParser}[data['kind']]
        lint.fresh()
        try:
            with lint.captured() as cap:
                parser = class_(opener=opener)
                parser.include('extensions.conf')
                list(parser)
        except OSError:
            if opener.failed:
                case.see('read-error')
            return
        missing = [sum(i.code == 'W_PP_INCLUDE_MISSING' for i in messages)
                   for messages in (result.observed.messages,
                                    lint.parse_stderr(cap.text)[0])]
        if opener.failed and missing[1] <= missing[0]:
            case.fail('read-error', '{} cannot be read after {} lines, which '
                      'is taken for its end'.format(name, left))

    def account(self, case, kind, files, result):
        opens = collections.Counter(
            posixpath.normpath(i) for i in result.observed.opener.opened)
        spelled = collections.defaultdict(set)
        for name in result.observed.opener.opened:
            spelled[posixpath.normpath(name)].add(name)
        rejected = 0
        expected_headers = collections.Counter()
        for name, count in opens.items():
            if count > 1:
                case.see('repeated')
            for lineno, text in content_lines(files[name]):
                places = [(i, lineno) for i in spelled[name]]
                times = sum(result.elements[i] for i in places)
                named = any(i in result.named for i in places)
                if times > count:
                    case.fail('doubled', '{}:{} {!r} is in the result {} '
                              'times, the file was read {} times'.format(
                                  name, lineno, text, times, count))
                elif times == count:
                    case.see('element')
                    case.stats['accepted'] += 1
                elif any(i in result.unused for i in places):
                    case.see('unused')
                elif (not any(i in result.bad for i in places) and
                        self.header(result, text, expected_headers, count)):
                    case.see('header')
                    case.stats['accepted'] += 1
                elif named:
                    case.see('named')
                    rejected += 1
                elif text.startswith('#include') and len(opens) > 1:
                    case.see('spliced')
                    self.spliced(case, name, lineno, text, opens)
                elif text.startswith('#tryinclude'):
                    case.see('try')
                else:
                    case.fail('dropped', '{}:{} {!r} is not in the result and '
                              'there is no message about it'.format(
                                  name, lineno, text))
        case.stats['rejected'] += rejected
        case.nontrivial = bool(rejected and result.elements)
        for name, count in expected_headers.items():
            if kind != 'dialplan' and result.headers[name] < count:
                case.fail('header-dropped', '[{}] is there {} times but found '
                          '{} times'.format(name, count, result.headers[name]))
            if kind == 'dialplan' and result.headers[name] > 1:
                case.fail('header-doubled', '[{}] is there {} times'.format(
                    name, result.headers[name]))

    @staticmethod
    def header(result, text, expected, count):
        if text.startswith('['):
            name, closed, tail = text[1:].partition(']')
            tail = tail.lstrip()
            name = name.replace('\\;', ';')
            if closed and name in result.headers and (
                    not tail or tail.startswith(';')):
                expected[name] += count
                return True
        return False

    @staticmethod
    def spliced(case, name, lineno, text, opens):
        arg = text[len('#include'):].strip()
        arg = arg.split(';')[0].strip().strip('"<>')
        path = posixpath.normpath(posixpath.join(
            posixpath.dirname(name), arg))
        if path not in opens and '\\' not in text:
            case.fail('not-spliced', '{}:{} {!r} was not read'.format(
                name, lineno, text))

    def inserted(self, case, data, base):
        """
        The rejected lines that we inserted are named, and nothing else
        changed, other than line numbers.
        """
        extra = data['inserted']
        other = Result('dialplan', {'extensions.conf': extra['lines']})
        where = {None: None, 0: 0, -1: -1}
        back = {0: 0, -1: -1}
        for now, before in enumerate(extra['where'], 1):
            if before is None:
                case.stats['inserted'] += 1
                case.see('inserted')
                where[now] = None
                back[now] = None
                if ('extensions.conf', now) not in other.named:
                    case.fail('insert-unnamed', 'line {} is not reported: '
                              '{!r}'.format(now, extra['lines'].split(
                                  b'\n')[now - 1]))
            else:
                back[now] = before + 1
        a = [(name, at[1], [(e[0:4], e[5]) for e in extens], includes)
             for name, at, extens, includes in lint.sections_of(
                 base.observed.dialplan)]
        b = [(name, back[at[1]], [(e[0:4], back[e[5]]) for e in extens],
              [(i[0], i[1], back[i[2]]) for i in includes])
             for name, at, extens, includes in lint.sections_of(
                 other.observed.dialplan)]
        if a != b:
            diff = [(x, y) for x, y in zip(a, b) if x != y] or (a, b)
            case.fail('insert-changes', 'rejected lines change the result: '
                      '{!r}'.format(diff[0]))
        def msgs(messages, numbers):
            return collections.Counter(
                (m.code, numbers(m.line)) for m in messages
                if not m.code.startswith(('W_WSV', 'H_WSV')))
        c = msgs(base.observed.messages, lambda x: x)
        d = msgs(other.observed.messages, lambda x: back[x])
        for msg in set(c) | set(d):
            if msg[1] is not None and c[msg] != d[msg]:
                case.fail('insert-messages', 'rejected lines elsewhere change '
                          '{!r} from {} to {}'.format(msg, c[msg], d[msg]))


__all__ = ['core']
