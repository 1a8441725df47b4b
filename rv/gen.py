"""
Workload generators: realistic and hostile configurations. Everything is
drawn from a random.Random, so a case can be generated again.
"""
from .model import APPS, CATALOGUE, FUNCS

CONTEXTS = ['default', 'from-sip', 'sub', 'sub2', 'ivr_1', 'Out', 'a', 'b c']
LABELS = ['start', 'again', 'done', 'x', 'lbl-2', 'Start', 'n1']
VARS = ['CALLERID', 'foo', 'FOO', 'bar_1', 'ARG1', 'EXTEN', 'x', 'count',
        'HASH', 'foobar', 'foobaz', '_inherit', '__deep']
BADVARS = ['foo bar', 'a-b', 'n\u00e9e', 'x.y', 'a@b', 'foo;']
LITERALS = ['s', 'i', 'h', 't', '100', '101', '123', '1', '9', '0',
            '200', 'fax', '2-00', '*98', '#1', 'abc', '+31', '12']
PATTERNS = ['_X.', '_X', '_1XX', '_[1-3]X', '_NXX', '_ZXX', '_2!', '_!', '_.',
            '_1[2-46]', '_[0-9]', '_xnz', '_2-XX', '_+3X', '_[135]', '_[abc]X',
            '_1X', '_10X', '_[0-9][1-9]', '_s', '_*9X', '_X!', '_[12]00',
            '_123', '_[1-1]', '_[5-3]', '_1[89-]', '_1.5', '_a[n]y']
BADPATTERNS = ['_[', '_1[', '_[]', '_[1-', 'X[', '_1[]2', '_X[2-9']
PLAIN_APPS = ['NoOp', 'Verbose', 'Playback', 'Wait', 'Answer', 'Hangup',
              'Dial', 'SayNumber', 'Return', 'Read', 'Queue', 'System', 'While',
              'AGI', 'Background']
FUNC_NAMES = ['LEN', 'CALLERID', 'CUT', 'DB', 'IF', 'CHANNEL', 'STRFTIME',
              'MATH', 'FILTER', 'TIMEOUT']
CONDS = ['$[1 = 1]', '${foo}', '$["${foo}" = ""]', '$[${x} > 3]',
         '${ISNULL(${foo})}', '$[${LEN(${foo})}=0]', ' $[1] ', '${x}${foo}']
BADCONDS = ['', ' ', '1', '$[1]=1', '${x} ', 'x${y}', '"${x}"', '\\${x}',
            '1&${x}', '"']
WORDS = ['abc', 'a b', '1', 'hello', 'SIP/100', 'x=y', '&', 'n', '00', '-',
         'te st', '.', '/', 'tt-monkeys', '3']


class Gen(object):
    def __init__(self, rng, bad=0.12, depth=2, unicode=0.03):
        self.r = rng
        self.bad = bad
        self.depth = depth
        self.unicode = unicode
        self.again = 0      # how often a file is included once more

    def one(self, seq):
        return self.r.choice(seq)

    def p(self, prob):
        return self.r.random() < prob

    def isbad(self):
        return self.r.random() < self.bad

    # names

    def context(self):
        return self.one(CONTEXTS)

    def literal(self):
        if self.p(0.25):
            return ''.join(self.one('0123456789') for _ in range(
                self.r.randint(1, 4)))
        return self.one(LITERALS)

    def charset(self):
        members = []
        for _ in range(self.r.randint(1, 4)):
            if self.p(0.4):
                members.append('{}-{}'.format(
                    self.one('0123456ace'), self.one('3456789fghz')))
            else:
                members.append(self.one('0123456789abcdnxz*#._!'))
        if self.p(0.1):
            members.append('-')
        return '[{}]'.format(''.join(members))

    def pattern(self):
        if self.p(0.4):
            return self.one(PATTERNS)
        ret = ['_']
        for _ in range(self.r.randint(1, 5)):
            kind = self.r.random()
            if kind < 0.4:
                ret.append(self.one('XXZNxzn'))
            elif kind < 0.7:
                ret.append(self.one('0123456789'))
            elif kind < 0.85:
                ret.append(self.charset())
            elif kind < 0.9:
                ret.append('-')
            else:
                ret.append(self.one('*#+abs'))
        if ret[1:] == ['-'] * (len(ret) - 1):
            ret.append('1')
        if self.p(0.2):
            ret.append(self.one('.!'))
        return ''.join(ret)

    def exten(self):
        return self.literal() if self.p(0.55) else self.pattern()

    def varname(self):
        if self.bad and self.p(0.04):
            return self.one(BADVARS)
        if self.p(0.8):
            return self.one(VARS)
        return ''.join(self.one('abcXYZ_019') for _ in range(
            self.r.randint(1, 5)))

    # variables

    def ref(self, depth=None):
        depth = self.depth if depth is None else depth
        kind = self.r.random()
        if self.isbad():
            return self.badref(depth)
        if depth <= 0 or kind < 0.4:
            return '${%s}' % (self.varname(),)
        if kind < 0.52:
            return '${%s%s}' % (self.varname(), self.slice(depth - 1))
        if kind < 0.6:
            return '${%s}' % (self.ref(depth - 1),)
        if kind < 0.66:
            return '${%s%s}' % (self.varname(), self.ref(depth - 1))
        if kind < 0.88:
            return '${%s}' % (self.funccall(depth - 1),)
        return '$[%s]' % (self.expr(depth - 1),)

    def slice(self, depth):
        if depth > 0 and self.p(0.15):
            ret = ':' + self.ref(depth - 1)
        else:
            ret = ':' + self.one(['1', '2', '-1', '-3', '10', '-2'])
        if self.p(0.4):
            if depth > 0 and self.p(0.15):
                ret += ':' + self.ref(depth - 1)
            else:
                ret += ':' + self.one(['1', '1', '-1', '-2', '1'])
        return ret

    def funcname(self):
        if self.isbad():
            return self.one([
                'len', 'Len', 'NOSUCH', 'cUT', 'ODBC_FOO', 'Unknown', ''])
        if self.p(0.15):
            return self.one(sorted(FUNCS.values()))
        return self.one(FUNC_NAMES)

    def funccall(self, depth):
        kind = self.r.random()
        if kind < 0.06:
            ret = '%s(%s)' % (self.one(['INC', 'DEC']), self.varname())
        elif kind < 0.12:
            ret = 'SET(%s)' % (self.assignment(depth),)
        elif kind < 0.15:
            ret = 'AUDIOHOOK_INHERIT(%s)' % (self.one(
                ['Volume', 'Mute', 'volume', '${x}']),)
        else:
            ret = '%s(%s)' % (self.funcname(), self.funcargs(depth))
        if self.p(0.12):
            ret += self.slice(depth)
        return ret

    def funcargs(self, depth):
        args = []
        for _ in range(self.r.randint(0, 3)):
            if self.p(0.06):
                # What means something outside of the function.
                args.append(self.one(['|', '?', ':', '"a|b"', '"a,b"', '=',
                                      '(x)', '[1]', '\\,', 'a|b', 'x?y:z',
                                      ' ']))
            else:
                args.append(self.text(depth, words=1))
        return ','.join(args)

    def expr(self, depth):
        a, b = self.text(depth, 1), self.text(depth, 1)
        if self.p(0.2):
            # Brackets and braces that are part of the expression.
            a = self.one(['[0-9]', '[${x}]', '{1}', '\\[', '\\]', '[[]]', '(1)',
                          '\\[[a]', '[a]\\]', '${y}]', '"[a-z]+\\(.\\)"', '{',
                          '}', '$', '$a', '$$', '\\${x}']) + a
        return self.one(['{} = {}', '"{}" = "{}"', '{}+{}', '{} & {}',
                         '{}?{}:1', '{} : {}']).format(a, b)

    def badref(self, depth):
        inner = self.varname()
        if depth > 0 and self.p(0.3):
            inner = self.ref(depth - 1)
        return self.one([
            '${%s:}', '${%s:a}', '${%s:0}', '${%s:0:0}', '${%s:1:0}',
            '${%s:-2:2}', '${%s:-2:1}', '${%s:1:x}', '${%s:1:2:3}',
            '${%s:0:3}', '${%s::}', '${%s:--1}', '${%s:1:}', '${%s:+1}',
            '${LEN(%s}', '${LEN%s)}', '${LEN(%s)x}', '${LEN(%s)x:1}',
            '${LEN(%s)::}', '${LEN(%s):0}', '${nosuch(%s)}', '${cut(%s)}',
            '${%s(x)}', '${DB(%s)"}', '${DB("%s)}', '${DB([%s)}', '${DB(%s})',
            '${IF(%s))}', '${%s()}', '${(%s)}', '${%s', '$[%s', '${%s]',
            '${SET(%s)}', '${SET(a b=%s)}', '${SET(LEN(x)=%s)}', '${SET()}',
            '${DB(%s):1:-1}', '${INC(%s)}', '${}%s', '$[]%s', '$%s', '${$%s}',
            '${SET(x)=%s)}', '${AUDIOHOOK_INHERIT(%s)}', '${DB(%s)$}',
        ]).replace('%s', inner)

    def text(self, depth=None, words=3):
        depth = self.depth if depth is None else depth
        ret = []
        for _ in range(self.r.randint(1, words)):
            kind = self.r.random()
            if kind < 0.4 and depth > 0:
                ret.append(self.ref(depth - 1))
            elif kind < 0.85:
                ret.append(self.one(WORDS))
            elif kind < 0.9:
                ret.append('"{}"'.format(self.one(WORDS)))
            elif kind < 0.93 and self.bad:
                ret.append(self.one([
                    '"', "'", '(', ')', '[', ']', '{', '}', '\\', '\\,',
                    '\\"', '$', '|', '?', ':', '()', '(a,b)', '[a,b]']))
            elif self.p(self.unicode):
                ret.append(self.one(['\u00e9', '\u20ac', '\U0001f600']))
        return ''.join(ret)

    # applications

    def assignment(self, depth=None):
        depth = self.depth if depth is None else depth
        if self.isbad():
            return self.one([
                '', '%s', '%s =1', 'a b=%s', 'LEN(%s)=1', 'nosuch(%s)=1',
                'cut(%s)=3', 'DB%s)=1', '%s(x)=1', '=%s', '%s)=1', 'LEN(=%s',
                'INC(%s)=', 'DB(a)(%s)=1', '(%s)=1', 'x=%s)', 'SET(%s)=1',
                'DB("%s)=x', '%s==']).replace('%s', self.one([
                    self.varname(), self.ref(min(depth, 1))]))
        kind = self.r.random()
        if kind < 0.7:
            dest = self.varname()
        elif kind < 0.85:
            dest = '{}({})'.format(self.funcname(), self.funcargs(depth))
        else:
            dest = self.ref(depth)
        return '{}={}'.format(dest, self.text(depth))

    def dest(self, depth=1):
        "Goto destination: [[context,]exten,]prio."
        def maybe(text, prob=0.12):
            if self.p(prob):
                return self.one([
                    '${foo}', '${EXTEN}', '${EXTEN:1}', '1${x}', '${x}a',
                    '${CUT(x,y,1)}', '${EXTEN:0:1}', '${EXTEN}1', '${x:1}',
                    's${LEN(x)}t', '${EXTEN:-1}', '${EXTEN:1:1}'])
            return text
        prio = maybe(self.one(['1', '2', '3', '1', '0', '99', 'n'] + LABELS))
        ret = [prio]
        if self.p(0.7):
            exten = self.literal() if self.p(0.8) else self.one(
                ['nosuch', '1234567', '-', '1-00'])
            ret.insert(0, maybe(exten))
            if self.p(0.6):
                context = self.context() if self.p(0.8) else self.one(
                    ['nocontext', 'general', 'globals', 'SUB', ''])
                ret.insert(0, maybe(context))
        if self.isbad():
            ret.insert(0, self.one(['', 'a', '${x}']))
        return ','.join(ret)

    def subdest(self):
        ret = self.dest()
        if self.p(0.3):
            ret += '(' + ','.join(
                self.text(1, 1) for _ in range(self.r.randint(0, 3)))
            if not self.isbad():
                ret += ')'
        return ret

    def ifdata(self, make, depth=1):
        cond = self.one(BADCONDS) if self.isbad() else self.one(CONDS)
        if self.isbad():
            return self.one([
                cond, '{},{}'.format(cond, make()),
                '{}?{}?{}'.format(cond, make(), make()), cond + '?', '', '?',
                cond + '?:', '{}?:{}'.format(cond, make()),
                '{}?"{}"'.format(cond, make()),
                '{}?{}:{}:{}'.format(cond, make(), make(), make()),
                '{}\\?{}'.format(cond, make())])
        ret = '{}?{}'.format(cond, make())
        if self.p(0.4):
            ret += ':' + make()
        return ret

    def appname(self):
        kind = self.r.random()
        if kind < 0.6:
            ret = self.one(PLAIN_APPS)
        else:
            ret = self.one(sorted(APPS.values()))
        if self.isbad():
            ret = self.one([
                ret.lower(), ret.upper(), ret + 'x', 'NoSuchApp', ret.title(),
                ' ' + ret, ret + ' ', '', '${x}', 'Unknown', '\t' + ret,
                ret + '\t', ret + '\xa0',
                ret.swapcase()])
            if ret.lower().strip() == 'background':
                ret = 'Background'
        return ret

    def call(self, name, data):
        if self.bad and self.p(self.bad / 4):
            return self.one([
                name, '{}({}'.format(name, data), '{} {}'.format(name, data),
                '{}({}) '.format(name, data), '{}({})x'.format(name, data),
                name + '()', '({})'.format(data),
                '{} ({})'.format(name, data), '{},{}'.format(name, data)])
        return '{}({})'.format(name, data)

    def app(self, nest=1):
        kind = self.r.random()
        if kind < 0.35:
            return self.call(self.appname(), self.text())
        if kind < 0.47:
            return self.call('Set', self.assignment())
        if kind < 0.56:
            return self.call('Goto', self.dest())
        if kind < 0.63:
            return self.call('GotoIf', self.ifdata(self.dest))
        if kind < 0.70:
            return self.call('Gosub', self.subdest())
        if kind < 0.75:
            return self.call('GosubIf', self.ifdata(self.subdest))
        if kind < 0.80:
            return self.call('VoiceMail', self.voicemail())
        if kind < 0.82:
            return self.call('Milliwatt', self.one(
                ['', 'o', 'oo', 'x', 'o,x', '${x}', 'o${x}']))
        if kind < 0.86:
            return self.call('Originate', self.originate())
        if kind < 0.89:
            return self.call(self.one(['GotoIfTime', 'ExecIfTime']), self.one([
                '9:00-17:00,mon-fri,*,*?{}', '*,*,*,*?{}', '{}', '?{}',
                '${{x}}?{}', ',{}', ' ,{}', '{}?a?b']).format(self.dest()))
        if kind < 0.96 and nest > 0:
            return self.call('ExecIf', self.ifdata(
                lambda: self.inner(nest - 1)))
        return self.one(['NoOp', 'NoOp()', 'noop', 'Hangup()', 'Return()'])

    def inner(self, nest):
        return self.app(nest)

    def voicemail(self):
        ret = self.one(['100@default', '100', '${x}', '', '1&2'])
        if self.p(0.6):
            ret += ',' + ''.join(
                self.one('bdgsuUP') for _ in range(self.r.randint(0, 3)))
            if self.isbad():
                ret += self.one(['x', 'q', 's', ',x', '${x}', '"', '(1)'])
        if self.isbad():
            ret = ret.replace(',', '|')
        return ret

    def originate(self):
        return ','.join([
            'SIP/x', self.one(['app', 'exten', 'exten', 'App', 'x', '${x}',
                               '', ' app']),
            'a', 'b', 'c', '10', 'x', 'y'][0:self.r.choice(
                [1, 2, 3, 4, 5, 6, 6, 7, 8])])

    # dialplan lines

    def prio(self, last=None):
        kind = self.r.random()
        if self.isbad():
            return self.one(['0', '-1', '', 'x', '1x', 'N', '01', ' 1', 'hint',
                             '2', '5', '\u0663', '9' * 31, 'n+1'])
        if last is not None and kind < 0.2:
            return str(last + 1)
        return 'n' if kind < 0.7 else '1'

    def label(self):
        if self.p(0.25):
            if self.isbad():
                return self.one(['(x', '(', '(a)b', '(x))'])
            return '({})'.format(self.one(LABELS))
        return ''

    def dialplan_lines(self, sections=None, lines=None, app=None):
        """
        A list of logical lines, without layout.
        """
        app = app or self.app
        ret = []
        if self.p(0.7):
            ret.append('[general]')
            if self.p(0.4):
                ret.append('static=yes')
        if self.p(0.7):
            ret.append('[globals]')
            if self.p(0.4):
                ret.append('FOO=bar')
        for _ in range(sections or self.r.randint(1, 5)):
            name = self.context()
            if self.bad and self.p(0.05):
                name = self.one(['general', 'globals', '', 'a=b'])
            ret.append('[{}]'.format(name))
            exten = None
            for _ in range(lines or self.r.randint(0, 7)):
                kind = self.r.random()
                if exten is None or kind < 0.35:
                    new = self.exten()
                    if self.isbad():
                        new = self.one(BADPATTERNS + [''])
                    first = exten is None or exten != new
                    exten = new
                    prio = '1' if first and not self.isbad() else self.prio()
                    line = 'exten => {},{}{},{}'.format(
                        exten, prio, self.label(), app())
                elif kind < 0.8:
                    line = ' same => {}{},{}'.format(
                        self.prio(), self.label(), app())
                elif kind < 0.88:
                    line = 'exten => {},n{},{}'.format(
                        exten, self.label(), app())
                elif kind < 0.96:
                    line = 'include => {}'.format(
                        self.context() if self.p(0.9) else 'nosuch')
                elif self.bad:
                    line = self.one([
                        'switch => Loopback/x', 'ignorepat => 9', 'foo=bar',
                        'exten => 1', 'exten => ', 'same => ', 'exten = 5,1,x',
                        'include = sub', 'bla bla', '#nosuch', 'Exten => 1,1,x',
                        'exten => 1,1', 'same => n', 'exten => 7,n,NoOp()',
                        'exten => 8,2,NoOp()'])
                else:
                    continue
                ret.append(line)
        return ret

    # layout

    def escape(self, line):
        return line.replace(';', '\\;')

    def layout(self, lines, level=1.0, crlf=None):
        """
        Turn logical lines into bytes; level says how untidy it becomes.
        """
        r = self.r
        if level == 0:
            return ''.join(i + '\n' for i in lines).encode('utf-8')
        out = []
        crlf = self.p(0.15) if crlf is None else crlf

        def noise(k):
            return self.p(k * level)

        for line in lines:
            while noise(0.12):
                out.append(self.one(['', '', '', '', '; comment', ';', ' ; x',
                                     '   ', '\t', ' ;;']))
            if noise(0.05) and '=>' in line:
                line = line.replace(' => ', self.one(
                    ['=>', '  => ', ' =>', '\t=>\t', ' =>  ', ' = ', '=']), 1)
            if noise(0.03):
                line = self.one([' ', '\t', '  ']) + line
            if noise(0.06):
                line += self.one(['; c', ' ; comment', '\t;c', ' ;', ';'])
            if noise(0.04):
                line += self.one([' ', '\t', '  '])
            out.append(line)
        while noise(0.2):
            out.append(self.one(['', '', '; end']))
        data = []
        for line in out:
            eol = b'\r\n' if crlf else b'\n'
            if noise(0.02):
                eol = self.one([b'\n', b'\r\n', b'\r\r\n', b' \r\n'])
            line = line.encode('utf-8')
            if noise(0.015):
                pos = r.choice([0, 0, len(line), r.randint(0, len(line)),
                                r.randint(0, len(line))])
                line = line[0:pos] + self.one([
                    b'\xff', b'\xe9', b'\x01', b'\x0b', b'\x0c', b'\x1f',
                    b'\xc3', b'\x80', b'\x00', b'\r', b'\x7f', b'\xc2\x85',
                    b'\xe2\x80\xa8', b'\x1c', b'\xc2\xa0', b'\xef\xbb\xbf',
                    b'\xe2\x80\x8b', b'\xed\xa0\x80', b'\xc0\xaf',
                    b'\xf4\x90\x80\x80', b'\x1b[0m', b'\x1a']) + line[pos:]
            data.append(line + eol)
        data = b''.join(data)
        if noise(0.1):
            data = data.rstrip(b'\r\n')
        elif crlf and self.p(0.5):
            data = data[0:-2] if data.endswith(b'\r\n') else data
        return data

    def spread(self, lines, level=1.0, name='extensions.conf', files=None,
               depth=0, missing=0.1):
        """
        Spread lines over included files. Returns {name: bytes}.
        """
        files = files if files is not None else {}
        files[name] = None
        out = list(lines)
        directory = name.rpartition('/')[0]
        for _ in range(self.r.choice([0, 0, 1, 1, 2]) if depth < 3 else 0):
            if not out:
                break
            start = self.r.randint(0, len(out))
            end = self.r.randint(start, min(len(out), start + 8))
            sub = self.one(['a.conf', 'b.conf', 'sub/c.conf', 'd/e/f.conf',
                            'x y.conf', 'n{}.conf'.format(len(files))])
            path = (directory + '/' if directory else '') + sub
            if path in files or any(
                    i.startswith('#') for i in out[start:end]):
                continue
            self.spread(out[start:end], level, path, files, depth + 1,
                        missing)
            directive = self.one(['#include', '#include', '#tryinclude'])
            arg = self.one(['{}', '"{}"', '<{}>', './{}']).format(sub)
            if level and self.p(0.06):
                arg = self.one(['"{}', '{}"', '<{}"', '{}>']).format(sub)
            out[start:end] = ['{} {}'.format(directive, arg)]
            while self.p(self.again):
                # The same file, once more.
                out.insert(self.r.randint(0, len(out)), out[start])
                start = out.index('{} {}'.format(directive, arg))
        if self.p(missing):
            out.insert(self.r.randint(0, len(out)), self.one([
                '#include nosuch.conf', '#tryinclude nosuch.conf',
                '#include "no/such.conf"', '#exec /bin/true',
                '#tryinclude <x>', '#include', '#include ', '#includefoo',
                '#exec', '#tryinclude "', '#include \t nosuch', '#bogus x',
                '#include \x01nosuch']))
        files[name] = self.layout(out, level)
        return files


CATALOGUE = CATALOGUE
