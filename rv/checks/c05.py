"""C05: file-level diagnostics are exact."""
import itertools

from .. import gen, lint, model

PROPERTY = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: reference model of the file-level rules judges '
             'the messages of the real parser, on random and enumerated files')
RULE = ('Files are random sequences of lines (with random byte faults, line '
        'ends, comments and tails, spread over included files) plus every '
        'sequence of line tails and line ends up to a length; non-trivial is '
        'a case with at least one file-level message.')
ASSUMPTIONS = [
    'Bytes that are not UTF-8 are reported once per line.',
    'A file with a first line that lacks a line feed is taken as DOS style.',
]
CODES = ('E_FILE_', 'W_FILE_', 'W_WSH_EOL', 'W_WSH_COMMENT')
ALL = ('E_FILE_UTF8_BAD', 'W_FILE_CTRL_CHAR', 'W_WSH_EOL', 'W_WSH_COMMENT',
       'W_FILE_UNIX_CRLF', 'W_FILE_DOS_BARELF', 'W_FILE_UNIX_NOLF',
       'W_FILE_DOS_EOFCRLF')

EOLS = [b'\n', b'\r\n', b'\r\r\n', b'\n\r\n', b'\r', b' \n', b'\t\r\n']
BODIES = [b'', b'', b'[a]', b'k=v', b'a => b', b';', b'; c', b' ; c', b'k=v;c',
          b'k=v ;c', b'k=v\t; c', b'k=\\;v', b'k=v\\\\;c', b'k=v\\;;c',
          b'k=v ; c ', b'x', b'\t', b'  ', b'k=v \t', b'k=v;', b'k=v ; x;y',
          b'k=\xc3\xa9', b'k=v ; \xe2\x82\xac', b'k=\xf0\x9f\x98\x80',
          b'\\', b'k=v\\ ', b'k=v\xc2\xa0', b'k=v\xe3\x80\x80', b'k=v\x0b',
          b'[general]', b'exten => 1,1,NoOp()', b'k=v ;\\;c', b'k=\\', b'\\;']
FAULTS = ([bytes([i]) for i in range(32)] + [b'\x7f'] + [
    b'\x80', b'\xff', b'\xfe', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98',
    b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\x80', b'\xed\xa0\x80',
    b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xc2\x85', b'\xc2\x80',
    b'\xc2\x9f', b'\xe2\x80\xa8', b'\xe2\x80\xa9', b'\xef\xbb\xbf',
    b'\x81', b'\x8d', b'\xe9', b'\xc3\x28', b'\xef\xbf\xbf'])
TAILS = [b'', b'k=v', b'k=v ', b';', b'k=v;', b'k=v ;c', b'\\;', b'\xff',
         b'\x01', b'\t']


def plan(tier):
    return {'cases': 40000 if tier == 'quick' else 500000,
            'min_events': {'messages': 2000, 'lines': 10000},
            'kinds': ALL}


def enumerated(tier):
    "All files of a few lines, as (tails, eols)."
    n = 2 if tier == 'quick' else 3
    for length in range(1, n + 1):
        for tails in itertools.product(TAILS, repeat=length):
            for eols in itertools.product(
                    (b'\n', b'\r\n'), repeat=length - 1):
                for last in (b'\n', b'\r\n', b'', b'\r'):
                    yield b''.join(
                        t + e for t, e in zip(tails, eols + (last,)))


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier
        self.chunks = None

    def generate(self, rng, index):
        if index % 40 == 0:
            # A slice of the enumeration.
            if self.chunks is None:
                every = list(enumerated(self.tier))
                self.chunks = [
                    every[i:i + 200] for i in range(0, len(every), 200)]
            if index // 40 < len(self.chunks):
                return {'many': self.chunks[index // 40]}
        files = {}
        names = ['extensions.conf', 'a.conf', 'sub/b.conf', 'sub/c.conf']
        count = rng.choice([1, 1, 1, 2, 3, 4])
        g = gen.Gen(rng, bad=.05)
        g.again = rng.choice([0, 0, 0, .3])
        for n, name in enumerate(names[0:count]):
            style = rng.choice(EOLS[0:2])
            lines = []
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 40])):
                body = rng.choice(BODIES)
                if rng.random() < .2:
                    body = rng.choice(g.dialplan_lines(1, 1)).encode()
                if rng.random() < .12:
                    pos = rng.choice([0, len(body), rng.randint(0, len(body))])
                    body = body[0:pos] + rng.choice(FAULTS) + body[pos:]
                if rng.random() < .1:
                    body += rng.choice([b' ', b'\t', b' ;', b';', b'\r'])
                eol = style if rng.random() < .85 else rng.choice(EOLS)
                lines.append(body + eol)
            for sub in names[n + 1:count]:
                # Siblings and nested ones.
                if n == 0 or rng.random() < .4:
                    path = sub
                    if '/' in name and '/' in sub:
                        path = sub.split('/')[1]
                    elif '/' in name:
                        path = '../' + sub
                    lines.insert(
                        rng.randint(0, len(lines)),
                        b'#include ' + path.encode() + style)
            data = b''.join(lines)
            if rng.random() < .4:
                data = data.rstrip(b'\n' if rng.random() < .5 else b'\r\n')
            files[name] = data
        return {'files': files}

    def observe(self, case, data):
        if 'many' in data:
            for content in data['many']:
                self.one(case, {'extensions.conf': content})
                case.stats['enumerated'] += 1
        else:
            self.one(case, data['files'])

    def one(self, case, files):
        observed = lint.config(files)
        expected, _ = model.read_config(files, 'extensions.conf')
        lint.compare(case, repr(files)[0:300], expected.msgs, observed.msgs,
                     CODES)
        case.stats['lines'] += sum(i.count(b'\n') for i in files.values())
        for name in observed.opener.opened:
            case.see('style:' + (
                'dos' if b'\r\n' in files[name.replace('sub/../', '')][0:80]
                else 'unix'))
        if any(m.code.startswith(CODES) for m in observed.msgs):
            case.nontrivial = True
        if observed.noise:
            case.fail('noise', repr(observed.noise))
