"""C07: vertical white space hints are exact, per file."""
import itertools

from .. import lint, model

PROPERTY = 'C07'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: reference model of the blank-line rules judges '
             'the messages, on all short line sequences and random trees')
RULE = ('Every sequence of line kinds (blank, comment, header, setting, bad '
        'line, directive) up to a length, and random longer ones spread over '
        'included files; non-trivial is a case with a blank-line message.')
ASSUMPTIONS = [
    'Directives and malformed lines are looked through; blank lines at the '
    'end of a file are only reported if nothing of an included file follows.',
]
CODES = ('W_WSV_', 'H_WSV_')
ALL = ('W_WSV_BOF', 'W_WSV_EOF', 'H_WSV_CTX_BETWEEN', 'H_WSV_VARSET_BETWEEN')
KINDS = ['', '; c', '[s]', 'k=v', 'bad']
MORE = KINDS + ['#include a.conf', '#tryinclude none', '#include d/b.conf',
                '#bogus', '  ', '\t', ' ; c', '', '', '', '[t]', 'k=v', 'k=v',
                '#exec x', 'exten => 1,1,NoOp()', ';']


def plan(tier):
    return {'cases': 30000 if tier == 'quick' else 400000,
            'min_events': {'messages': 5000, 'enumerated': 3000},
            'kinds': ALL}


def enumerated(tier):
    for length in range(1, 7 if tier == 'quick' else 9):
        for lines in itertools.product(range(len(KINDS)), repeat=length):
            yield lines


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier

    def chunk(self, number, size=1000):
        return list(itertools.islice(
            enumerated(self.tier), number * size, (number + 1) * size))

    def generate(self, rng, index):
        if index % 50 == 0:
            chunk = self.chunk(index // 50)
            if chunk:
                return {'many': [''.join(map(str, i)) for i in chunk]}
        files = {}
        for name in ('extensions.conf', 'a.conf', 'd/b.conf', 'd/c.conf'):
            kinds = [i for i in MORE if name == 'extensions.conf' or
                     not i.startswith('#include')]
            if name == 'd/b.conf':
                kinds = kinds + ['#include c.conf'] * 2
            lines = [rng.choice(kinds) for _ in range(
                rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 20]))]
            # Runs of blank lines and of settings.
            for _ in range(rng.randint(0, 3)):
                pos = rng.randint(0, len(lines))
                lines[pos:pos] = [rng.choice(['', '', 'k=v', ';'])] * (
                    rng.randint(1, 4))
            eol = rng.choice(['\n', '\n', '\r\n'])
            text = eol.join(lines + ['']) if rng.random() < .8 else (
                eol.join(lines))
            files[name] = text.encode()
        return {'files': files}

    def observe(self, case, data):
        if 'many' in data:
            for numbers in data['many']:
                self.one(case, {'extensions.conf': ''.join(
                    KINDS[int(i)] + '\n' for i in numbers).encode()})
                case.stats['enumerated'] += 1
        else:
            self.one(case, data['files'])

    def one(self, case, files):
        observed = lint.config(files)
        expected, _ = model.read_config(files, 'extensions.conf')
        lint.compare(case, repr(files)[0:400], expected.msgs, observed.msgs,
                     CODES)
        # The dialplan parser is stacked on the same parser.
        case.stats['files'] += len(observed.opener.opened)
        if any(m.code.startswith(CODES) for m in observed.msgs):
            case.nontrivial = True
