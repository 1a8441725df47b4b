"""C16: application calls are split as Asterisk does; argument mistakes."""
from asterisklint.app.base import AppBase
from asterisklint.varfun import VarLoader
from asterisklint.variable import Var
from asterisklint.where import DUMMY_WHERE

from .. import lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: a port of the argument splitting in the '
             'Asterisk sources and a separate table of argument rules '
             'predict the messages of every call; all short token strings '
             'are fed through each application with rules; the splitter is '
             'watched on its own for losing or inventing text')
RULE = ('Random calls of all applications, with correct and incorrect data, '
        'at top level and inside conditional execution; every string of up '
        'to 3 (thorough: 4) tokens in 37 calls of the applications that '
        'have rules; non-trivial is a case with at least one such message.')
ASSUMPTIONS = [
    'Balance is checked for the applications without rules of their own '
    '(and Set, and the priority of Gosub); UNKNOWN/Unknown count as known.',
    'ExecIf is nested at most 20 deep.',
]
CODES = ('E_APP_ARG', 'E_APP_MISSING', 'E_APP_WSH', 'W_APP_')
TOKENS = [',', '?', ':', '(', ')', '"', '\\', '[', ']', 'x', '${v}', ' ', '|',
          's', 'app', '$[1]', '{', '}', 'o', "'",
          '${CUT("a?b":c,|,1)}']
WRAPS = [
    ('Goto(', ')'), ('Gosub(', ')'), ('GotoIf(', ')'), ('GosubIf(', ')'),
    ('ExecIf(', ')'), ('VoiceMail(', ')'), ('Originate(', ')'),
    ('Milliwatt(', ')'), ('NoOp(', ')'), ('Set(', ')'), ('GotoIfTime(', ')'),
    ('ExecIfTime(', ')'), ('VoiceMail(x,', ')'), ('Originate(a,app,', ')'),
    ('GotoIf(${c}?', ')'), ('GotoIf(${c}?1:', ')'), ('GosubIf(${c}?', ')'),
    ('ExecIf(${c}?', ')'), ('ExecIf(${c}?Goto(', '))'),
    ('ExecIf(${c}?NoOp():Gosub(', '))'), ('ExecIf(${c}?VoiceMail(x,', '))'),
    ('ExecIf(${c}?ExecIf(${d}?Milliwatt(', ')))'), ('Gosub(a,b,1(', ')'),
    ('ExecIf(${c},NoOp,', ')'), ('ExecIf(', '?NoOp():Hangup())'),
    ('GotoIf(', '?1)'), ('Dial', ''), ('', '(x)'), ('voicemail(', ')'),
    ('NoSuch(', ')'), ('Verbose(', ''), (' Goto(', ')'), ('Goto (', ')'),
    ('ExecIf(${c}?', '(x))'), ('ExecIf(${c}?Set(a=1):', ')'),
    ('Background(', ')'), ('System(', ')')]
SPACES = [' ', '\t', '  ', '\xa0', ' \t', '\u2003', '\x0b', '\x1f', '\ufeff']
CHUNK = 400


def strings(tier):
    return sum(len(TOKENS) ** n for n in (
        (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4)))


def nth(number):
    length = 0
    while number >= len(TOKENS) ** length:
        number -= len(TOKENS) ** length
        length += 1
    ret = []
    for _ in range(length):
        number, digit = divmod(number, len(TOKENS))
        ret.append(TOKENS[digit])
    return ret


def random_cases(tier):
    return 12000 if tier == 'quick' else 100000


def enumerated_cases(tier):
    return -(-strings(tier) // CHUNK) * len(WRAPS)


def plan(tier):
    return {'cases': random_cases(tier) + enumerated_cases(tier),
            'min_events': {'messages': 50000, 'enumerated': 50000,
                           'lines': 100000, 'calls': 100000, 'split': 0},
            'kinds': ('E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_BADOPT',
                      'E_APP_ARG_DUPEOPT', 'E_APP_ARG_PIPEDELIM',
                      'E_APP_ARG_IFCONST', 'E_APP_ARG_IFEMPTY',
                      'E_APP_ARG_IFSTYLE', 'E_APP_MISSING', 'E_APP_WSH',
                      'W_APP_WSH', 'W_APP_BALANCE', 'W_APP_BAD_CASE',
                      'W_APP_NEED_PARENS', 'correct')}


class Workload(DialplanCheck):
    codes = CODES
    structure = False
    bads = (0, .05, .15, .4, .8)

    def generate(self, rng, index):
        many = enumerated_cases(self.tier)
        if index < many:
            chunks = -(-strings(self.tier) // CHUNK)
            start = (index % chunks) * CHUNK
            which = WRAPS[index // chunks]
            texts = []
            for number in range(start, min(strings(self.tier),
                                           start + CHUNK)):
                texts.append(which[0] + ''.join(nth(number)) + which[1])
            return {'enumerated': len(texts), 'files': self.wrapped(texts)}
        if index % 3 == 0:
            g = self.gen(rng, depth=rng.choice([1, 2, 3]))
            return {'files': g.spread(
                g.dialplan_lines(), level=rng.choice([0, .5]))}
        g = self.gen(rng)
        return {'files': self.wrapped([
            g.app(nest=rng.choice([1, 1, 2, 4])) if rng.random() < .6 else
            self.soup(rng) for _ in range(15)])}

    @staticmethod
    def wrapped(texts):
        lines = ['[general]', '[globals]', '[a]']
        lines.extend('exten => s,{},{}'.format(n, i.replace(';', '\\;'))
                     for n, i in enumerate(texts, 1))
        return {'extensions.conf': '\n'.join(lines + ['']).encode('utf-8')}

    def soup(self, rng):
        head, tail = rng.choice(WRAPS)
        if rng.random() < .3:
            head, tail = rng.choice(WRAPS)[0] + head, tail + rng.choice(
                [')', '))', ''])
        if rng.random() < .1:
            # White space in front of and after a name.
            head = rng.choice(['{0}{1}', '{1}{0}', '{0}{1}{0}']).format(
                rng.choice(SPACES), head)
        if '(' in head and rng.random() < .1:
            at = rng.choice([i for i, c in enumerate(head) if c == '('])
            head = head[0:at] + rng.choice(SPACES) + head[at:]
        return head + ''.join(
            rng.choice(TOKENS) for _ in range(rng.randint(0, 10))) + tail

    def judge(self, case, data, observed, expected):
        self.compare(case, observed, expected)
        text = data['files']['extensions.conf']
        case.stats['lines'] += text.count(b'\n')
        case.stats['enumerated'] += data.get('enumerated', 0)
        if not any(i.code.startswith(CODES) for i in observed.msgs):
            case.see('correct')
        lines = text.split(b'\n')
        if case.failures:
            for msg in sorted(set(expected.msgs) ^ set(observed.msgs))[0:3]:
                if msg.file == 'extensions.conf':
                    case.fail(case.failures[0][0], '{}: {!r}'.format(
                        msg, lines[msg.line - 1]))
        for line in lines:
            if b'(' in line:
                case.stats['calls'] += 1
        for line in lines[3::7]:
            call = line.decode('utf-8', 'replace')[-600:]
            self.split(case, call.partition('(')[2])

    # the splitter

    def split(self, case, text):
        split = getattr(AppBase, 'separate_args', None)
        if not split:
            return
        try:
            expander = model.Expander(
                lambda code, *items: None, lambda name: None)
            tokens = expander.parse(text)
        except model.Unterminated:
            tokens, var = list(text), text
        else:
            lint.fresh()
            with lint.captured():
                var = VarLoader().parse_variables(text, DUMMY_WHERE)
        # Lossy mistakes are left out.
        if str(var) != text or model.text_of(tokens) != text:
            return
        case.stats['split'] += 1
        for delimiter in ',?:':
            for remove in (False, True):
                want = [model.text_of(i) for i in model.separate(
                    tokens, delimiter, remove)]
                got = split(var, delimiter, remove)
                if [str(i) for i in got] != want:
                    case.fail('split', '{!r} by {!r} ({}) gives {!r} instead '
                              'of {!r}'.format(
                                  text, delimiter, remove, got, want))
                elif not remove and delimiter.join(map(str, got)) != text:
                    case.fail('split-loss', '{!r} by {!r} gives {!r}'.format(
                        text, delimiter, got))
                for g, w in zip(got, model.separate(
                        tokens, delimiter, remove)):
                    if len(list(g)) != len(w) if isinstance(
                            g, Var) else not model.all_text(w):
                        case.fail('split-tokens', '{!r} by {!r} gives {!r}'
                                  .format(text, delimiter, got))


__all__ = ['lint']
