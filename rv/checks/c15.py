"""C15: variable, function and assignment mistakes: all and only those."""
from .. import lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: a separate recogniser for references, slices, '
             'function calls and assignments predicts the messages of every '
             'line; all short token strings are fed through it too')
RULE = ('Random dialplans and texts with correct and incorrect references, '
        'nested in applications, functions and conditional execution; every '
        'string of up to 3 (thorough: 4) tokens inside ${...}, Set(...) and '
        'ExecIf(); non-trivial is a case with at least one such message.')
ASSUMPTIONS = [
    'The functions of Asterisk 11 and 13 together, from a catalogue that was '
    'frozen beforehand; the name UNKNOWN counts as known.',
    'Nesting of variables at most 40 deep.',
]
CODES = ('E_VAR_SUBSTR', 'E_FUNC_', 'W_FUNC_', 'E_ASSIGN_', 'W_ASSIGN_',
         'E_APP_PARSE_ERROR')
TOKENS = ['${', '$[', '}', ']', 'x', 'LEN', '(', ')', ':', '1', '-', '=',
          ' ', ',', '"', '0', '${y}', 'cut', '\u00e9', '${LEN(z)}', 'SET(']
WRAPS = [('NoOp(${', '})'), ('Set(', ')'), ('Set(a=${', '})'),
         ('ExecIf(${c}?Set(', '))'), ('ExecIf(${c}?NoOp(${', '}))'),
         ('Goto(a,${', '},1)'), ('NoOp($[${CUT(', ')}])'),
         ('NoOp(${SET(', ')})'), ('NoOp(${a:', '})'),
         ('NoOp(${LEN(a)', '})'), ('NoOp(${SET(a=b)}${', ')})'),
         ('While(', ')'), ('NoSuchApp(${', '})'), ('${', '}'),
         ('ExecIf(${c}?NoOp():Set(', '))'), ('GotoIf(${', '}?1)'),
         ('NoOp(${INC(', ')})'), ('NoOp(${AUDIOHOOK_INHERIT(', ')})'),
         ('Gosub(a,s,1(${', '}))'), ('Verbose(', '')]
CHUNK = 400


def total(length):
    return len(TOKENS) ** length


def plan(tier):
    enumerated = -(-sum(total(n) for n in (
        (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))) // CHUNK)
    return {'cases': (14000 if tier == 'quick' else 120000) + 2 * enumerated,
            'min_events': {'messages': 20000, 'enumerated': 8000,
                           'lines': 60000},
            'kinds': ('E_VAR_SUBSTR_ARGS', 'E_VAR_SUBSTR_START',
                      'E_VAR_SUBSTR_LENGTH', 'E_FUNC_PARENS', 'E_FUNC_TAIL',
                      'E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'E_FUNC_BAD_ARGS',
                      'W_FUNC_DYNAMIC', 'W_FUNC_BALANCE', 'E_ASSIGN_EMPTY',
                      'E_ASSIGN_NO_EQUALS', 'W_ASSIGN_SPACES',
                      'E_APP_PARSE_ERROR', 'correct')}


def nth(number):
    "The nth token string."
    length = 1
    while number >= total(length):
        number -= total(length)
        length += 1
    ret = []
    for _ in range(length):
        number, digit = divmod(number, len(TOKENS))
        ret.append(TOKENS[digit])
    return ''.join(ret)


class Workload(DialplanCheck):
    codes = CODES
    structure = False
    bads = (0, .05, .15, .4, .8)

    def __init__(self, tier, worker):
        super().__init__(tier, worker)
        self.enumerated = (plan(tier)['cases'] - (
            14000 if tier == 'quick' else 120000)) // 2
        self.most = sum(total(n) for n in (
            (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)))

    def generate(self, rng, index):
        if index < 2 * self.enumerated:
            start = (index // 2) * CHUNK
            texts = []
            for number in range(start, min(self.most, start + CHUNK)):
                # One wrap is tried always; the seed decides on the other.
                head, tail = WRAPS[0 if index % 2 else rng.randint(
                    1, len(WRAPS) - 1)]
                texts.append(head + nth(number) + tail)
            return {'enumerated': len(texts), 'files': self.wrapped(texts)}
        kind = rng.random()
        g = self.gen(rng, depth=rng.choice([1, 2, 3, 4]))
        if kind < .4:
            return {'files': g.spread(
                g.dialplan_lines(), level=rng.choice([0, .5]))}
        if kind < .7:
            return {'files': self.wrapped([
                self.soup(rng) for _ in range(15)])}
        return {'files': self.wrapped([
            rng.choice(['NoOp({})', 'ExecIf(${{x}}?NoOp({}))', 'Dial({})',
                        'Set(x={})', 'Goto({},1)', 'Wait({}'
                        ]).format(g.text()) if rng.random() < .5 else
            rng.choice(['Set({})', 'NoOp(${{SET({})}})', 'set({})',
                        'ExecIf(${{x}}?Set({}):Set({}))'
                        ]).format(g.assignment(), g.assignment())
            for _ in range(15)])}

    @staticmethod
    def wrapped(texts):
        lines = ['[general]', '[globals]', '[a]']
        lines.extend('exten => s,{},{}'.format(n, i.replace(';', '\\;'))
                     for n, i in enumerate(texts, 1))
        return {'extensions.conf': '\n'.join(lines + ['']).encode('utf-8')}

    def soup(self, rng):
        head, tail = rng.choice(WRAPS)
        depth = 0
        ret = []
        for _ in range(rng.randint(1, 12)):
            token = rng.choice(TOKENS + ['${', '}', '}'])
            depth += (token == '${') - (token == '}')
            ret.append(token)
        if rng.random() < .8:
            ret.append('}' * max(0, depth))
        return head + ''.join(ret) + tail

    def judge(self, case, data, observed, expected):
        super().judge(case, data, observed, expected)
        case.stats['enumerated'] += data.get('enumerated', 0)
        if not any(i.code.startswith(CODES) for i in observed.msgs):
            case.see('correct')
        if case.failures:
            # Say which text it was.
            lines = data['files']['extensions.conf'].split(b'\n')
            wrong = model.DialplanModel(data['files'])
            diff = set(wrong.msgs) ^ set(observed.msgs)
            for msg in sorted(diff)[0:3]:
                if msg.file == 'extensions.conf':
                    case.fail(case.failures[0][0], '{}: {!r}'.format(
                        msg, lines[msg.line - 1]))


__all__ = ['lint']
