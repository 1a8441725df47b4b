"""C13: variable expressions survive parsing; substitution as Asterisk's."""
import itertools
import re

from asterisklint.varfun import VarLoader
from asterisklint.variable import Var
from asterisklint.where import DUMMY_WHERE

from .. import core, dictionary, lint, magnify, model

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the parsed tree is printed, iterated, sliced, '
             'split, joined and filled in, and compared with a token list '
             'and an evaluator that were written from the Asterisk sources')
RULE = ('Random texts over nested variables, functions, expressions and '
        'slices with random values; all slices of short values; non-trivial '
        'is a text with a nested reference.')
ASSUMPTIONS = [
    'Texts without lossy mistakes (bad slices, function calls without ")" or '
    'with a tail); slice numbers in their normal form.',
]
LITERALS = ['a', 'b', ' ', '1', 'foo', ',', ':', '=', '(', ')', '"', "'",
            '\\', '&', '|', '?', '$', '$$', '$x', '$ {', '\u00e9',
            '\U0001f600', 'x=y', '(a)', '-1', ';', '{}', '[]', '{a}', '[b:c]',
            '#', '}', ']', '{', '[', 'abc', '\t', '%s', '{0}', '.', '/']
# Within a reference the brackets have to match.
INNER = [i for i in LITERALS if i not in ('}', ']', '{', '[')]
NAMES = ['x', 'foo', 'EXTEN', 'ARG1', 'a_b', '', 'a b', 'n\u00e9', 'X', 'y']
FUNCS = ['LEN', 'CUT', 'IF', 'DB', 'NOSUCH', 'len', 'CALLERID', 'FILTER']
VALUES = ['', '0', '1', '-1', 'abc', 'x', 'foo', '12', '-3', ' 2', 'hello',
          '0123456789', 'a', '+1', '1x', '--1', '\u00e9\u20acx', '99', '-99',
          'EXTEN', '0x1', '00', ',', '10']


def plan(tier):
    return {'cases': 24000 if tier == 'quick' else 400000,
            'min_events': {'texts': 12000, 'filled': 6000, 'splits': 10000,
                           'sliced-values': 3000},
            'kinds': ('var', 'func', 'expr', 'var-slice', 'func-slice',
                      'nested', 'dynamic-name', 'dynamic-slice', 'substring',
                      'long-value', 'whole', 'plain')}


class Workload(object):
    def __init__(self, tier, worker):
        pass

    def generate(self, rng, index):
        if index % 101 == 0:
            value = rng.choice(VALUES + ['abcdefgh', 'ab', 'abc'])
            if rng.random() < .3:
                value = ''.join(rng.choice('abcdef0') for _ in range(
                    magnify.size(rng, most=3000) + rng.randint(-1, 1)))
                return {'text': None, 'value': value, 'span': None}
            return {'text': None, 'value': value, 'span': rng.choice(
                [3, 6, 6, 12])}
        pieces = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if rng.random() < .6:
                pieces.append(self.ref(rng, rng.choice([0, 1, 2, 4])))
            else:
                pieces.append(rng.choice(LITERALS))
        text = ''.join(pieces)
        if rng.random() < magnify.share(.05):
            text = self.enlarge(rng, text)
        return {'text': text, 'env': rng.randint(0, 10 ** 9)}

    def enlarge(self, rng, text):
        "Long, many or deep. Or with what the code knows."
        kind = rng.random()
        if dictionary.get().words and rng.random() < .6:
            new = magnify.word(rng, '')
            for old in rng.sample(NAMES[0:5] + FUNCS + LITERALS, 5):
                if old and old in text and rng.random() < .7:
                    text = text.replace(old, new)
            pos = rng.randint(0, len(text))
            return text[0:pos] + new + text[pos:]
        size = magnify.size(rng, most=3000)
        if kind < .25:
            for _ in range(min(size, 200)):
                text += self.ref(rng, 0)
                text += rng.choice(['', '', 'a', ',', ':', '='])
            return text
        if kind < .5:
            head, tail = rng.choice([
                ('${', '}'), ('${LEN(', ')}'), ('$[', ']'), ('${x', '}'),
                ('${x:1:', '}'), ('${LEN(x', '):1}'), ('${CUT(a,', ')}'),
                ('${IF(${x},', ',b)}'), ('a${', '}:b')])
            depth = magnify.size(rng, magnify.DEPTHS, 20)
            return head * depth + (text or 'x') + tail * depth
        if kind < .75:
            name = rng.choice(NAMES[0:4])
            return text.replace(name, rng.choice('qW_1') * size + name)
        return text + rng.choice(['a', 'a:', ',', 'a=b', '\u00e9']) * size + (
            self.ref(rng, 1))

    def inner(self, rng, depth, most=3, also=()):
        ret = []
        for _ in range(rng.randint(0, most)):
            if depth > 0 and rng.random() < .45:
                ret.append(self.ref(rng, depth - 1))
            else:
                ret.append(rng.choice([
                    i for i in INNER if not any(j in i for j in also)]))
        return ''.join(ret)

    def name(self, rng, depth):
        if depth > 0 and rng.random() < .35:
            ret = [rng.choice(NAMES[0:5]), self.ref(rng, depth - 1)]
            if rng.random() < .3:
                ret.append(rng.choice(NAMES[0:5]))
            if rng.random() < .4:
                ret.pop(0)
            return ''.join(ret)
        return rng.choice(NAMES)

    def slice(self, rng, depth):
        def number(nonzero=False):
            if depth > 0 and rng.random() < .25:
                return self.ref(rng, depth - 1) + rng.choice(
                    ['', '', '', '1'])
            while True:
                ret = rng.choice([0, 1, 2, 3, 5, 10, -1, -2, -5, 40])
                if ret or not nonzero:
                    return str(ret)
        start = number()
        if rng.random() < .5:
            return ':{}:{}'.format(start, number(True))
        return ':' + (start if start != '0' else '1')

    def ref(self, rng, depth):
        kind = rng.random()
        if kind < .3:
            return '${%s}' % (self.name(rng, depth),)
        if kind < .5:
            return '${%s%s}' % (self.name(rng, depth),
                                self.slice(rng, depth))
        if kind < .65:
            return '$[%s]' % (self.inner(rng, depth),)
        func = '%s(%s)' % (
            self.name(rng, depth) if rng.random() < .1 else
            rng.choice(FUNCS), self.inner(rng, depth))
        if rng.random() < .3:
            func += self.slice(rng, depth)
        return '${%s}' % (func,)

    # observing

    def observe(self, case, data):
        if data['text'] is None:
            return self.slices(case, data['value'], data['span'])
        text = data['text']
        problems = []
        expander = model.Expander(
            lambda code, *items: problems.append(code), lambda name: None)
        tokens = expander.parse(text) if self.terminated(text) else None
        if tokens is None or re.search(r':(-?0[0-9]|-0|\+)', text) or any(
                i.startswith('E_VAR_SUBSTR') or
                i in ('E_FUNC_PARENS', 'E_FUNC_TAIL') for i in problems):
            case.stats['skipped'] += 1
            return
        lint.fresh()
        with lint.captured():
            var = VarLoader().parse_variables(text, where=DUMMY_WHERE)
        case.stats['texts'] += 1
        self.describe(case, tokens)

        if str(var) != text:
            case.fail('print', '{!r} prints as {!r}'.format(text, str(var)))
            return
        want = [i if isinstance(i, str) else i.text for i in tokens]
        got = [str(i) for i in var]
        if got != want:
            case.fail('iterate', '{!r} iterates as {!r} instead of {!r}'
                      .format(text, got, want))
            return
        if len(var) != len(want):
            case.fail('length', '{!r} has length {} instead of {}'.format(
                text, len(var), len(want)))
        for i, w in enumerate(want):
            if str(var[i]) != w:
                case.fail('index', '{!r}[{}] is {!r}'.format(text, i, var[i]))
        self.slicing(case, text, var, want)
        self.splitting(case, text, var, tokens)
        self.joining(case, text, var)
        self.filling(case, data, text, var, tokens)

    @staticmethod
    def terminated(text):
        try:
            model.Expander(lambda c, *items: None, lambda n: None).parse(text)
        except model.Unterminated:
            return False
        return True

    def describe(self, case, tokens, depth=0):
        for t in tokens:
            if isinstance(t, str):
                continue
            case.see(t.kind + ('-slice' if t.start is not None else ''))
            if depth:
                case.nontrivial = True
                case.see('nested')
            if t.kind == 'var' and not model.all_text(t.name):
                case.see('dynamic-name')
            for n in (t.start, t.length):
                if isinstance(n, list):
                    case.see('dynamic-slice')
            self.describe(case, t.name, depth + 1)
        if not depth:
            if model.all_text(tokens):
                case.see('plain')
            elif len(tokens) == 1:
                case.see('whole')

    @staticmethod
    def glue(items):
        if isinstance(items, (str, Var)):
            return str(items)
        return ''.join(str(i) for i in items)

    def slicing(self, case, text, var, want):
        size = len(want)
        for a, b in ((0, 1), (1, size), (0, size), (size // 2, size),
                     (1, max(1, size - 1)), (0, 0)):
            got = self.glue(var[a:b])
            if got != ''.join(want[a:b]):
                case.fail('slice', '{!r}[{}:{}] is {!r}'.format(
                    text, a, b, got))

    def splitting(self, case, text, var, tokens):
        for sep, most in ((':', -1), ('=', 1), ('(', 1)):
            parts = [str(i) for i in var.split(sep, most)]
            want = [model.text_of(i) for i in model.split_tokens(
                tokens, sep, most)]
            case.stats['splits'] += 1
            if parts != want:
                case.fail('split', '{!r} split by {!r} is {!r} instead of '
                          '{!r}'.format(text, sep, parts, want))
            for part, item in zip(var.split(sep, most), want):
                if len(item) and len(part) != len(model.Expander(
                        lambda c, *items: None, lambda n: None).parse(item)):
                    case.fail('split', '{!r} split by {!r}: {!r} has length '
                              '{}'.format(text, sep, part, len(part)))

    def joining(self, case, text, var):
        items = list(var)
        whole = Var.join(items)
        if str(whole) != text or list(map(str, whole)) != list(
                map(str, items)):
            case.fail('join', '{!r} joined again is {!r}'.format(
                text, str(whole)))
        if isinstance(whole, Var) and isinstance(var, Var) and whole != var:
            case.fail('join', '{!r} joined again is not equal'.format(text))
        half = len(items) // 2
        nested = Var.join([Var.join(items[0:half]), Var.join(items[half:])])
        if str(nested) != text or len(nested) != len(items):
            case.fail('join', '{!r} joined in two halves is {!r}'.format(
                text, str(nested)))

    def filling(self, case, data, text, var, tokens):
        if not isinstance(var, Var):
            return
        env = Env(data['env'])
        try:
            want = model.format_tokens(tokens, env)
        except model.NoValue:
            # Expressions are not evaluated.
            case.stats['unfilled'] += 1
            try:
                got = var.format(**env)
            except KeyError:
                return
            case.fail('fill-expr', '{!r} gives {!r}'.format(text, got))
            return
        case.stats['filled'] += 1
        got = var.format(**env)
        if got != want:
            case.fail('fill', '{!r} with {!r} gives {!r} instead of {!r}'
                      .format(text, dict(env), got, want))
        # Without one of them there is no answer.
        for name in list(env):
            less = dict(env)
            del less[name]
            try:
                got = var.format(**less)
            except KeyError:
                continue
            case.fail('fill-unknown', '{!r} without {!r} gives {!r}'.format(
                text, name, got))

    def slices(self, case, value, span):
        "All offsets and lengths; the value is all there is."
        case.see('substring')
        if span is None:
            numbers = sorted(set(
                i * sign for sign in (1, -1) for i in (
                    0, 1, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 512,
                    1000, 1024, len(value) - 1, len(value), len(value) + 1,
                    65536, 2 ** 31, 10 ** 17)))
            case.see('long-value')
        else:
            numbers = list(range(-span, span + 1))
        for start, length in itertools.product(
                numbers, [None] + numbers):
            tail = ':{}'.format(start) if length is None else (
                ':{}:{}'.format(start, length))
            for head in ('x', 'LEN(x)'):
                text = '${{{}{}}}'.format(head, tail)
                problems = []
                tokens = model.Expander(
                    lambda c, *items: problems.append(c), lambda n: None).parse(text)
                if problems:
                    continue
                lint.fresh()
                with lint.captured():
                    var = VarLoader().parse_variables(
                        text, where=DUMMY_WHERE)
                got = var.format(**{head: value})
                want = model.format_tokens(tokens, {head: value})
                case.stats['sliced-values'] += 1
                if got != want:
                    case.fail('substring', '{} with {!r} is {!r} instead of '
                              '{!r}'.format(text, value, got, want))


class Env(dict):
    "Makes up values for names that are looked up."
    def __init__(self, seed):
        super().__init__()
        self.seed = seed

    def __contains__(self, name):
        return True

    def __missing__(self, name):
        import random
        rng = random.Random('{}/{}'.format(self.seed, name))
        ret = self[name] = rng.choice(VALUES)
        return ret


__all__ = ['core']
