"""C10: a jump is reported exactly when its destination cannot exist."""
import re

from asterisklint.pattern import Pattern
from asterisklint.where import Where

from .. import gen, lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: an independent search over the parsed sections '
             '(includes, patterns, labels, i) judges every jump; metamorphic '
             'runs add the missing destination')
RULE = ('Random dialplans full of jumps with present, missing, constant, '
        'partly and fully variable parts, circular includes and several '
        'spellings of patterns; non-trivial is a case with a jump that is '
        'reported and one that is not.')
ASSUMPTIONS = [
    'Old comma-style If calls, jumps inside ExecIf and empty parts are not '
    'generated; the current extension of a pattern is its example.',
]
ALL = ('E_DP_GOTO_NOCONTEXT', 'E_DP_GOTO_CONTEXT_NOLABEL', 'E_DP_GOTO_NOLABEL',
       'W_DP_GOTO_CONTEXT_NOEXTEN', 'fine', 'via-include', 'circular',
       'variable-context', 'variable-exten', 'variable-prio', 'added')
CONTEXTS = ['a', 'b', 'c', 'd']
LABELS = ['l1', 'l2', 'start', 'x9', 'L1']
EXTENS = ['s', 'i', '100', '101', '1', '200', '9', 'h', '1-00', '12', '*1']
PATTERNS = ['_X.', '_1XX', '_1X', '_[1-3]', '_N!', '_2!', '_1[0-4]X', '_s',
            '_*X', '_!', '_.', '_1-XX', '_ZX', '_[15]', '_[2-9]', '_10[0-1]']
VARPARTS = ['${foo}', '${EXTEN}', '${EXTEN:1}', '1${x}', '${x}a', '${x:1}',
            '${EXTEN:0:1}', '${EXTEN}1', '${EXTEN:-1}', '${CUT(x,y,1)}',
            's${LEN(x)}t', '${EXTEN:1:1}', 'l${n}', '${x}1', '1${y}0',
            '${EXTEN:1:-1}', '${x}${y}', 'st${x}rt', '${EXTEN:0:2}', '$[1+1]',
            '1${x}1', '${EXTEN}${x}', '10${x}', '${EXTEN:2}', 'x${EXTEN}']


def plan(tier):
    return {'cases': 22000 if tier == 'quick' else 350000,
            'min_events': {'jumps': 20000, 'added': 300},
            'kinds': ALL}


def example(raw):
    try:
        where = Where('x', 1, '')
        ret = Pattern(raw, where).example
        return ret if isinstance(ret, str) else model.default_example(raw)
    except (AttributeError, TypeError):
        return model.default_example(raw)


class Workload(DialplanCheck):
    codes = ('E_DP_GOTO', 'W_DP_GOTO')
    structure = False
    bads = (0, 0, .05)

    def generate(self, rng, index):
        if rng.random() < .2:
            g = self.gen(rng)
            return {'files': g.spread(g.dialplan_lines(), level=.3)}
        names = CONTEXTS[0:rng.randint(1, 4)]
        lines = ['[general]', '[globals]']
        variable = rng.choice([0, .1, .3])
        order = list(names)
        rng.shuffle(order)
        if rng.random() < .3:
            order.append(rng.choice(order))     # reopened
        for name in order:
            lines.append('[{}]'.format(name))
            body = []
            for _ in range(rng.randint(0, 4)):
                pat = rng.choice(EXTENS if rng.random() < .5 else PATTERNS)
                group = []
                for n in range(rng.randint(1, 3)):
                    label = rng.choice(['', '', '({})'.format(
                        rng.choice(LABELS))])
                    start = 'exten => {},{}'.format(pat, 'n' if n else '1')
                    if n and rng.random() < .5:
                        start = ' same => n'
                    elif n and rng.random() < .1:
                        start = 'exten => {},{}'.format(pat, n + 5)
                    group.append('{}{},{}'.format(
                        start, label, self.jump(rng, variable)))
                body.append(group)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                body.append(['include => {}'.format(rng.choice(
                    names + ['nosuch']))])
            rng.shuffle(body)
            for group in body:
                lines.extend(group)
        return {'files': {
            'extensions.conf': '\n'.join(lines + ['']).encode('utf-8')}}

    def jump(self, rng, variable):
        kind = rng.random()
        if kind < .25:
            return 'NoOp()'
        if kind < .5:
            return 'Goto({})'.format(self.dest(rng, variable))
        if kind < .65:
            return 'Gosub({}{})'.format(self.dest(rng, variable), rng.choice(
                ['', '', '()', '(1)', '(a,b)', '(${x},1)']))
        cond = rng.choice(['${x}', '$[${x} = 1]', '$["${x}" = "a?b"]',
                           '${x}${y}', ' ${x} '])
        first = self.dest(rng, variable)
        second = self.dest(rng, variable)
        if kind < .85:
            name, args = 'GotoIf', ('', '')
        else:
            name = 'GosubIf'
            args = rng.choice([('', ''), ('(1)', ''), ('(a,b)', '(${c})'),
                               ('', '(x)')])
        return '{}({}?{})'.format(name, cond, rng.choice([
            '{}'.format(first + args[0]),
            '{}:{}'.format(first + args[0], second + args[1]),
            ':{}'.format(second + args[1])]))

    def dest(self, rng, variable):
        def part(choices):
            if rng.random() < variable:
                if rng.random() < .3:
                    # A part of something, and a variable for the rest.
                    word = rng.choice(choices + ['None', 'False', '12', '10'])
                    a, b = sorted(rng.randint(0, len(word)) for _ in 'ab')
                    return word[0:a] + '${x}' + word[b:]
                if rng.random() < .3:
                    # Several parts of something, that may overlap.
                    word = rng.choice(choices + ['None', '12', '10'])
                    pieces = []
                    for _ in range(rng.randint(2, 4)):
                        a, b = sorted(rng.randint(0, len(word)) for _ in 'ab')
                        pieces.append(word[a:b])
                    if rng.random() < .5:
                        pieces[0] = word[0:rng.randint(0, 2)]
                        pieces[-1] = word[len(word) - rng.randint(0, 2):]
                    return ''.join(
                        piece + rng.choice(['${x}', '${y}'])
                        for piece in pieces[0:-1]) + pieces[-1]
                return rng.choice(VARPARTS)
            return rng.choice(choices)
        prio = part(['1', '1', '2', '3', '7', '0', '01'] + LABELS)
        parts = [prio]
        if rng.random() < .7:
            parts.insert(0, part(EXTENS + ['nosuch', '555', '99', '10']))
            if rng.random() < .6:
                parts.insert(0, part(CONTEXTS + ['nosuch']))
        return ','.join(parts)

    def observe(self, case, data):
        files = data['files']
        observed = lint.dialplan(files)
        expected = model.DialplanModel(files)
        expected.walk(example=example)
        self.judge(case, data, observed, expected)
        codes = set()
        for file_, line, jump, code in expected.judged:
            case.stats['jumps'] += 1
            case.see(code or 'fine')
            codes.add(code)
            for what, part in (('context', jump.context),
                               ('exten', jump.exten), ('prio', jump.prio)):
                if part and not model.all_text(part):
                    case.see('variable-' + what)
        for section in expected.sections:
            closure = expected.closure(section)
            if len(closure) > 1:
                case.see('via-include')
            if any(section.name == name for other in closure
                   for name, _, _ in other.includes):
                case.see('circular')
        if None in codes and len(codes) > 1:
            case.nontrivial = True
        if len(files) == 1:
            self.added(case, files, observed)

    def added(self, case, files, observed):
        """
        Take a reported jump with a constant destination; declare that
        destination at the end: it must not be reported any more, and the
        other jumps are not reported more than they were.
        """
        before = [i for i in observed.messages
                  if i.code.startswith(self.codes)]
        if not files['extensions.conf'].endswith(b'\n'):
            return
        lines = files['extensions.conf'].split(b'\n')
        for msg in before[0:1]:
            text = lines[msg.line - 1].decode('utf-8', 'replace')
            app = text.split(',', 1)[1] if 'same' in text else (
                text.split(',', 2)[2] if text.count(',') > 1 else '')
            if not app.startswith('Goto(') or '$' in app:
                continue
            parts = app[5:].rstrip(')').split(',')
            if not re.match(r'Goto\([A-Za-z0-9_ -]+,[a-z0-9]+,[a-zA-Z0-9_-]+\)\Z',
                            app):
                continue
            context, exten, prio = parts
            if context in ('general', 'globals') or not exten.isalnum():
                continue
            extra = ['[{}]'.format(context)]
            if prio.isdigit():
                extra.append('exten => {},{},NoOp()'.format(exten, prio))
                if int(prio) < 1:
                    continue
            else:
                extra.append('exten => {},77({}),NoOp()'.format(exten, prio))
            more = {'extensions.conf': files['extensions.conf'] + '\n'.join(
                extra + ['']).encode('utf-8')}
            after = lint.dialplan(more)
            case.stats['added'] += 1
            case.see('added')
            left = [i for i in after.messages if i.code.startswith(self.codes)]
            if any(i.line == msg.line for i in left):
                case.fail('added', 'line {} {} is still reported after adding '
                          '{!r}'.format(msg.line, text, extra))
            for other in set(i.msg for i in left) - set(i.msg for i in before):
                if other.code == 'W_DP_GOTO_CONTEXT_NOEXTEN':
                    # It had no context before.
                    continue
                if other.code == 'E_DP_GOTO_CONTEXT_NOLABEL':
                    continue
                case.fail('added-more', '{!r} because of {!r}'.format(
                    other, extra))


__all__ = ['gen']
