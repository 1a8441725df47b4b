"""C08: extensions get the right section, pattern, priority and label."""
from ..modelcheck import DialplanCheck

PROPERTY = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: reference model of the dialplan builder judges '
             'the sections, extensions and messages of the real parser')
RULE = ('Random sections of exten/same/include lines from a small vocabulary '
        'of patterns (also different spellings of one), priorities and labels,'
        ' so that repetitions and conflicts are common; non-trivial is a case '
        'with an accepted extension and a message about one.')
ASSUMPTIONS = [
    "'same' takes the pattern of the previous accepted extension.",
]
ALL = ('E_DP_PRIO_MISSING', 'E_DP_PRIO_INVALID', 'E_DP_PRIO_DUPE',
       'W_DP_PRIO_BADORDER', 'E_DP_PAT_MISSING', 'E_DP_PAT_INVALID',
       'E_DP_LABEL_INVALID', 'E_DP_LABEL_DUPE', 'H_DP_GENERAL_MISPLACED',
       'H_DP_GLOBALS_MISPLACED', 'E_DP_GLOBALS_DUPE', 'W_CONF_CTX_DUPE',
       'reopened', 'same', 'label', 'E_CONF_KEY_INVALID', 'I_NOTIMPL_HINT')

PATTERNS = ['s', '100', '1-00', '_X', '_x', '_[0-9]', '_1X', '_1-X', '_X.',
            '_!', '_s', '101', '_[1-3]', '_[123]', '', '_', '_[', '-1', 'i',
            'X', '_X[', '_[]', '_[321]', '_NXX', '_N-XX', '_nxx', '\u00e9',
            ' 1', '1 2', '_[a-]', '_1[-1]', '_1--', '_[0-9]!', '_X!', '*1',
            '1' * 40, '_[!]', '_a.b', '_!1', '_[2', '_[9-0]', '_]', '_z']
PRIOS = ['1', '1', '1', 'n', 'n', 'n', 'n', 'n', '2', '3', '4', 'hint', '0',
         '-1', '', ' ', 'N', '01', '1 ', 'n ', ' n', 'x', '1x', '10', 's',
         'n+1', '+1', '1.0', '\u00b2', '\u0661', '99999999999', 'n+101', 'e',
         '00', 'hint ', 'Hint', '1' * 35]
LABELS = ['', '', '', '', '', '(a)', '(b)', '(a', '(', '()', '(a)b', '(a))',
          '((a)', ')', ' (a)', '(a b)', '(1)', '(A)', '(a) ', '(\u00e9)',
          '( a)', '(a )', "(it's)", '(a")', '(s)', '(2)', '(a-b)', '(ab)']
HEADERS = ['[a]', '[b]', '[c]', '[a]', '[A]', '[general]', '[globals]', '[]',
           '[general](!)', '[a](!)', '[a](x)', '[General]', '[ a]',
           '[globals](x)']
APPS = ['NoOp(1)', 'NoOp', 'Answer()', '', 'Set(x=${y})', 'Goto(1)', 'bad(',
        'NoOp(a,b)', ' NoOp()', 'Hangup() ', '()', 'NoOp(é)', ',', 'a,b']


def plan(tier):
    return {'cases': 26000 if tier == 'quick' else 400000,
            'min_events': {'messages': 10000, 'extensions': 10000},
            'kinds': ALL}


class Workload(DialplanCheck):
    codes = ('E_DP_PRIO', 'W_DP_PRIO', 'E_DP_PAT', 'E_DP_LABEL', 'H_DP_G',
             'E_DP_GLOBALS', 'E_DP_GENERAL', 'W_CONF_CTX_DUPE',
             'E_CONF_KEY_INVALID', 'I_NOTIMPL_', 'E_CONF_CTX_MISSING',
             'H_CONF_NO_ARROW')

    def generate(self, rng, index):
        if rng.random() < .25:
            return super().generate(rng, index)
        lines = []
        good = rng.random()
        vocabulary = rng.sample(PATTERNS, rng.randint(2, 6))
        labels = LABELS[0:8]
        if rng.random() < .2:
            # Unusual ones, that return.
            labels = [''] + rng.sample(LABELS[8:], 2)
        for _ in range(rng.randint(0, 3)):
            lines.append(rng.choice([
                '[general]', '[globals]', 'x=y', 'A => 1', '[general]',
                '[globals]', '']))
        for _ in range(rng.randint(1, 5)):
            lines.append(rng.choice(HEADERS[0:4] if rng.random() < good
                                    else HEADERS))
            for _ in range(rng.randint(0, 9)):
                lines.append(self.line(rng, good, vocabulary, labels))
        text = '\n'.join(lines + [''])
        files = {'extensions.conf': text.encode('utf-8')}
        if rng.random() < .2:
            # Cut it in half.
            lines = files['extensions.conf'].split(b'\n')
            at = rng.randint(0, len(lines))
            to = rng.randint(at, len(lines))
            files['inc.conf'] = b'\n'.join(lines[at:to] + [b''])
            lines[at:to] = [b'#include inc.conf']
            files['extensions.conf'] = b'\n'.join(lines)
        return {'files': files}

    def line(self, rng, good, vocabulary, labels=LABELS[0:8]):
        prio = rng.choice(PRIOS[0:10] if rng.random() < good else PRIOS)
        label = rng.choice(labels if rng.random() < good else LABELS)
        app = rng.choice(APPS[0:6] if rng.random() < good else APPS)
        kind = rng.random()
        if kind < .45:
            return 'exten => {},{}{},{}'.format(
                rng.choice(vocabulary), prio, label, app)
        if kind < .8:
            return ' same => {}{},{}'.format(prio, label, app)
        if kind < .86:
            return 'include => {}'.format(rng.choice(['a', 'b', 'x', '', 'a,b']))
        if kind < .9 or rng.random() < good:
            return rng.choice(['', '; comment', '', 'exten => 1,1,NoOp()'])
        return rng.choice([
            'exten => 1', 'exten => 1,', 'exten => ,', 'exten => ', 'same => ',
            'same =>', 'same => n', 'same => 1', 'exten => 1,1', 'exten = 1,1,x',
            'same = n,NoOp()', 'exten=>1,1,NoOp()', 'Exten => 1,1,NoOp()',
            'include = a', 'ignorepat => 9', 'switch => x', 'foo => bar',
            'exten => 1,hint,SIP/1', 'same => hint,SIP/1', 'eswitch => x',
            'include => ', 'lswitch => y', 'exten =>', 'foo', 'x=y',
            'ignorepat = 9', 'switch = x', 'extensions => 1', 'exten => _X,1',
            'exten => _X,1(', 'exten => 1,1)', 'same => n(', 'hint => x'])

    def judge(self, case, data, observed, expected):
        super().judge(case, data, observed, expected)
        text = b'\n'.join(data['files'].values())
        if b'same' in text:
            case.see('same')
        names = [i[1:].split(b']')[0] for i in text.split(b'\n')
                 if i.startswith(b'[')]
        if len(names) != len(set(names)):
            case.see('reopened')
        for section in observed.dialplan.contexts:
            if any(e.label for e in section):
                case.see('label')
        # [general] and [globals] have their settings.
        for what in ('general', 'globals'):
            got = getattr(observed.dialplan, what)
            want = getattr(expected, what)
            got = None if not got else [i[0:2] for i in self.sets(got)]
            want = None if not want else [(i[0], i[1]) for i in want]
            if (got or []) != (want or []):
                case.fail(what, '[{}] has {!r} instead of {!r}'.format(
                    what, got, want))

    @staticmethod
    def sets(context):
        return [(v.variable, v.value) for v in context]
