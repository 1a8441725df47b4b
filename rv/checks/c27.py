"""C27: the text of a finding names what is wrong, as it is in the file."""
import collections
import os
import re
import shutil

from . import c08, c10, c15, c16, c19
from .. import gen, lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the reference model says for every finding '
             'which items its text has to name, in order; every text on '
             'standard error is searched for them')
RULE = ('The random dialplans and func_odbc configurations of C08, C10, C15, '
        'C16 and C19 and general ones; the findings at a place are assigned '
        'to the expected ones; non-trivial is a case with a finding that '
        'names something.')
ASSUMPTIONS = [
    'The wording is free; an item counts as named if it is there between '
    'quotes (plain numbers and destinations: between blanks or commas), '
    'escaped or not.',
    'Variables with slices, functions or expressions in them may be '
    'written in another way; the text around them is judged.',
    'If the number of findings is not as expected then that is left to the '
    'other properties.',
]
NAMED = (
    'E_CONF_BAD_LINE', 'E_CONF_KEY_DUPE', 'E_CONF_KEY_INVALID',
    'W_CONF_KEY_LATE', 'W_PP_EXEC', 'W_PP_INCLUDE_MISSING',
    'W_ODBC_BADTOKENS', 'E_APP_ARG_FEW', 'E_APP_ARG_MANY',
    'E_APP_ARG_BADOPT', 'E_APP_ARG_DUPEOPT', 'E_APP_ARG_IFCONST',
    'E_APP_ARG_IFEMPTY', 'E_APP_ARG_IFSTYLE', 'E_APP_ARG_PIPEDELIM',
    'E_APP_MISSING', 'W_APP_BAD_CASE', 'W_APP_BALANCE', 'E_APP_WSH',
    'W_APP_WSH', 'W_APP_NEED_PARENS', 'E_APP_PARSE_ERROR',
    'E_ASSIGN_NO_EQUALS', 'W_ASSIGN_SPACES', 'E_FUNC_BAD_CASE',
    'E_FUNC_MISSING', 'E_FUNC_PARENS', 'E_FUNC_TAIL', 'W_FUNC_DYNAMIC',
    'E_FUNC_BAD_ARGS', 'W_FUNC_BALANCE', 'E_VAR_BAD_TOKENS',
    'E_VAR_SUBSTR_ARGS', 'E_VAR_SUBSTR_START', 'E_VAR_SUBSTR_LENGTH',
    'E_DP_PRIO_INVALID', 'E_DP_PRIO_DUPE', 'E_DP_LABEL_INVALID',
    'E_DP_LABEL_DUPE', 'W_DP_PRIO_BADORDER',
    'E_DP_GOTO_NOCONTEXT', 'E_DP_GOTO_NOLABEL', 'E_DP_GOTO_CONTEXT_NOLABEL',
    'W_DP_GOTO_CONTEXT_NOEXTEN')
SIMPLE = re.compile(r'\$\{[A-Za-z0-9_]*\}\Z')
RANDOM = 10 ** 9


def plan(tier):
    return {'cases': 24000 if tier == 'quick' else 300000,
            'min_events': {'named': 50000, 'files': 5000, 'commands': 1000},
            'kinds': NAMED}


def spelled(text):
    "The text as it is in repr() if that uses double quotes, without them."
    return repr("'" + text)[2:-1] if '"' not in text else None


def alternatives(item):
    "Regular expressions for the ways in which the item may be written."
    runs = []
    for token in item:
        if not isinstance(token, str):
            runs.append(token.text if SIMPLE.match(token.text) else None)
        elif runs and isinstance(token, str) and runs[-1] is not None:
            runs[-1] += token
        else:
            runs.append(token)
    ways = [lambda x: x, spelled, lambda x: repr('"' + x)[2:-1]]
    ret = []
    for way in ways:
        parts = []
        for run in runs:
            if run is None:
                parts.append('.*?')
            else:
                written = way(run)
                if written is None:
                    break
                parts.append(re.escape(written))
        else:
            ret.append(''.join(parts))
    return sorted(set(ret))


def pattern(items):
    parts = []
    for item in items:
        inner = '(?:{})'.format('|'.join(alternatives(item)))
        if isinstance(item, model.Plain):
            parts.append(r'(?:^|(?<=[\s,\'"]))' + inner +
                         r'(?=[\s,\'"]|\Z)')
        else:
            parts.append(r'([\'"]){}\{{}}'.format(inner, '{}'))
    # Number the quotes.
    ret, group = [], 0
    for part in parts:
        if part.endswith('\\{}'):
            group += 1
            part = part[0:-2] + str(group)
        ret.append(part)
    return re.compile('.*?'.join(ret), re.S)


def assign(patterns, texts):
    "The index of a pattern that has no text of its own, or None."
    owner = {}
    fits = [[i for i, text in enumerate(texts) if p.search(text)]
            for p in patterns]

    def place(number, seen):
        for i in fits[number]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = number
                    return True
        return False

    for number in range(len(patterns)):
        if not place(number, set()):
            return number
    return None


class General(DialplanCheck):
    bads = (.05, .15, .4, .8)


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.sources = [
            source(tier, worker) for source in (
                General, c08.Workload, c10.Workload, c15.Workload,
                c16.Workload, c19.Workload)]
        self.odbc = self.sources[-1]
        self.finish = self.odbc.finish

    def generate(self, rng, index):
        if rng.random() < .08:
            return self.both(rng)
        source = rng.choice(self.sources)
        data = source.generate(rng, RANDOM + (index % 3))
        while data.get('kind', 'read') != 'read':
            data = source.generate(rng, RANDOM + rng.randint(1, 6))
        return {'files': data['files']}

    def both(self, rng):
        "A dialplan and the functions it has, for a new process."
        g = gen.Gen(rng)
        files = {'func_odbc.conf': g.layout(
            self.odbc.odbc_lines(rng, rng.random() < .5), 0)}
        files['extensions.conf'] = self.odbc.dialplan(
            rng, g, {'files': dict(files)}) + ''.join(
                'exten => s,{},{}(x)\n'.format(n, rng.choice([
                    'BackGround', 'Background', 'background', 'BACKGROUND',
                    'Answer', 'backGround', 'goto', ' BackGround']))
                for n in range(9, rng.randint(9, 15))).encode('ascii')
        return {'files': files, 'command': True}

    def command(self, files):
        for name, content in files.items():
            with open(os.path.join(self.odbc.dir, name), 'wb') as fp:
                fp.write(content)
        try:
            ret = self.odbc.zygote.main(
                ['dialplan-check', 'extensions.conf'], cwd=self.odbc.dir)
        finally:
            shutil.rmtree(self.odbc.dir)
            os.mkdir(self.odbc.dir)
        functions = model.OdbcModel(files)
        expected = model.DialplanModel(
            files, funcs=dict(model.FUNCS, **functions.names))
        expected.walk()
        return (functions.msgs + expected.msgs,
                lint.parse_stderr(ret.err)[0])

    def observe(self, case, data):
        files = data['files']
        case.stats['files'] += len(files)
        if data.get('command'):
            case.stats['commands'] += 1
            wanted, found = self.command(files)
            return self.compare(case, wanted, found)
        if 'func_odbc.conf' in files:
            expected = model.OdbcModel(files)
            observed = lint.odbc(files)
        else:
            observed = lint.dialplan(files)
            expected = model.DialplanModel(files)
            expected.walk()
        self.compare(case, expected.msgs, observed.messages)

    @staticmethod
    def compare(case, wanted, found):
        want = collections.defaultdict(list)
        for msg in wanted:
            want[tuple(msg)].append(msg.items)
        got = collections.defaultdict(list)
        for full in found:
            got[tuple(full.msg)].append(full.text)
        for key in want:
            if len(want[key]) != len(got[key]):
                continue
            lists = [i for i in want[key] if i]
            if not lists:
                continue
            case.nontrivial = True
            case.stats['named'] += len(lists)
            case.see(key[2])
            wrong = assign([pattern(i) for i in lists], got[key])
            if wrong is not None:
                case.fail('unnamed:{}'.format(key[2]), (
                    '{}:{} {} should name {}; the text is {!r}'.format(
                        *key + (', '.join(
                            repr(model.text_of(i)) for i in lists[wrong]),
                            got[key][0] if len(got[key]) == 1 else
                            got[key]))))
