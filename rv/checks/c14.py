"""C14: variable uses are counted; ident-scan lists the identifiers."""
import collections
import os
import shutil

from asterisklint.varfun import VarLoader

from .. import core, forked, gen, lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: a separate count of the variable references in '
             'the text is compared with what the linter recorded, with its '
             'messages and with what ident-scan prints; the groups of similar '
             'names are recomputed')
RULE = ('Random dialplans, with variables nested in names, slices, functions, '
        'expressions and applications, in several files; ident-scan runs with '
        'and without -v in fresh processes; non-trivial is a case with a name '
        'that is used more than once.')
ASSUMPTIONS = [
    'editdistance (not installed) is replaced by a Levenshtein distance.',
]
IDENTS = ['foo', 'Foo', 'FOO', 'fooo', 'foobar', 'foobaz', 'FOOBAR', 'fo',
          'f', 'bar', 'baz', 'ARG1', 'ARG2', 'ARG10', 'ARGX', 'ARG', 'BAR',
          'context', 'contexts', 'cnotext', 'a', 'ab', 'abc', 'abcd', 'abcde',
          'x1', 'x2', 'x_1', 'X_1', 'hello_world', 'helloworld', 'start',
          'strat', 'Start', 'stop', 'n\u00e9e', 'nee', 'NEE', '123', '124',
          '1234', '_x', '__x', '__foo', 'dest', 'test', 'text', 'next', '']


def plan(tier):
    return {'cases': 9000 if tier == 'quick' else 110000,
            'min_events': {'references': 20000, 'scans': 1500,
                           'listed': 3000, 'similar': 1500, 'positions': 0},
            'kinds': ('E_VAR_BAD_TOKENS', 'verbose', 'plain', 'similar',
                      'nothing-similar', 'empty', 'more-files', 'repeated')}


def distance(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(
                row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


def variants(a, b):
    "Whether these names look like variants of each other."
    near = distance(a.lower(), b.lower())
    if near == 0 and (a.isupper() and b.islower() or
                      a.islower() and b.isupper()):
        return False
    if all(i.startswith('ARG') and i[3:].isdigit() for i in (a, b)):
        return False
    return near <= 2 and near + 1 < min(len(a), len(b))


def by_name(names):
    return sorted(names, key=(lambda x: (x.lower(), x)))


def expected_scan(m, verbose):
    "What ident-scan has to print, and its exit status."
    out = []
    contexts = [x.name for x in m.sections]
    if verbose:
        out.append('Contexts encountered:')
        out.extend('  ' + i for i in by_name(contexts))
        out += ['', 'Labels encountered:']
        out.extend('  ' + i for i in by_name(m.labels))
        out += ['', 'Variables encountered:']
        out.extend('  {:32}  [{} times in {} files]'.format(
            i, len(m.vars[i]), len(set(f for f, _ in m.vars[i])))
            for i in by_name(m.vars))
        out.append('')
    names = set(contexts) | m.labels | set(m.vars)
    similar = collections.defaultdict(set)
    for key in ((lambda x: (x.lower(), x)),
                (lambda x: (len(x), x.lower(), x))):
        order = sorted(names, key=key)
        for a, b in zip(order, order[1:]):
            if a and variants(a, b):
                similar[a].add(b)
                similar[b].add(a)
    if similar:
        out.append('Identifiers with similar names include:')
        out.extend('  {:32}  [similar to: {}]'.format(
            i, ', '.join(sorted(similar[i]))) for i in by_name(similar))
        out.append('')
    return out, int(bool(similar)), similar


class Workload(DialplanCheck):
    codes = ('E_VAR_BAD_TOKENS',)
    structure = False
    bads = (0, .05, .2)

    def __init__(self, tier, worker):
        super().__init__(tier, worker)
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c14-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    def generate(self, rng, index):
        g = self.gen(rng)
        if rng.random() < .5:
            lines = g.dialplan_lines()
        else:
            lines = self.identifiers(rng)
        return {'files': g.spread(lines, level=rng.choice([0, .3, 1])),
                'scan': rng.choice(['', '-v', '--verbose'])
                if index % 5 == 0 else None}

    def identifiers(self, rng):
        pool = rng.sample(IDENTS, rng.randint(2, 25))
        lines = ['[general]', '[globals]', 'GLOB=1']

        def ref(depth):
            name = rng.choice(pool)
            kind = rng.random()
            if depth and kind < .2:
                return '${%s%s}' % (name, ref(depth - 1))
            if depth and kind < .3:
                return '${%s:%s}' % (name, ref(depth - 1))
            if depth and kind < .4:
                return '$[%s + %s]' % (ref(depth - 1), ref(depth - 1))
            if depth and kind < .5:
                return '${LEN(%s)%s}' % (ref(depth - 1), rng.choice(
                    ['', ':1', ':' + ref(depth - 1)]))
            if depth and kind < .6:
                return '${SET(%s=%s)}' % (name, ref(depth - 1))
            if kind < .7:
                return '${%s(%s)}' % (rng.choice(['INC', 'DEC']), name)
            if kind < .8:
                return '${%s:1:2}' % (name,)
            return '${%s}' % (name,)

        for _ in range(rng.randint(0, 4)):
            lines.append('[{}]'.format(rng.choice(pool)))
            for n in range(rng.randint(0, 6)):
                label = rng.choice(pool) if rng.random() < .3 else ''
                lines.append('exten => {},{}{},{}'.format(
                    rng.choice(['s', '_X', '1']) if not n else 's',
                    'n' if n and rng.random() < .8 else '1',
                    '({})'.format(label) if label else '',
                    rng.choice([
                        'NoOp({0}{1})', 'Set({0}={1})', 'GotoIf({0}?{1},1)',
                        'ExecIf({0}?NoOp({1}))', 'Gosub({0},s,1({1}))',
                        'ExecIf({0}?Set(x={1}):Set({1}=1))', 'While({0})',
                        'Set(ARRAY({0},b)={1})', 'NoOp(${{{0}{1}}})',
                        'Set({{INC({0})}}={1})', 'NoSuch({0})', '{0}({1})',
                        'NoOp', 'Dial(SIP/{0},,g({1}))']).format(
                            ref(2), ref(1))))
        return lines

    def observe(self, case, data):
        recorded = getattr(VarLoader(), '_variables', None)
        if recorded is not None:
            before = {k: len(v) for k, v in recorded.items()}
        observed = lint.dialplan(data['files'])
        expected = model.DialplanModel(data['files'])
        self.compare(case, observed, expected)
        case.nontrivial = any(len(v) > 1 for v in expected.vars.values())
        case.stats['references'] += sum(
            len(v) for v in expected.vars.values())
        if case.nontrivial:
            case.see('repeated')
        if not expected.vars:
            case.see('empty')
        if any(len(set(f for f, _ in v)) > 1 for v in expected.vars.values()):
            case.see('more-files')
        if recorded is not None:
            case.stats['positions'] += 1
            got = {}
            for name, places in VarLoader()._variables.items():
                new = places[before.get(name, 0):]
                if new:
                    got[name] = [(i.filename, i.lineno) for i in new]
            for name in sorted(set(got) | set(expected.vars)):
                if sorted(got.get(name, [])) != sorted(
                        expected.vars.get(name, [])):
                    case.fail('recorded', 'the uses of {!r} are {!r} instead '
                              'of {!r}'.format(
                                  name, got.get(name), expected.vars.get(
                                      name)))
                    break
        if data['scan'] is not None:
            self.scan(case, data, expected)

    def scan(self, case, data, expected):
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        try:
            args = [i for i in [data['scan']] if i]
            ret = self.zygote.main(
                ['ident-scan'] + args + ['extensions.conf'], cwd=self.dir)
        finally:
            for name in data['files']:
                os.unlink(os.path.join(self.dir, name))
        case.stats['scans'] += 1
        case.see('verbose' if args else 'plain')
        out, status, similar = expected_scan(expected, bool(args))
        case.see('similar' if similar else 'nothing-similar')
        case.stats['similar'] += len(similar)
        case.stats['listed'] += len(expected.vars) if args else 0
        got = ret.out.split('\n')
        want = out + ['']
        if got != want:
            diff = [(a, b) for a, b in zip(want, got) if a != b][0:1] or (
                want[len(got):], got[len(want):])
            case.fail('ident-scan', 'ident-scan {} prints {!r}: want/got '
                      '{!r}'.format(args, ret.out[-1500:], diff))
        if ret.status != status:
            case.fail('ident-scan-status', 'exit status {} instead of {}: '
                      '{}'.format(ret.status, status, ret.err[-1500:]))
        if ret.err:
            case.fail('ident-scan-stderr', repr(ret.err[-1500:]))


__all__ = ['gen']
