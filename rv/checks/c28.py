"""C28: the work grows at most with the square of the size."""
import os
import shutil
import sys
import time

from .. import core, forked, gen, lint, tools
from . import c01

PROPERTY = 'C28'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: events of the interpreter (lines, jumps, '
             'branches, calls) are counted while the real code runs on the '
             'same input at doubling sizes; the oracle judges how fast the '
             'counts grow')
RULE = ('Fixed and random families of configurations: one piece of text '
        'repeated in a line, openings that are closed again, blocks of lines '
        'with running numbers, sections, includes and included files, each '
        'at sizes that double until there is enough work to judge; '
        'non-trivial is a family that reached that.')
ASSUMPTIONS = [
    'Nesting of variables at most 40 deep, of ExecIf at most 20.',
    'Growth is judged from 40000 events on; twice the size may take at most '
    'six times the work (four is quadratic, eight is cubic).',
]
START = 10
MOST = 2560
ENOUGH = 120000     # events: no need to look at larger sizes
JUDGED = 40000      # events: less than that is never too much
MORE = 1000000      # the same, when twice the size takes three times as much
TOOMUCH = 12000000  # events: stop it
RATIO = 6.0

HEAD = ['[general]', '[globals]', '[a]']
BLOCKS = [
    'exten => {i},1,NoOp()', 'exten => s,1,NoOp(x)', 'exten => {i},n,NoOp()',
    'exten => _{i}X.,1,NoOp()', 'exten => _X{i}!,1,NoOp()',
    ' same => n,NoOp(${{x{i}}})', ' same => n(l{i}),Goto(l{j})',
    ' same => n(l),NoOp()', ' same => {i},NoOp()', ' same => n+{i},NoOp()',
    'exten => {i},hint,SIP/{i}', 'exten => s,{i},NoOp(x)',
    'exten => {i},1,Goto({j},1)', 'exten => _{k}X,1,Goto({k}5,1)',
    'exten => _{k}[1-5]X,1,GotoIf($[${{x}}=1]?{j},1:{k}15,1)',
    'exten => {i},1,Goto(s{j},{j},1)', ' same => n,Gosub(s{j},s,1(a,b))',
    ' same => n,Goto(missing,{i},1)', ' same => n,Goto(${{x}}{i},1)',
    ' same => n,Goto(s{j},${{EXTEN}},1)', ' same => n,Goto({i})',
    ' same => n,GosubIf(${{x}}?l{i}:l${{y}})', '[s{i}]', '[s{m}]',
    'include => s{j}', 'include => s{i}', 'include => a',
    'include => s{g}', 'include => s{h}', 'bad {i}', '', '; x',
    ' same => n,Foo{i}()', ' same => n,NoOp(${{BAR{i}(x)}})',
    ' same => n,NoOp(${{bar(x)}})', ' same => n,noop()',
    ' same => n,Set(x{i}=${{y:{i}}})', ' same => n,Set(ARRAY(a{i},b)=1)',
    ' same => n,ExecIf($[${{x}}]?NoOp(a):Goto(l{j}))', 'x{i}=y{i}', 'x=',
    ' same => n,VoiceMail({i}@b,us)', ' same => n,NoOp(${{LEN(${{x{i}}})}})',
    ' same => n,Background({i}&b)', ' same => n,GotoIfTime(*,*,*,*?l{i})',
    '#include "f{m}"', '#include f{i}', 'exten => {i},1,NoOp(x)  ',
    'exten => _[{m}-9][a-{i}],1,NoOp()', 'exten => {i}/5,1,NoOp()',
    '[s{i}](+)', '[s{i}](!)', '[s{j}](a)', ' same => n(x${{{i}}}y),NoOp()',
    'readsql=SELECT {i}', 'prefix=P{i}', 'dsn=a', 'readsql=UPDATE ${{ARG1}}',
]
EXTRA = [
    '/', '!=', '>=', 'exten=>', ' => ', '\\,', '\\"', '&&', '||', 'xa', 'aXb',
    '[1-3]', '[a', 'x=', 'a?', 'a:b', '${x', '${x}', '${x}a', '${x}${y}',
    '\xe9', ' \t', 'x ', ' =', '  =', '](', '[]', '\\', '\\\\;', '$', '$$[',
    '${x:1}', '${LEN(x)}', '${CUT(x,y,1)}', 'u&', '@', '%20', '-',
]
STARTS = [
    'exten => s,1,NoOp(${{{}}})', 'exten => s,1,NoOp(${{{}}})',
    'exten => s,1,NoOp(${{{}(x)}})', 'exten => s,1,{}(x)', 'exten => {},1,NoOp()',
    'exten => s,1,Set({}=1)', 'exten => s,1,NoOp(${{{}:1}})', '{} = x',
    'exten => s,1,NoOp(${{LEN({})}})', 'exten => s,1,Goto({},1)', '[{}](x)',
]
WORDS = ['a', 'x1', 'abc', 'A', '1', '_', 'a_', 'x ', '10', 'aB', '\xe9', '-',
         '.', 'n', 'X', 'a,', 'a=', 'ab.']
OPEN = [
    ('${', '}'), ('${a', '}'), ('${LEN(', ')}'), ('$[', ']'), ('$[1+${', '}]'),
    ('${IF(', '?a:b)}'), ('${${x}', '}'), ('${CUT(a,', ',1)}'),
    ('${x:${', '}}'), ('${IF($[', ']?a:b)}'), ('ExecIf(1?', ')'),
    ('ExecIf(1?NoOp():', ')'), ('ExecIf(${x}?', ')'),
    ('${x${y}', '${z}}'), ('${EVAL(${', '})}'), ('${SHELL(', ')}'),
]
LOOSE = [('(', ')'), ('[', ']'), ('"', '"'), ('{', '}'), ("'", "'"), ('((', ')'),
         ('"(', ')"'), ('[(', ')]'), ('x(', ')'), ('\\(', '\\)')]

TAILS = ['', '-', ' ', '!', '.', '(', ')', '}', ']', ',', '\\', '"', ':', '=',
         '?', '\xe9', '\t', '@']

mon = sys.monitoring
EVENTS = (mon.events.LINE, mon.events.JUMP, mon.events.BRANCH,
          mon.events.PY_START, mon.events.PY_RESUME)


class TooMuch(BaseException):
    pass


def counted(func, *args):
    "Returns the number of events and whether func finished."
    count = [0]

    def event(*_):
        count[0] += 1
        if count[0] % TOOMUCH == 0:
            raise TooMuch()

    every = 0
    mon.use_tool_id(4, 'rv')
    try:
        for ev in EVENTS:
            mon.register_callback(4, ev, event)
            every |= ev
        mon.set_events(4, every)
        try:
            func(*args)
            return count[0], 'done'
        except TooMuch:
            return count[0], 'stopped'
        except RecursionError:
            return count[0], 'recursion'
        finally:
            mon.set_events(4, 0)
            for ev in EVENTS:
                mon.register_callback(4, ev, None)
    finally:
        mon.free_tool_id(4)


def execute(what, files):
    if what == 'func_odbc':
        lint.odbc(files)
    else:
        ret = lint.dialplan(files)
        if what == 'show':
            for reverse in (False, True):
                ret.dialplan.format_as_dialplan_show(reverse=reverse)


def command(argv):
    import asterisklint.main
    sys.argv = ['asterisklint'] + argv

    def call():
        try:
            asterisklint.main.main(argv, os.environ)
        except SystemExit:
            pass
    return counted(call)


def build(spec, n):
    "The files for size n."
    files = {}

    def numbers(lines, count, of):
        ret = []
        for i in range(count):
            for line in lines:
                ret.append(line.format(
                    i=i + 1, j=(i * 7) % of + 1, k=1000 + i, m=i % 5,
                    g=i + 2, h=i + 3))
        return ret

    kind = spec['kind']
    if kind == 'blocks':
        lines = spec['head'] + numbers(
            spec['block'], n, n) + spec['tail']
        wanted = set(spec['included'])
        if wanted:
            for i in range(n if 'i' in wanted else 5):
                files['f{}'.format(i + ('i' in wanted))] = numbers(
                    spec['in_file'], 1, 1)
            files.setdefault('f0', [])
    elif kind == 'chain':
        depth = max(1, min(n // 10, 40))
        lines = spec['head'] + ['#include f0']
        for i in range(depth):
            lines2 = numbers(spec['block'], max(1, n // depth), n)
            files['f{}'.format(i)] = lines2 + (
                ['#include f{}'.format(i + 1)] if i + 1 < depth else []) + (
                    lines2 if spec['after'] else [])
    elif kind == 'inline':
        line = spec['start'].format(*[
            i * n + j for i, j in spec['pieces']])
        lines = spec['head'] + [line] + spec['tail']
    elif kind == 'loose':
        a, b = spec['pair']
        line = spec['start'].format(*[
            a * n + spec['mid'] + b * n for _ in range(
                spec['start'].count('{}'))])
        lines = spec['head'] + [line] + spec['tail']
    else:
        # Nested: as many as there may be in the end.
        depth = max(1, n * spec['most'] // MOST)
        a, b = spec['pair']
        text = a * depth + spec['mid'] + b * depth
        line = spec['start'].format(*[text] * spec['start'].count('{}'))
        lines = spec['head'] + [line] + spec['tail']
    files[spec['name']] = lines
    return {name: ''.join(i + '\n' for i in lines).encode(
        'utf-8', 'surrogatepass') for name, lines in files.items()}


def plan(tier):
    return {'cases': 3600 if tier == 'quick' else 34000,
            'min_events': {'judged': 400},
            'kinds': ('blocks', 'chain', 'inline', 'loose', 'nested',
                      'check', 'show', 'func_odbc', 'ident-scan',
                      'modules-show')}


class Workload(object):
    def __init__(self, tier, worker):
        tools.preload()
        import asterisklint.main  # noqa
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c28-{}'.format(os.getpid()))
        # What is done only once.
        files = {'extensions.conf': b'[general]\n[globals]\n[a]\nexten => '
                 b's,1,NoOp(${LEN(x)})\n same => n,Goto(b,s,1)\n'}
        for what in ('check', 'show', 'func_odbc'):
            try:
                execute(what, dict(files, **{'func_odbc.conf': b'[X]\n'}))
            except Exception:
                pass

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, rng, index):
        what = rng.choice(['check'] * 6 + [
            'show', 'func_odbc', 'ident-scan', 'modules-show'])
        kind = rng.choice(['blocks'] * 4 + ['chain', 'inline', 'inline',
                                            'inline', 'loose', 'nested'])
        spec = {'kind': kind, 'name': 'extensions.conf', 'what': what,
                'head': list(HEAD), 'tail': []}
        if what == 'func_odbc':
            spec['name'] = 'func_odbc.conf'
            spec['head'] = rng.choice([[], ['[X]'], ['[X]', 'dsn=a']])
        elif rng.random() < .5:
            spec['head'] = HEAD + ['exten => s,1,NoOp()']
        if rng.random() < .3:
            spec['tail'] = [self.one(rng) for _ in range(rng.randint(1, 3))] + ['exten => t,1,Goto(s1,zz,1)']
        if kind in ('blocks', 'chain'):
            spec['block'] = [rng.choice(BLOCKS) for _ in range(
                rng.choice([1, 1, 2, 2, 3, 4]))]
            if rng.random() < .5 and '[s{i}]' not in spec['block']:
                spec['block'][0:0] = rng.choice([
                    ['[s{i}]'], ['exten => {i},1,NoOp()'],
                    ['exten => _{i}X,1,NoOp()'], ['[s{i}]', 'include => s{j}'],
                    ['[s{m}]', 'exten => {i},1,NoOp()'],
                    ['[s{i}]', 'include => s{g}', 'include => s{h}'],
                    ['[s{i}]', 'include => s{h}', 'include => s1',
                     'include => s{g}', 'exten => 1,1,Goto(2,1)'],
                    ['[s{i}]', 'include => s{j}', 'include => s{g}',
                     'include => s{i}', 'exten => {i},1,Goto(s{j},1,1)'],
                ])
            if rng.random() < .2:
                g = gen.Gen(rng, bad=.3, depth=2)
                lines = [i.replace('{', '{{').replace('}', '}}')
                         for i in g.dialplan_lines()
                         if 'include' not in i and len(i) < 120]
                if lines:
                    at = rng.randrange(len(lines))
                    spec['block'] = lines[at:at + rng.randint(1, 5)]
            spec['after'] = rng.random() < .5
            if kind == 'chain':
                spec['block'] = [i for i in spec['block']
                                 if not i.startswith('#')]
            spec['included'] = [i for i in 'im' if '#include' in ''.join(
                spec['block']) and '{%s}' % i in ''.join(
                    j for j in spec['block'] if j.startswith('#'))]
            spec['in_file'] = [i for i in (
                rng.choice(BLOCKS) for _ in range(rng.randint(0, 2)))
                if not i.startswith('#')]
        elif kind == 'inline':
            spec['start'] = self.start(rng)
            spec['pieces'] = [
                (rng.choice(WORDS), rng.choice(TAILS)) if rng.random() < .4 else
                (self.piece(rng), rng.choice(['', '', self.piece(rng)]))
                for _ in range(spec['start'].count('{}'))]
        else:
            spec['start'] = self.start(rng)
            spec['pair'] = rng.choice(LOOSE if kind == 'loose' else OPEN)
            spec['mid'] = rng.choice(['', 'x', '1', ',', '${x}', 'a,b'])
            if kind == 'nested':
                if spec['pair'][0].startswith('ExecIf'):
                    spec['start'] = 'exten => s,1,{}'
                    spec['mid'] = rng.choice(['NoOp(x)', 'Foo()', '', 'x'])
                spec['most'] = 32 // max(1, spec['pair'][0].count('${'))
                if 'ExecIf' in spec['pair'][0]:
                    spec['most'] = 16
        return spec

    @staticmethod
    def one(rng):
        return rng.choice(BLOCKS).format(i=1, j=2, k=3, m=4, g=2, h=3).replace(
            '#include', ';')

    @staticmethod
    def start(rng):
        while True:
            start = rng.choice(c01.STARTS + STARTS)
            if not start.startswith('#') and '{}' in start:
                return start

    @staticmethod
    def piece(rng):
        return ''.join(rng.choice(c01.TOKENS + EXTRA) for _ in range(
            rng.choice([1, 1, 1, 2, 2, 3]))).replace('\n', '')

    def measure(self, spec, n):
        files = build(spec, n)
        if spec['kind'] in ('inline', 'nested') and not c01.allowed(files):
            return None
        if spec['what'] in ('ident-scan', 'modules-show'):
            shutil.rmtree(self.dir, ignore_errors=True)
            os.mkdir(self.dir)
            for name, content in files.items():
                with open(os.path.join(self.dir, name), 'wb') as fp:
                    fp.write(content)
            ret = self.zygote.run(
                command, [spec['what'], 'extensions.conf'], cwd=self.dir,
                env={'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
            if ret.hung:
                return TOOMUCH, 'hung'
            return ret.value
        return counted(execute, spec['what'], files)

    def observe(self, case, spec):
        case.see(spec['kind'], spec['what'])
        counts = []
        times = []
        n = START
        while n <= MOST:
            t0 = time.process_time()
            ret = self.measure(spec, n)
            if ret is None:
                break
            count, how = ret
            case.stats['executions'] += 1
            case.stats['counted'] += count
            if how == 'recursion':
                break
            counts.append(count)
            times.append(time.process_time() - t0)
            if how != 'done':
                case.fail('explodes', (
                    '{} for {!r}: {} with size {}; before: {}'.format(
                        count, spec['kind'], how, n, counts)))
                return
            fast = len(counts) > 1 and count > 3 * counts[-2]
            if count > (MORE if fast else ENOUGH) or times[-1] > 3:
                break
            n *= 2
        if len(counts) < 3 or counts[-1] < JUDGED:
            return
        case.stats['judged'] += 1
        case.nontrivial = True
        growth = counts[-1] / counts[-2]
        case.see('growth:{}'.format(int(growth)))
        if growth > RATIO:
            case.fail('growth', (
                'size {} takes {} events, size {} takes {}: {:.1f} times as '
                'much'.format(n // 2, counts[-2], n, counts[-1], growth)))
