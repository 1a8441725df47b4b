"""C20: the result does not depend on what was linted before."""
from .. import forked, gen, lint, magnify

PROPERTY = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: histories of complete, aborted, abandoned, '
             'nested and interleaved runs in one process; the messages, the '
             'parsed objects and the listing of every run are compared with '
             'those of a fresh process')
RULE = ('Random histories of 2 to 7 runs over random dialplans, '
        'configurations and func_odbc files (in some of them the dialplans '
        'use the functions of these files, before and after they are '
        'loaded; in some of them files are linted again by the same name '
        'after an edit), with read errors at random '
        'opens, parsers that are left half-way, runs inside the opening of '
        'an included file and alternating iteration; non-trivial is a '
        'history in which a run follows one with messages.')
ASSUMPTIONS = [
    'The func_odbc functions of a history are used by its dialplans only in '
    'the histories of complete runs, where the fresh process that a dialplan '
    'is compared with has loaded the same functions in the same order '
    '(they are remembered by design); Background has its usual spelling.',
]
FUNCTIONS = ['HIST1', 'HIST2', 'HIST12', 'hist1', 'EXISTS', 'X_Y']
PREFIXES = ['ODBC', 'odbc', 'DB', 'HIST']
PRIMER = [
    # What could leak: the last priority, the first exten, labels, ...
    ['[a]', 'exten => s,n,NoOp()', ' same => n(x),Goto(b,s,lbl)'],
    ['[a]', ' same => n,NoOp()', 'exten => 1,n,NoOp()'],
    ['[a]', 'exten => s,1(lbl),Goto(nosuch,s,1)', ' same => 5,NoOp()'],
    ['[b]', 'exten => s,1(lbl),NoOp()', ' same => n,Goto(a,1,1)'],
    ['[general]', '[globals]', '[a]', 'include => b'],
    ['[c]', 'exten => s,2,NoOp()', 'exten => s,n,Goto(lbl)'],
    ['exten => s,1,NoOp()', '[a]', 'include => c', 'exten => _X,1,Goto(s,1)'],
    ['[globals]', 'X=1', '[general]', '[a]', '[a]', 'exten => ,1,NoOp()'],
    [],
    ['[a]'],
    ['bad line', '[a', 'x'],
    ['[a]', 'exten => s,1,NoOp(${foo)', ' same => n,Set(${x}(y)=1)'],
    ['#include nosuch.conf', '[b]', 'exten => s,1,Goto(b,${x},lbl)'],
]


def plan(tier):
    return {'cases': 1000 if tier == 'quick' else 16000,
            'min_events': {'runs': 2000, 'messages': 10000},
            'kinds': ('complete', 'aborted', 'abandoned', 'nested',
                      'interleaved', 'delayed-walk', 'dialplan', 'config',
                      'odbc', 'repeated', 'functions', 'functions-late', 'version')}


class Injected(OSError):
    injected = True


class Hooked(object):
    "An opener that does something special at the nth open."
    def __init__(self, files, nth, hook):
        self.opener = lint.Opener(files)
        self.nth = nth
        self.hook = hook
        self.count = 0

    def __call__(self, name):
        self.count += 1
        if self.count == self.nth:
            self.hook()
        return self.opener(name)


def name_of(config):
    return config['root'] + config['name']


def read(config, opener=None):
    "Returns the parser."
    from asterisklint import (
        FileConfigParser, FileDialplanParser, FileFuncOdbcParser)
    class_ = {'dialplan': FileDialplanParser, 'config': FileConfigParser,
              'odbc': FileFuncOdbcParser}[config['kind']]
    parser = class_(opener=opener or lint.Opener(config['files']))
    parser.include(name_of(config))
    return parser


def describe(config, result):
    "Everything that can be seen of the result."
    if config['kind'] == 'dialplan':
        dialplan, = result
        return [
            lint.sections_of(dialplan),
            dialplan.format_as_dialplan_show(),
            dialplan.general and lint.sets_of(dialplan.general),
            dialplan.globals and lint.sets_of(dialplan.globals)]
    return [(c.name, c.where.filename, c.where.lineno, lint.sets_of(c),
             config['kind'] == 'odbc' and c.get_function_name())
            for c in result]


def finish(config, parser, walk=True):
    if config['kind'] == 'dialplan':
        dialplan = next(iter(parser))
        if walk:
            dialplan.walk_jump_destinations()
        return [dialplan]
    return list(parser)


def alone(config):
    "A single run in a fresh process."
    lint.fresh()
    with lint.captured() as cap:
        result = finish(config, read(config))
    return describe(config, result), cap.text


def primed(configs, first, number):
    "A run in a process that has loaded functions only."
    lint.fresh()
    with lint.captured():
        for odbc in first:
            finish(configs[odbc], read(configs[odbc]))
    with lint.captured() as cap:
        result = finish(configs[number], read(configs[number]))
    return describe(configs[number], result), cap.text


def history(configs, steps):
    "Returns ([(config number, description)], stderr)."
    results = []
    lint.fresh()
    with lint.captured() as cap:
        for step in steps:
            perform(configs, step, results)
    return results, cap.text


def mark(number, before=True):
    import sys
    print('@{}{}'.format(number, '<' if before else '>'), file=sys.stderr)


def perform(configs, step, results):
    number = step['config']
    config = configs[number]
    if step['op'] == 'complete':
        mark(number)
        result = finish(config, read(config))
        results.append((number, describe(config, result)))
        mark(number, False)
    elif step['op'] == 'aborted':
        def fail():
            raise Injected(5, 'Input/output error')
        mark('x')
        try:
            finish(config, read(config, Hooked(
                config['files'], step['nth'], fail)))
        except OSError:
            pass
        mark('x', False)
    elif step['op'] == 'abandoned':
        mark('x')
        iterator = iter(read(config))
        for _ in range(step['nth'] - 1):
            next(iterator, None)
        mark('x', False)
        if step['keep']:
            results.append((None, iterator))
    elif step['op'] == 'nested':
        def nested():
            perform(configs, step['inner'], results)
        mark(number)
        result = finish(config, read(config, Hooked(
            config['files'], step['nth'], nested)))
        results.append((number, describe(config, result)))
        mark(number, False)
    elif step['op'] == 'interleaved':
        numbers = [number] + step['others']
        todo = []
        for n in numbers:
            mark(n)
            todo.append((n, iter(read(configs[n])), []))
            mark(n, False)
        while todo:
            for item in todo[:]:
                n, iterator, got = item
                mark(n)
                try:
                    got.append(next(iterator))
                except StopIteration:
                    todo.remove(item)
                    if configs[n]['kind'] == 'dialplan':
                        got[0].walk_jump_destinations()
                    results.append((n, describe(configs[n], got)))
                mark(n, False)
    elif step['op'] == 'delayed-walk':
        numbers = [number] + step['others']
        got = []
        for n in numbers:
            mark(n)
            got.append(finish(configs[n], read(configs[n]), walk=False))
            mark(n, False)
        for n, result in list(zip(numbers, got))[::step['order']]:
            mark(n)
            if configs[n]['kind'] == 'dialplan':
                result[0].walk_jump_destinations()
            results.append((n, describe(configs[n], result)))
            mark(n, False)


def history_(configs, steps):
    results, text = history(configs, steps)
    return [i for i in results if i[0] is not None], text


class Workload(object):
    def __init__(self, tier, worker):
        self.zygote = forked.Zygote()

    def finish(self):
        self.zygote.close()

    def config(self, rng, number):
        g = gen.Gen(rng, bad=rng.choice([0, .1, .3]))
        g.again = rng.choice([0, 0, 0, .3])
        kind = rng.choice(['dialplan'] * 5 + ['config', 'odbc'])
        root = 'c{}/'.format(number)
        if rng.random() < .25:
            lines = list(rng.choice(PRIMER))
        elif kind == 'odbc':
            lines = []
            for _ in range(rng.randint(0, 3)):
                lines.append('[HIST{}]'.format(rng.randint(0, 9)))
                lines += rng.sample(
                    ['readsql=x', 'dsn=x', 'bogus=1', 'writesql => y;',
                     'dsn=y', 'bad', 'read=1'], rng.randint(0, 4))
        else:
            lines = g.dialplan_lines(sections=rng.randint(1, 3))
        name = 'x.conf'
        files = g.spread(lines, level=rng.choice([0, .5, 1.5]),
                         name=root + name)
        if rng.random() < magnify.share(.05):
            files = {i[len(root):]: files[i] for i in files}
            magnify.magnify(rng, files)
            files = {root + i: files[i] for i in files}
        return {'kind': kind, 'root': root, 'name': name, 'files': files}

    def version(self, rng, config):
        "The same files, by the same names, after an edit."
        files = {}
        for name, data in config['files'].items():
            lines = data.split(b'\n')
            for _ in range(rng.randint(1, 4)):
                at = rng.randrange(len(lines))
                how = rng.choice(['swap', 'other', 'again', 'drop', 'cut'])
                if how == 'swap':
                    to = rng.randrange(len(lines))
                    lines[at], lines[to] = lines[to], lines[at]
                elif how == 'other':
                    lines[at] = rng.choice(
                        [b'dsn=z', b'bogus=2', b'readsql=z', b'prefix=P']
                        if config['kind'] == 'odbc' else
                        [b'x=y', b'exten => s,1,NoOp(z)', b'[z]',
                         b' same => n(z),Goto(z)'])
                elif how == 'again':
                    lines[at] = rng.choice(lines)
                elif how == 'drop':
                    lines[at] = b';' + lines[at]
                else:
                    lines[at] = lines[at][0:rng.randint(0, len(lines[at]))]
            files[name] = b'\n'.join(lines)
        return dict(config, files=files)

    def step(self, rng, configs, ops):
        def pick():
            return rng.randrange(len(configs))
        op = rng.choice(ops)
        step = {'op': op, 'config': pick()}
        step['nth'] = rng.randint(1, 3)
        if op == 'abandoned':
            step['keep'] = rng.random() < .5
        elif op == 'nested':
            step['nth'] = rng.randint(1, 3)
            step['inner'] = self.step(rng, configs, [
                'complete', 'aborted', 'abandoned'])
        elif op in ('interleaved', 'delayed-walk'):
            step['others'] = [pick() for _ in range(rng.randint(1, 2))]
            step['order'] = rng.choice([1, -1])
        return step

    def functions(self, rng):
        "A history in which the dialplans use the func_odbc functions."
        configs = []
        kinds = ['odbc', 'dialplan'] + [
            rng.choice(['odbc', 'dialplan']) for _ in range(rng.randint(0, 2))]
        for number, kind in enumerate(kinds):
            lines = []
            if kind == 'odbc':
                for _ in range(rng.randint(1, 3)):
                    lines.append('[{}]'.format(rng.choice(FUNCTIONS)))
                    if rng.random() < .5:
                        lines.append('prefix={}'.format(rng.choice(PREFIXES)))
                    lines += rng.sample(['dsn=x', 'dsn=y', 'mode=multirow'],
                                        rng.randint(0, 2))
                    if rng.random() < .85:  # without, it is no function
                        lines.append(rng.choice([
                            'readsql=x', 'writesql=y', 'read=x',
                            'insertsql=z']))
            else:
                lines = ['[general]', '[globals]', '[a]']
                for prio in range(1, rng.randint(2, 6)):
                    func = '{}_{}'.format(
                        rng.choice(PREFIXES), rng.choice(FUNCTIONS))
                    if rng.random() < .15:
                        func = rng.choice([func.lower(), func.swapcase()])
                    lines.append('exten => s,{},{}'.format(
                        prio, rng.choice([
                            'NoOp(${{{}(1)}})', 'Set({}(1,2)=3)',
                            'NoOp($[${{{}()}}])', 'Set(x=${{{}(1):1}})',
                            'Set(HASH(a)=${{{}(${{EXTEN}})}})',
                            'GotoIf(${{{}(1)}}?1)',
                        ]).format(func)))
            root = 'c{}/'.format(number)
            configs.append({
                'kind': kind, 'root': root, 'name': 'x.conf',
                'files': {root + 'x.conf': (
                    '\n'.join(lines) + '\n').encode()}})
        steps = [{'op': 'complete', 'config': rng.randrange(len(configs))}
                 for _ in range(rng.randint(3, 8))]
        return {'configs': configs, 'steps': steps, 'functions': True}

    def observe_functions(self, case, data):
        configs, steps = data['configs'], data['steps']
        ret = self.zygote.run(history_, configs, steps)
        if ret.value is None:
            case.fail('history-failed', ret.err[-2500:])
            return
        results, text = ret.value
        # All steps are complete runs: one after another.
        texts, lines = [], []
        for line in text.split('\n')[0:-1]:
            if line[0:1] != '@':
                lines.append(line)
            elif line[-1] == '>':
                texts.append(lines)
                lines = []
        case.see('functions')
        loaded = []
        used = False
        fresh = {}
        for (number, description), got in zip(results, texts):
            kind = configs[number]['kind']
            case.stats['runs'] += 1
            first = tuple(loaded) if kind == 'dialplan' else ()
            if (first, number) not in fresh:
                ret = self.zygote.run(primed, configs, first, number)
                if ret.value is None:
                    case.fail('alone-failed', ret.err[-2500:])
                    return
                fresh[first, number] = ret.value
            want = fresh[first, number]
            case.stats['messages'] += len(got)
            if description != want[0]:
                case.fail('result:functions', '{} differs: {!r}'.format(
                    number, self.difference(want[0], description)))
            if got != want[1].split('\n')[0:-1]:
                case.fail(
                    'messages:functions',
                    'configuration {} after the functions of {}: a process '
                    'that did nothing else says\n{}here it says\n{}'.format(
                        number, first, want[1], '\n'.join(got)))
            if kind == 'odbc':
                if used:
                    case.see('functions-late')
                    case.nontrivial = True
                loaded.append(number)
            else:
                used = True

    def generate(self, rng, index):
        if rng.random() < .25:
            return self.functions(rng)
        configs = [self.config(rng, n) for n in range(rng.randint(2, 4))]
        if rng.random() < .4:
            for number in range(1, len(configs)):
                if rng.random() < .7:
                    configs[number] = self.version(
                        rng, configs[rng.randrange(number)])
        steps = [self.step(rng, configs, [
            'complete', 'complete', 'complete', 'aborted', 'abandoned',
            'nested', 'interleaved', 'delayed-walk'])
            for _ in range(rng.randint(2, 7))]
        if rng.random() < .03:
            # The same again and again.
            steps *= rng.choice([5, 12, 24])
        return {'configs': configs, 'steps': steps}

    def observe(self, case, data):
        if data.get('functions'):
            self.observe_functions(case, data)
            return
        configs, steps = data['configs'], data['steps']
        ret = self.zygote.run(history_, configs, steps)
        if ret.value is None:
            case.fail('history-failed', ret.err[-2500:])
            return
        results, text = ret.value
        for step in steps:
            case.see(step['op'])
        for config in configs:
            case.see(config['kind'])
        if len(set(i['root'] for i in configs)) < len(configs):
            case.see('version')

        # What every configuration gives on its own.
        fresh = []
        for config in configs:
            ret = self.zygote.run(alone, config)
            if ret.value is None:
                case.fail('alone-failed', ret.err[-2500:])
                return
            fresh.append(ret.value)

        # The results.
        seen = set()
        for number, description in results:
            case.stats['runs'] += 1
            if number in seen:
                case.see('repeated')
            seen.add(number)
            if description != fresh[number][0]:
                diff = self.difference(fresh[number][0], description)
                case.fail('result:' + configs[number]['kind'],
                          'configuration {} differs: fresh/here {!r}'.format(
                              number, diff))

        # The messages, in order.
        got = {}
        stack = []
        for line in text.split('\n')[0:-1]:
            if line[0:1] == '@':
                if line[-1] == '<':
                    stack.append(line[1:-1])
                else:
                    stack.pop()
            elif stack[-1] != 'x':
                got.setdefault(int(stack[-1]), []).append(line)
        times = {}
        for number, _ in results:
            times[number] = times.get(number, 0) + 1
        for number, config in enumerate(configs):
            want = fresh[number][1].split('\n')[0:-1]
            case.stats['messages'] += len(want)
            have = got.get(number, [])
            if want and len(seen) > 1:
                case.nontrivial = True
            # (Runs of the same file may alternate.)
            if sorted(have) != sorted(want * times.get(number, 0)):
                expected = want * times.get(number, 0)
                rest = list(have)
                missed = [i for i in expected
                          if i not in rest or rest.remove(i)]
                case.fail('messages:' + config['kind'],
                          'configuration {}: in {} runs, missed {!r}, '
                          'too many {!r}'.format(
                              number, times.get(number, 0), missed[0:3],
                              rest[0:3]))

    @staticmethod
    def difference(a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if x != y:
                    return Workload.difference(x, y)
        return a, b
