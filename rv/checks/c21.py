"""C21: the same input gives the same bytes in every environment."""
import os
import shutil
import sys

from .. import core, gen, server

PROPERTY = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the same command runs in processes with other '
             'hash seeds, locales, spellings of the working directory, '
             'shuffled directory listings and another Python implementation; '
             'standard output, standard error and exit status must have the '
             'same bytes')
RULE = ('Random dialplans, func_odbc files and user command directories with '
        'many names that go through unordered collections; non-trivial is a '
        'case that prints at least three lines.')
ASSUMPTIONS = [
    'Locales that Python treats as UTF-8 (C, POSIX, *.UTF-8, unknown ones); '
    'no PYTHONIOENCODING.',
    'Usage messages are not compared: they are made by the argparse of the '
    'Python implementation. Bytes that only some implementations know in '
    'cp1252 (81, 8d, 8f, 90, 9d) or take for white space everywhere (1c to '
    '1f) are not compared across implementations.',
]
LOCALES = [
    {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C'}, {'LANG': 'POSIX'}, {},
    {'LC_ALL': 'nl_NL.UTF-8'}, {'LANG': 'tr_TR', 'LC_CTYPE': 'C.UTF-8'},
]
NAMES = ['foo', 'Foo', 'FOO', 'fooo', 'foo1', 'foo2', 'fo', 'bar', 'baar',
         'Bar', 'barr', 'baz', 'ARG1', 'ARG2', 'ARG10', 'arg1', 'lbl', 'LBL',
         'lbl1', 'lbl2', 'caf\u00e9', 'cafe', 'CAFE', 'context', 'kontext',
         'contexts', 'x', 'X', 'y', 'destination', 'destinations',
         'Destination', 'desination']
ODD = ['Nosuch', 'NoSuch', 'Bogus', 'Zap', 'Foo', 'Dail', 'Hangupp', 'Qux',
       'AppX', 'AppY', 'AppZ', 'noop', 'NOOP', 'dial', 'Echoo']
FUNCS = ['FOO', 'BAR', 'BAZ', 'QUX', 'ODBC_A', 'ODBC_B', 'ODBC_C', 'MY_D',
         'CUTT', 'LENN', 'len', 'X1', 'X2', 'X3']
APPS = ['Answer', 'Hangup', 'Wait', 'Playback', 'Echo', 'Dial', 'Queue',
        'Record', 'MusicOnHold', 'Read', 'VoiceMail', 'MeetMe', 'Monitor',
        'MixMonitor', 'System', 'SendDTMF', 'Verbose', 'UserEvent', 'ChanSpy',
        'Directory', 'Progress', 'Ringing', 'Busy', 'Set', 'Park', 'Macro']
GOOD = ['LEN', 'CUT', 'CALLERID', 'CHANNEL', 'CDR', 'DB', 'ENV', 'HASH',
        'REGEX', 'STRFTIME', 'MD5', 'SHA1', 'RAND', 'SHELL', 'CURL', 'ENUMLOOKUP',
        'DEVICE_STATE', 'GROUP', 'ODBC', 'URIENCODE', 'VOLUME', 'MATH']
COMMANDS = ['dialplan-check', 'dialplan-show', 'func_odbc-check',
            'ident-scan', 'modules-show', 'ls', 'nosuch']


def plan(tier):
    return {'cases': 700 if tier == 'quick' else 10000,
            'min_events': {'runs': 2000, 'listings': 200, 'bytes': 100000},
            'kinds': tuple(COMMANDS) + ('cpython', 'pypy', 'symlink', 'pwd',
                                        'exit0', 'exit1') + tuple(
                ','.join('{}={}'.format(*i) for i in sorted(lc.items())) or
                'no-locale' for lc in LOCALES)}


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.dir = os.path.join(core.WORK, 'c21-{}'.format(os.getpid()))
        os.mkdir(self.dir)
        self.servers = {}

    def server(self, spec):
        key = (spec['python'], spec['hashseed'], spec['locale'])
        if key not in self.servers:
            env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent',
                   'PYTHONHASHSEED': str(spec['hashseed'])}
            env.update(LOCALES[spec['locale']])
            self.servers[key] = server.Server(
                '/usr/bin/pypy3' if spec['python'] == 'pypy' else
                sys.executable, env)
        return self.servers[key]

    def finish(self):
        for i in self.servers.values():
            i.close()
        shutil.rmtree(self.dir)
        return {'processes': len(self.servers)}

    def lines(self, rng):
        # In some files, many names differ in case only.
        cases = rng.random() < .3

        def choice(pool):
            name = rng.choice(pool[:3] if cases else pool)
            if cases:
                name = ''.join(rng.choice([i.lower(), i.upper()])
                               for i in name)
            return name

        lines = ['[general]', '[globals]']
        contexts = rng.sample(NAMES, rng.randint(1, 8))
        if cases:
            contexts = sorted(set(choice(NAMES) for _ in range(9)))
        for name in contexts:
            lines.append('[{}]'.format(name))
            for prio in range(1, rng.randint(2, 9)):
                label = ''
                if rng.random() < .3:
                    label = '({})'.format(choice(NAMES))
                kind = rng.random()
                if kind < .2:
                    app = '{}(x)'.format(choice(ODD))
                elif kind < .4:
                    app = '{}(x)'.format(rng.choice(APPS))
                elif kind < .6:
                    app = 'Set({}=${{{}}})'.format(
                        choice(NAMES), choice(NAMES))
                elif kind < .8:
                    app = 'NoOp(${{{}(x)}}${{{}(y)}})'.format(
                        choice(FUNCS), rng.choice(GOOD))
                elif kind < .9:
                    app = 'Goto({},s,{})'.format(
                        rng.choice(contexts + ['none']),
                        rng.choice(NAMES + ['1']))
                else:
                    app = 'VoiceMail(1,{})'.format(''.join(rng.choice(
                        'abcdefgsuUPzxyXq') for _ in range(rng.randint(1, 6))))
                lines.append('exten => {},{}{},{}'.format(
                    rng.choice(['s', '_X', '_1.', '1', '_[1-3]', '_N!']),
                    'n' if prio > 1 else 1, label, app))
            for _ in range(rng.choice([0, 0, 1, 2])):
                lines.append('include => {}'.format(rng.choice(contexts)))
        return lines

    def odbc(self, rng):
        lines = []
        for _ in range(rng.randint(0, 6)):
            lines.append('[{}]'.format(rng.choice('ABCDE')))
            lines += rng.sample(['readsql=x', 'dsn=y', 'writesql=x\\;',
                                 'prefix=MY', 'bogus=1', 'read=z', 'foo=1'],
                                rng.randint(0, 4))
        return lines

    def user(self, rng):
        "The user's own commands."
        ret = {}
        for name in rng.sample([
                'aa', 'zz', 'dialplan-check', 'my-cmd', 'a_b', 'ident-scan',
                'b9', '9b', '_x', 'Upper', 'two', 'three', 'four'],
                rng.randint(0, 8)):
            ret[name + '.py'] = rng.choice([
                '"Some text."\ndef main(args, envs):\n print(args)\n',
                'def main(args, envs): return 3\n', 'x = 1\n',
                'raise ValueError("nope")\n',
                '"""\nLong text ' + 'word ' * 40 + '\n"""\nmain = 1\n',
                '"""Caf\u00e9"""\ndef main(args, envs): pass\n'])
        return ret

    def generate(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([.1, .3]), unicode=.1)
        g.again = rng.choice([0, 0, 0, .3])
        files = g.spread(
            self.lines(rng) if rng.random() < .6 else g.dialplan_lines(),
            level=rng.choice([0, .5, 2]))
        g.spread(self.odbc(rng), level=rng.choice([0, 1]),
                 name='func_odbc.conf', files=files)
        if rng.random() < .3:
            del files['func_odbc.conf']
            files.setdefault('func_odbc.con', b'')
        command = COMMANDS[index % len(COMMANDS)]
        args = {'ident-scan': ['-v'], 'dialplan-show': rng.choice(
            [[], ['--reverse']])}.get(command, [])
        if command == 'func_odbc-check':
            args = ['func_odbc.conf'] if 'func_odbc.conf' in files else [
                'func_odbc.con']
        elif command != 'ls' and rng.random() < .7:
            args = args + ['extensions.conf']
        specs = [self.spec(rng, 'cpython', 0)]
        specs.append(self.spec(rng, 'cpython', rng.randrange(len(LOCALES))))
        specs.append(self.spec(rng, rng.choice(['cpython', 'pypy']),
                               rng.randrange(len(LOCALES))))
        if self.undecodable(files):
            for spec in specs:
                spec['python'] = 'cpython'
        return {'files': files, 'user': self.user(rng), 'specs': specs,
                'argv': [command] + args}

    @staticmethod
    def spec(rng, python, locale):
        # (A limited number of processes.)
        seed = locale * 100 + rng.choice([1, 2])
        if python == 'pypy':
            seed, locale = 5, locale % 2
        return {'python': python, 'locale': locale, 'hashseed': seed,
                'order': rng.randrange(1000),
                'cwd': rng.choice(['real', 'link', 'pwd'])}

    @staticmethod
    def undecodable(files):
        for data in files.values():
            if any(i in data for i in b'\x1c\x1d\x1e\x1f'):
                return True
            for line in data.split(b'\n'):
                try:
                    line.decode('utf-8')
                except UnicodeDecodeError:
                    if any(i in line for i in b'\x81\x8d\x8f\x90\x9d'):
                        return True
        return False

    def observe(self, case, data):
        real = os.path.join(self.dir, 'real')
        home = os.path.join(self.dir, 'home')
        commands = os.path.join(home, '.asterisklint/asterisklint/commands')
        os.makedirs(real)
        os.makedirs(commands)
        os.symlink('real', os.path.join(self.dir, 'link'))
        for name, content in data['files'].items():
            path = os.path.join(real, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        for name, content in data['user'].items():
            with open(os.path.join(commands, name), 'wb') as fp:
                fp.write(content.encode('utf-8'))
        try:
            self.compare(case, data, real, home)
        finally:
            shutil.rmtree(self.dir)
            os.mkdir(self.dir)

    def compare(self, case, data, real, home):
        case.see(data['argv'][0])
        base = None
        for spec in data['specs']:
            env = {'PATH': '/usr/bin:/bin', 'HOME': home,
                   'PYTHONHASHSEED': str(spec['hashseed'])}
            env.update(LOCALES[spec['locale']])
            cwd = real
            if spec['cwd'] != 'real':
                cwd = os.path.join(self.dir, 'link')
                case.see('symlink')
            if spec['cwd'] == 'pwd':
                env['PWD'] = cwd
                case.see('pwd')
            ret = self.server(spec).main(
                data['argv'], spec['order'], cwd=cwd, env=env)
            err = ret.err
            if 'Traceback' in err:
                # (A user command that fails. The interpreters differ.)
                err = err.rstrip('\n').split('\n')[-1]
            got = (ret.status, ret.out, err)
            case.stats['runs'] += 1
            case.stats['bytes'] += len(ret.out) + len(ret.err)
            case.stats['listings'] += getattr(ret.value, 'listings', 0)
            case.see(spec['python'], ','.join(
                '{}={}'.format(*i) for i in sorted(
                    LOCALES[spec['locale']].items())) or 'no-locale')
            if ret.status in (0, 1):
                case.see('exit{}'.format(ret.status))
            if base is None:
                base = got
                if (ret.out + ret.err).count('\n') >= 3:
                    case.nontrivial = True
                continue
            for what, a, b in zip(('status', 'stdout', 'stderr'), base, got):
                if a != b:
                    diff = (a, b)
                    if what != 'status':
                        alines, blines = a.split('\n'), b.split('\n')
                        diff = [(x, y) for x, y in zip(alines, blines)
                                if x != y][0:1] or (len(alines), len(blines))
                    case.fail(what, '{}: {!r} with {!r} and {!r}'.format(
                        ' '.join(data['argv']), diff, data['specs'][0], spec))
