"""C26: command dispatch, overrides and bad usage."""
import os
import re
import runpy
import shutil
import sys

from .. import core, forked, tools

PROPERTY = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the real entry script runs in directories with '
             'generated user commands that report who they are, what they got '
             'and exit with a generated status; compared with a model of the '
             'dispatch; input files are made missing or unreadable')
RULE = ('Random user command directories (overrides, broken, without '
        'entrypoint, exiting, oddly named files and directories, more '
        'directories on the python path) with random command lines, "ls", bad '
        'usage and bad input files; non-trivial is a case with a user '
        'command or an unusable file.')
ASSUMPTIONS = [
    'There is no user command called ls. Other directories on the python '
    'path have no commands with the names of the built-in ones.',
    'Where a file is unreadable, a traceback is a report too.',
]
BUILTIN = ['dialplan-check', 'dialplan-show', 'func_odbc-annotate',
           'func_odbc-check', 'ident-scan', 'modules-show']
OWN = ['foo', 'bar', 'a', '0day', 'x-y', 'under_score', 'zzz', 'check', 'main',
       'a-very-long-name-for-a-command', 'ls2', 'l', 'sys', 'os', 'argparse']
ODD = ['Foo', '_private', '-dash', 'with space', 'dot.ted', '__init__', 'FOO',
       'caf\u00e9', 'x+y', '']
KINDS = ['ok', 'ok', 'ok', 'ok', 'no-doc', 'class', 'exits', 'raises',
         'no-main', 'syntax', 'import', 'exit-at-import', 'directory',
         'dangling', 'link']
STATUS = [0, 1, 2, 3, 7, 42, 100, 126, 127, 128, 200, 255, None, True, False]
ARGS = ['--', '-v', '-h', '--help', 'x', '', ' ', 'a b', '-', '--func-odbc',
        '--func-odbc=', 'extensions.conf', '\u00e9', '-V', '--version', 'ls',
        '\n', '*', '$x', '-1', '--=', "'", '\\', '-vv', 'foo', 'dialplan-check']
NEAR = ['home', 'home/.asterisklint-old', 'home/.asterisklint/',
        'home/.asterisklint/asterisklint', 'home/.asterisklint/asterisklint/'
        'commands', 'home/.asterisklint.d', 'home/.aster', 'none/.asterisklint',
        'home/x/.asterisklint', 'cwd', '.', '']
FILES = ['missing', 'no-dir', 'directory', 'loop', 'dangling', 'not-a-dir',
         'too-long', 'no-permission', 'read-error', 'default', 'odbc-missing',
         'odbc-unreadable', 'empty-name']


def plan(tier):
    return {'cases': 3600 if tier == 'quick' else 40000,
            'min_events': {'runs': 3000, 'commands_listed': 3000,
                           'user_runs': 500},
            'kinds': tuple('run-' + i for i in set(KINDS)) + tuple(
                'file-' + i for i in FILES) + (
                    'ls', 'override', 'unknown', 'odd', 'bad-usage', 'help',
                    'no-command', 'version', 'options-first', 'no-home',
                    'extra-path', 'exit-passed', 'near-path')}


def script(argv, extra, uid=None):
    path = os.path.join(core.REPO, 'scripts', 'asterisklint')
    sys.argv = [path] + argv
    sys.path[:] = [os.path.dirname(path)] + extra + [
        i for i in sys.path if i not in (core.REPO, core.VERIF, '')]
    if uid:
        os.setgid(uid)
        os.setuid(uid)
    runpy.run_path(path, run_name='__main__')


class Workload(object):
    def __init__(self, tier, worker):
        tools.preload()
        import asterisklint.func_odbc  # noqa
        import asterisklint.main  # noqa
        import asterisklint.mainutil  # noqa
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c26-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    # generating

    def doc(self, rng):
        words = [rng.choice([
            'Report', 'the', 'things', 'a', 'that-are-hyphenated', 'x' * 30,
            'x' * 90, "don't", '"quoted"', 'caf\u00e9', '{braces}', '%s',
            "'extensions.conf'", '(parens)', 'command']) for _ in range(
                rng.choice([1, 3, 10, 30]))]
        return rng.choice(['', ' ', '\n']) + rng.choice(
            [' ', '\n', '  ']).join(words) + rng.choice(['', '\n', '  \n'])

    def commands(self, rng, names):
        ret = {}
        for name in names:
            ret[name] = {'kind': rng.choice(KINDS), 'doc': self.doc(rng),
                         'status': rng.choice(STATUS)}
        return ret

    def args(self, rng):
        return [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 5]))]

    def generate(self, rng, index):
        names = rng.sample(OWN + BUILTIN, rng.choice([0, 1, 2, 4, 8]))
        odd = rng.sample(ODD, rng.choice([0, 0, 1, 3]))
        extra = []
        if rng.random() < .2:
            extra = rng.sample(OWN, rng.choice([1, 3, 6]))
        data = {'user': self.commands(rng, names + odd),
                'extra': self.commands(rng, extra),
                'init': rng.random() < .3, 'more': rng.random() < .3,
                'home': rng.choice(['yes'] * 6 + ['no', 'empty', 'file'])}
        if rng.random() < .25:
            # These are on the python path too.
            data['near'] = rng.sample(NEAR, rng.choice([1, 1, 2]))
        action = index % 6
        if action == 0:
            data['argv'] = ['ls']
        elif action in (1, 2, 3) and names:
            name = rng.choice(names)
            before = [i for i in self.args(rng) if i.startswith('-')]
            data['argv'] = before + [name] + self.args(rng)
        elif action == 4:
            data['argv'] = self.usage(rng, odd)
            data['usage'] = True
        else:
            data['file'] = [rng.choice(FILES), rng.choice(BUILTIN)]
        if 'argv' not in data and 'file' not in data:
            data['argv'] = [rng.choice(OWN)] + self.args(rng)
        return data

    def usage(self, rng, odd):
        "Without a valid command or with bad arguments."
        name = rng.choice(BUILTIN)
        dice = rng.random()
        if dice < .2:
            return [rng.choice(['nosuch', 'Ls', 'dialplan', 'dialplan_check',
                                'dialplan-checks', 'func_odbc', 'dialplan-'])
                    ] + self.args(rng)
        if dice < .4:
            return [rng.choice(odd + [
                '../x', '/bin/ls', './foo', 'foo/bar', '.', '..', '',
                'foo.py', 'dialplan-check.py', 'DIALPLAN-CHECK', '__init__',
                '../commands/dialplan-check', ' dialplan-check', 'a\nb',
                'dialplan-check '])] + self.args(rng)
        if dice < .55:
            return rng.choice([[], ['-V'], ['--version'], ['-h'], ['--help'],
                               ['--bogus'], ['-x'], ['-'], ['--']])
        if dice < .7:
            return [name, rng.choice(['-h', '--help'])]
        return [name] + rng.choice([
            ['--bogus'], ['-x'], ['a', 'b'], ['a', 'b', 'c'],
            ['--func-odbc'], ['--bogus=1', 'a'], ['-Z'],
            ['--func-odbc=a', '--func-odbc=b'], ['--func-odbc', 'a',
                                                 '--func-odbc', 'a']])

    # writing

    def source(self, directory, name, spec):
        tag = '{}/{}'.format(directory, name)
        doc = '' if spec['kind'] == 'no-doc' else '{!r}\n'.format(spec['doc'])
        body = {
            'syntax': 'def main(:\n',
            'import': 'import no_such_module_at_all\ndef main(a, e): pass\n',
            'exit-at-import': 'raise SystemExit("needs something")\n',
            'no-main': 'def Main(args, envs):\n    return 0\n'}.get(
                spec['kind'])
        if body is None:
            report = ('    print(repr((\'RAN\', {!r}, args, '
                      'envs.get("MARK"))))\n'.format(tag))
            end = '    return {!r}\n'.format(spec['status'])
            if spec['kind'] == 'exits':
                end = '    raise SystemExit({!r})\n'.format(spec['status'])
            if spec['kind'] == 'raises':
                end = '    raise ValueError("as it should")\n'
            if spec['kind'] == 'class':
                body = (
                    'from asterisklint.mainutil import MainBase\n'
                    'class Main(MainBase):\n'
                    '  def __call__(self, args, envs):\n  {}  {}'
                    'main = Main()\n'.format(report, end))
            else:
                body = 'def main(args, envs):\n{}{}'.format(report, end)
        return doc + body

    def write(self, data):
        shutil.rmtree(self.dir)
        os.makedirs(os.path.join(self.dir, 'cwd'))
        places = [('extra', 'extra')]
        if data['home'] == 'yes':
            places.append(('user', 'home/.asterisklint'))
        elif data['home'] == 'empty':
            os.makedirs(os.path.join(self.dir, 'home/.asterisklint'))
        elif data['home'] == 'file':
            os.makedirs(os.path.join(self.dir, 'home'))
            with open(os.path.join(
                    self.dir, 'home/.asterisklint'), 'w') as fp:
                fp.write('x')
        for key, place in places:
            if key == 'extra' and not data['extra']:
                continue
            top = os.path.join(self.dir, place, 'asterisklint', 'commands')
            os.makedirs(top)
            if data['init'] and '__init__' not in data[key]:
                for i in (top, os.path.dirname(top)):
                    with open(os.path.join(i, '__init__.py'), 'w'):
                        pass
            for name, spec in data[key].items():
                path = os.path.join(top, name + '.py')
                kind = spec['kind']
                if kind == 'directory':
                    os.mkdir(path)
                elif kind == 'dangling':
                    os.symlink('nowhere', path)
                else:
                    real = path
                    if kind == 'link':
                        real = os.path.join(
                            self.dir, '{}-{}'.format(key, name))
                        os.symlink(real, path)
                    with open(real, 'w', encoding='utf-8') as fp:
                        fp.write(self.source(key, name, spec))
            if data['more']:
                # Not commands.
                for i in ('README.txt', 'foo.pyc', 'x.py~', '.hidden.py',
                          'noext', 'nosuch.PY'):
                    with open(os.path.join(top, i), 'w') as fp:
                        fp.write('raise SystemExit(99)\n')
                os.makedirs(os.path.join(top, '__pycache__'))

    # the model

    def model(self, data):
        "{name: (directory, spec or None)}"
        ret = {}
        places = [('builtin', os.path.join(core.REPO))]
        if data['extra']:
            places.append(('extra', os.path.join(self.dir, 'extra')))
        if data['home'] == 'yes':
            places.insert(0, ('user', os.path.join(
                self.dir, 'home/.asterisklint')))
        for key, place in places:
            specs = ({i: None for i in BUILTIN} if key == 'builtin' else
                     data[key])
            for name, spec in specs.items():
                if not re.match(r'[a-z0-9][a-z0-9_-]*\Z', name):
                    continue
                if spec and spec['kind'] in ('directory', 'dangling'):
                    continue
                ret.setdefault(name, (key, os.path.join(
                    place, 'asterisklint', 'commands'), spec))
        return ret

    # observing

    def run(self, case, data, argv, cwd='cwd', uid=None):
        env = {'PATH': os.environ['PATH'], 'MARK': 'mark'}
        if data['home'] != 'no':
            env['HOME'] = os.path.join(self.dir, 'home')
        extra = [os.path.join(core.VERIF, 'rv', 'stubs')]
        if data['extra']:
            case.see('extra-path')
            extra.append(os.path.join(self.dir, 'extra'))
        for i in data.get('near', ()):
            case.see('near-path')
            extra.append(os.path.join(self.dir, i) if '/' in i else i)
        case.stats['runs'] += 1
        return self.zygote.run(
            script, argv, extra, uid, cwd=os.path.join(self.dir, cwd),
            env=env)

    def observe(self, case, data):
        self.write(data)
        if data['home'] == 'no':
            case.see('no-home')
        if 'file' in data:
            self.files(case, data)
            return
        argv = data['argv']
        known = self.model(data)
        names = [i for i in argv if not i.startswith('-')]
        name = names[0] if names else None
        ret = self.run(case, data, argv)
        what = ' '.join(repr(i) for i in argv)
        if ret.hung:
            case.fail('hung', what)
        elif name == 'ls':
            self.ls(case, data, known, ret)
        elif name is None:
            self.no_command(case, argv, ret)
        elif name not in known:
            if name in data['user'] or name in data['extra']:
                for i in (data['user'], data['extra']):
                    if name in i and name not in ODD:
                        case.see('run-' + i[name]['kind'])
            case.see('odd' if not re.match(
                r'[a-z0-9][a-z0-9_-]*\Z', name) else 'unknown')
            if ret.status <= 0 or not ret.err.strip() or ret.out:
                case.fail('unknown', '{}: exit {}, {!r}, {!r}'.format(
                    what, ret.status, ret.out[0:200], ret.err[0:200]))
            elif 'Traceback' in ret.err:
                case.fail('unknown-traceback', '{}: {}'.format(
                    what, ret.err[-500:]))
        elif known[name][2] is None:
            self.builtin(case, name, argv, ret, data.get('usage'))
        else:
            self.user(case, data, known, name, argv, ret)

    def user(self, case, data, known, name, argv, ret):
        case.nontrivial = True
        case.stats['user_runs'] += 1
        place, _, spec = known[name]
        kind = spec['kind']
        case.see('run-' + kind)
        what = '{} ({})'.format(' '.join(repr(i) for i in argv), kind)
        if kind in ('syntax', 'import', 'exit-at-import', 'no-main'):
            if ret.status <= 0 or not ret.err.strip() or ret.out:
                case.fail('broken', '{}: exit {}, {!r}, {!r}'.format(
                    what, ret.status, ret.out[0:200], ret.err[0:200]))
            return
        args = list(argv)
        args.remove(name)
        if argv[0] != name:
            case.see('options-first')
        want = repr(('RAN', '{}/{}'.format(place, name), args, 'mark')) + '\n'
        if ret.out != want:
            case.fail('arguments', '{}: want {!r}, got {!r}, {!r}'.format(
                what, want, ret.out[0:300], ret.err[-300:]))
            return
        if name in BUILTIN:
            case.see('override')
        status = int(spec['status'] or 0)
        if kind == 'raises':
            status = 1
        elif status > 1:
            case.see('exit-passed')
        if ret.status != status:
            case.fail('status', '{}: want exit {}, got {}'.format(
                what, status, ret.status))
        if kind != 'raises' and ret.err:
            case.fail('noise', '{}: {!r}'.format(what, ret.err[0:300]))

    def builtin(self, case, name, argv, ret, usage):
        rest = list(argv)
        rest.remove(name)
        what = ' '.join(repr(i) for i in argv)
        if rest in (['-h'], ['--help']):
            case.see('help')
            if ret.status or ret.err or 'usage: asterisklint {} '.format(
                    name) not in ret.out:
                case.fail('help', '{}: exit {}, {!r}, {!r}'.format(
                    what, ret.status, ret.out[0:200], ret.err[0:200]))
            return
        if not usage:
            # (The override with these arguments cannot be run.)
            return
        case.see('bad-usage')
        if ret.status <= 0 or not ret.err.strip():
            case.fail('bad-usage', '{}: exit {}, {!r}, {!r}'.format(
                what, ret.status, ret.out[0:200], ret.err[0:200]))

    def no_command(self, case, argv, ret):
        what = ' '.join(repr(i) for i in argv)
        case.see('no-command')
        if argv in (['-V'], ['--version']):
            case.see('version')
            good = not ret.status and re.match(
                r'asterisklint \d', ret.out) and not ret.err
        elif argv in (['-h'], ['--help']):
            good = (not ret.status and ret.out.startswith('usage:') and
                    not ret.err)
        elif set(argv) & set(['-V', '--version', '-h', '--help']):
            return
        else:
            good = ret.status > 0 and ret.err.strip() and not ret.out
        if not good:
            case.fail('no-command', '{}: exit {}, {!r}, {!r}'.format(
                what, ret.status, ret.out[0:200], ret.err[0:200]))

    def ls(self, case, data, known, ret):
        case.see('ls')
        case.nontrivial = len(known) > len(BUILTIN)
        if ret.status or ret.err:
            case.fail('ls', 'exit {}: {!r}'.format(
                ret.status, ret.err[-500:]))
            return
        where = None
        listed = {}
        last = None
        for line in ret.out.split('\n'):
            if line.startswith(' ' * 24):
                listed[last][1].append(line)
            elif line.startswith('  '):
                match = re.match(r'  (\S+)\s*(.*)\Z', line)
                last = match.group(1)
                if last in listed:
                    case.fail('ls-twice', '{} is listed twice'.format(last))
                    return
                listed[last] = (where, [match.group(2)])
            elif line.endswith(':'):
                where = line[0:-1]
        if listed.pop('ls', (None,))[0] != 'builtin':
            case.fail('ls-ls', 'ls is not listed')
        case.stats['commands_listed'] += len(listed)
        if set(listed) != set(known):
            case.fail('ls-names', 'not listed: {!r}, no commands: {!r}'.format(
                sorted(set(known) - set(listed)),
                sorted(set(listed) - set(known))))
            return
        order = list(listed)
        if order != sorted(order, key=(lambda x: (listed[x][0], x))):
            case.fail('ls-order', repr(order))
        for name, (key, directory, spec) in sorted(known.items()):
            where, desc = listed[name]
            if os.path.realpath(where) != os.path.realpath(directory):
                case.fail('ls-where', '{}: listed in {!r}, is in {!r}'.format(
                    name, where, directory))
            words = ' '.join(desc).split()
            if spec is None:
                good = len(words) > 2
            elif spec['kind'] in ('syntax', 'import', 'no-main',
                                  'exit-at-import'):
                good = words[0] == '(error:'
            elif spec['kind'] == 'no-doc':
                good = bool(words)
            else:
                good = words == spec['doc'].split()
            if not good:
                case.fail('ls-text', '{} {!r}: {!r}'.format(
                    name, spec, desc))

    # files that cannot be read

    def files(self, case, data):
        how, command = data['file']
        case.see('file-' + how)
        case.nontrivial = True
        cwd = os.path.join(self.dir, 'cwd')
        good = os.path.join(cwd, 'good.conf')
        with open(good, 'w') as fp:
            fp.write('[general]\n[globals]\n')
        uid = None
        more = []
        name = {
            'missing': 'missing.conf', 'no-dir': 'no/such.conf',
            'directory': 'dir', 'loop': 'loop.conf', 'dangling': 'dang.conf',
            'not-a-dir': 'good.conf/x.conf', 'too-long': 'x' * 300,
            'no-permission': 'secret.conf', 'read-error': '/proc/self/mem',
            'default': None, 'odbc-missing': 'good.conf',
            'odbc-unreadable': 'good.conf', 'empty-name': ''}[how]
        os.mkdir(os.path.join(cwd, 'dir'))
        os.symlink('loop.conf', os.path.join(cwd, 'loop.conf'))
        os.symlink('gone.conf', os.path.join(cwd, 'dang.conf'))
        if how == 'no-permission':
            path = os.path.join(cwd, name)
            with open(path, 'w') as fp:
                fp.write('[general]\n[globals]\n')
            os.chmod(path, 0)
            uid = 65534
        if how.startswith('odbc-'):
            command = ('dialplan-check' if 'check' in command else
                       'modules-show')
            if how == 'odbc-missing':
                more = ['--func-odbc', 'missing.conf']
            else:
                os.mkdir(os.path.join(cwd, 'func_odbc.conf'))
        argv = [command] + more + ([] if name is None else [name])
        if data['home'] == 'yes' and command in data['user']:
            # Not the one that we want to see.
            data = dict(data, home='no')
        ret = self.run(case, data, argv, uid=uid)
        if ret.status <= 0 or not ret.err.strip():
            case.fail('unreadable', '{} ({}): exit {}, {!r}, {!r}'.format(
                ' '.join(repr(i) for i in argv), how, ret.status,
                ret.out[0:200], ret.err[-300:]))
