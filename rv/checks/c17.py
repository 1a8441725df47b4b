"""C17: applications and functions are known by name; modules are exact."""
import os
import shutil

from .. import core, forked, gen, lint, magnify, model

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every name of a frozen catalogue of both '
             'Asterisk versions, and its misspellings, is used in a fresh '
             'process and the messages are compared; the modules-show output '
             'is parsed and compared with the modules of the names that occur '
             'in the text')
RULE = ('All names of both versions with all single letter case changes, '
        'other cases and one-edit misspellings (all of that is enumerated); '
        'modules-show on random dialplans; non-trivial is a case in which at '
        'least one name is wrong or a module is shown.')
ASSUMPTIONS = [
    'The catalogue was taken from the tree that the checks were written for, '
    'and corrected by hand; Unknown (application) and UNKNOWN (function) '
    'count as known names.',
]
ODBC = (b'[FOO]\nreadsql=SELECT 1\n[bar]\nprefix=My\nwritesql=x\n'
        b'[NOSQL]\ndsn=x\n')
ODBC_NAMES = ['ODBC_FOO', 'My_bar']


def all_names(kind):
    return sorted(set(model.CATALOGUE['v11'][kind]) |
                  set(model.CATALOGUE['v13'][kind]))


PAIRS = [(version, kind, name)
         for version in ('v11', 'v13') for kind in ('app', 'func')
         for name in all_names(kind) + ['Unknown', 'UNKNOWN', 'ODBC_FOO']]


def plan(tier):
    return {'cases': len(PAIRS) + (1500 if tier == 'quick' else 20000),
            'min_events': {'names': 5000, 'modules': 3000, 'shown': 1000},
            'kinds': ('E_APP_MISSING', 'W_APP_BAD_CASE', 'E_FUNC_MISSING',
                      'E_FUNC_BAD_CASE', 'unknowns', 'no-unknowns', 'odbc',
                      'v11', 'v13')}


def variants(name):
    ret = [name, name.lower(), name.upper(), name.title(), name.swapcase(),
           name.capitalize()]
    for i, ch in enumerate(name):
        ret.append(name[:i] + ch.swapcase() + name[i + 1:])
    ret += [name + 'x', 'x' + name, name[1:], name[:-1], name + '_',
            '_' + name, name + '1', name.replace('_', ''), name + name,
            name[::-1], name[:-1] + chr(ord(name[-1]) ^ 3)]
    done = []
    for i in ret:
        if i and i not in done and i == i.strip():
            done.append(i)
    return done


def run(version, files):
    if version != 'v13':
        from asterisklint.version import AsteriskVersion
        AsteriskVersion(version)
    observed = lint.dialplan(files)
    return [tuple(i) for i in observed.messages], observed.noise


class catalogue(object):
    "Let the model use this version."
    def __init__(self, version):
        self.version = version

    def __enter__(self):
        self.saved = model.APPS, model.FUNCS
        model.APPS, model.FUNCS = model.load_catalogue(self.version)

    def __exit__(self, *args):
        model.APPS, model.FUNCS = self.saved


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c17-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    def generate(self, rng, index):
        # All the names, with the others in between.
        if index % 2 == 0 and index // 2 < len(PAIRS):
            version, kind, name = PAIRS[index // 2]
            lines = ['[general]', '[globals]', '[a]']
            names = variants(name)
            rng.shuffle(names)
            for n, name in enumerate(names, 1):
                use = '{}()' if kind == 'app' else rng.choice([
                    'NoOp(${{{}(x)}})', 'Set({}(x)=1)', 'NoOp(${{{}(x):1}})'])
                lines.append('exten => s,{},{}'.format(n, use.format(name)))
            return {'version': version, 'kind': kind, 'names': len(names),
                    'files': {'extensions.conf': (
                        '\n'.join(lines) + '\n').encode('utf-8')}}
        g = gen.Gen(rng, bad=rng.choice([0, .05, .2]))
        g.again = rng.choice([0, 0, 0, .3])
        if rng.random() < .5:
            lines = g.dialplan_lines()
        else:
            apps = rng.sample(all_names('app'), rng.choice([1, 5, 30, 90]))
            funcs = rng.sample(all_names('func') + ODBC_NAMES,
                               rng.choice([1, 5, 30, 90]))
            apps += rng.sample(['NoSuch', 'dial', '', 'Zap', 'Zork',
                                'Unknown'], rng.choice([0, 0, 1, 3]))
            funcs += rng.sample(['NOSUCH', 'len', 'ZAP', 'odbc_foo', 'UNKNOWN',
                                 'ODBC_NOSQL'], rng.choice([0, 0, 1, 3]))
            lines = ['[a]']
            lines += ['exten => s,1,{}()'.format(i) for i in apps]
            lines += ['exten => s,1,NoOp(${{{}()}})'.format(i) for i in funcs]
        files = g.spread(lines, level=0)
        if rng.random() < magnify.share(.08):
            magnify.magnify(rng, files)
        odbc = rng.choice([None, 'auto', 'named', 'off'])
        if odbc in ('auto', 'off'):
            files['func_odbc.conf'] = ODBC
        elif odbc == 'named':
            files['odbc/o.conf'] = ODBC
        return {'files': files, 'odbc': odbc}

    def observe(self, case, data):
        if 'kind' in data:
            return self.names(case, data)
        return self.modules(case, data)

    def names(self, case, data):
        with catalogue(data['version']):
            m = model.DialplanModel(data['files'])
        ret = self.zygote.run(run, data['version'], data['files'])
        if ret.value is None:
            case.fail('failed', ret.err[-2000:])
            return
        messages, noise = ret.value
        case.see(data['version'])
        case.stats['names'] += data['names']
        codes = ('E_APP_MISSING', 'W_APP_BAD_CASE', 'E_FUNC_MISSING',
                 'E_FUNC_BAD_CASE')
        got = [lint.Full(*i).msg for i in messages]
        if not lint.compare(case, data['version'], m.msgs, got, codes):
            lines = data['files']['extensions.conf'].split(b'\n')
            for msg in sorted(set(m.msgs) ^ set(got))[0:5]:
                case.fail(case.failures[0][0], '{} {}: {!r}'.format(
                    data['version'], msg, lines[msg.line - 1]))
        case.nontrivial = True
        # The message names the proper spelling.
        lines = data['files']['extensions.conf'].decode().split('\n')
        proper = {k.lower(): k for k in model.CATALOGUE[
            data['version']][data['kind']]}
        for i in messages:
            i = lint.Full(*i)
            if i.code in ('W_APP_BAD_CASE', 'E_FUNC_BAD_CASE'):
                names = [v for k, v in proper.items()
                         if k in lines[i.line - 1].lower()]
                if not any(repr(name) in i.text or (
                        name == 'Background' and "'BackGround'" in i.text)
                        for name in names):
                    case.fail('spelling', '{!r} for {!r}'.format(
                        i.text, lines[i.line - 1]))

    def modules(self, case, data):
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        args = {'named': ['--func-odbc', 'odbc/o.conf'],
                'off': ['--func-odbc='], 'auto': [], None: []}[data['odbc']]
        try:
            ret = self.zygote.main(
                ['modules-show'] + args + ['extensions.conf'], cwd=self.dir)
        finally:
            shutil.rmtree(self.dir)
            os.mkdir(self.dir)
        case.stats['shown'] += 1
        state = {}
        funcs = dict(model.FUNCS)
        odbc = data['odbc'] in ('auto', 'named')
        if odbc:
            case.see('odbc')
            funcs.update({i.lower(): i for i in ODBC_NAMES})
        model.DialplanModel(data['files'], funcs=funcs, state=state)
        want = {'Application': {}, 'Function': {}}
        for what, names, kind in (
                ('Application', state.get('apps', ()), 'app'),
                ('Function', state.get('funcs', ()), 'func')):
            for name in names:
                module = model.CATALOGUE['v13'][kind].get(name, 'func_odbc')
                if name == 'Background':
                    name = state.get('background') or name
                want[what].setdefault(module, set()).add(name)
        modules = sorted((set(want['Application']) | set(want['Function'])) -
                         {'<builtin>'})
        unknown_apps = state.get('unknown_apps', set())
        unknown_funcs = state.get('unknown_funcs', set())
        case.stats['modules'] += len(modules)
        case.nontrivial = bool(modules)

        got, loads, unknown = self.parse(case, ret.out)
        if got != want:
            for what in want:
                for module in sorted(
                        set(want[what]) | set(got.get(what, {}))):
                    a = want[what].get(module)
                    b = got.get(what, {}).get(module)
                    if a != b:
                        case.fail('used', '{} {}: shows {!r} instead of '
                                  '{!r}'.format(what, module, b, a))
                        break
        if loads != modules:
            case.fail('load', 'loads {!r} instead of {!r}'.format(
                loads, modules))
        if unknown != tuple(
                ', '.join(sorted(i)) for i in (unknown_apps, unknown_funcs)):
            case.fail('unknown', 'unknown are {!r} instead of {!r}'.format(
                unknown, (unknown_apps, unknown_funcs)))
        status = int(bool(unknown_apps or unknown_funcs))
        case.see('unknowns' if status else 'no-unknowns')
        if ret.status != status:
            case.fail('status', 'exit status {} instead of {}: {}'.format(
                ret.status, status, ret.err[-1500:]))

    @staticmethod
    def parse(case, out):
        got = {'Application': {}, 'Function': {}}
        loads = []
        unknown = {'applications': '', 'functions': ''}
        where = what = module = None
        for line in out.split('\n'):
            if line in ('', ';'):
                continue
            if line.endswith(' providing modules used:'):
                where, what = 'used', line[2:].split()[0]
            elif line == '; modules.conf':
                where = 'load'
            elif line.startswith('; WARNING: The following unknown '):
                where, what = 'unknown', line.split()[5]
            elif where == 'used' and line.startswith(';   '):
                if line[4] != ' ':
                    module, _, line = line[4:].partition(' ')
                    if module in got[what]:
                        case.fail('module-twice', repr(module))
                else:
                    line = line[4:]
                for item in line.split(','):
                    item = item.strip()
                    if not item:
                        continue
                    names = got[what].setdefault(module, set())
                    if not item.endswith('()') or item[0:-2] in names:
                        case.fail('item', '{!r} in {!r}'.format(item, out))
                    names.add(item[0:-2])
            elif where == 'load' and line.startswith(
                    'load => ') and line.endswith('.so'):
                loads.append(line[8:-3])
            elif where == 'unknown' and line.startswith(';   '):
                unknown[what] = line[4:]
            else:
                case.fail('line', 'unexpected line {!r}'.format(line))
        return got, loads, (unknown['applications'], unknown['functions'])


__all__ = ['gen']
