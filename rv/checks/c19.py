"""C19: func_odbc.conf is checked exactly; its functions become known."""
import os
import shutil

from .. import core, forked, gen, lint, magnify, model

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: a separate reader of func_odbc.conf predicts '
             'the messages, the settings and the names of the functions; '
             'commands in fresh processes are watched for the file that they '
             'take and for the functions that the dialplan may use')
RULE = ('Random func_odbc files (keys in all orders, repeated, unknown, with '
        'arrows; odd names and prefixes; spread over included files) with '
        'dialplans that use their functions; beside the dialplan, named, '
        'disabled, missing; non-trivial is a case with a message or with a '
        'function that is used.')
ASSUMPTIONS = [
    'Function names in two spellings that differ in case only: the last one '
    'counts, as in the code.',
]
VALUES = ['SELECT 1', 'x', '', 'SELECT ${SQL_ESC(${ARG1})}', 'a\\;', ';c',
          'a,b', 'x\\;\\;', 'UPDATE t SET a=1', '"q"', 'yes', '5', '[x]',
          'a\\; ', '=> x', '> y', '\u00e9\\;']
SECTIONS = ['FOO', 'BAR', 'A_B', 'ABC9', '9', 'foo', 'Foo', '_A', 'A_', 'A__B',
            'A-B', 'A B', '', '\u00c9', 'GENERAL', 'general', 'ISLOCAL',
            'A_B_C', 'fOO', '\u0661', 'F!', '1_2', 'X', 'globals']
PREFIXES = ['MY', 'my', '', 'ODBC', 'A_B', 'P']
CODES = ('E_CONF_KEY_INVALID', 'E_CONF_KEY_DUPE', 'W_CONF_KEY_LATE',
         'W_ODBC_BADTOKENS', 'W_ODBC_LEGACY', 'W_ODBC_TAILSEMI',
         'E_ODBC_NOSQL', 'H_CONF_HAS_ARROW', 'E_CONF_CTX_MISSING')


def plan(tier):
    return {'cases': 10000 if tier == 'quick' else 120000,
            'min_events': {'messages': 10000, 'functions': 10000,
                           'settings': 10000, 'commands': 1000, 'used': 300},
            'kinds': CODES + (
                'auto', 'named', 'both', 'off', 'absent', 'subdir',
                'known', 'unknown', 'wrong-case', 'odbc-check')}


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c19-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    def odbc_lines(self, rng, tidy):
        lines = []
        if rng.random() < .05:
            lines.append('dsn=early')
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            name = rng.choice(SECTIONS[0:5] if tidy else SECTIONS)
            lines.append('[{}]'.format(name))
            keys = rng.sample(model.ODBC_KEYS, rng.randint(
                0, len(model.ODBC_KEYS)) if rng.random() < .3 else
                rng.randint(0, 4))
            if rng.random() < .6:
                keys.sort(key=model.ODBC_KEYS.index)
            if rng.random() < .5:
                keys.append(rng.choice(['readsql', 'writesql', 'read']))
            if not tidy:
                if rng.random() < .2:
                    keys.insert(rng.randint(0, len(keys)), rng.choice(
                        ['bogus', 'ReadSQL', 'readSql', 'sql', 'prefix ',
                         'syntax', '', 'Read', 'insert', 'mode2']))
                if rng.random() < .2 and keys:
                    keys.insert(rng.randint(0, len(keys)), rng.choice(keys))
            for key in keys:
                value = rng.choice(VALUES)
                if key == 'prefix':
                    value = rng.choice(PREFIXES)
                lines.append('{}{}{}'.format(
                    key, '=' if tidy or rng.random() < .9 else ' => ', value))
        if not tidy and rng.random() < .1:
            lines.insert(rng.randint(0, len(lines)), 'a bad line')
        return lines

    def generate(self, rng, index):
        g = gen.Gen(rng)
        g.again = rng.choice([0, 0, 0, .3])
        tidy = rng.random() < .3
        lines = self.odbc_lines(rng, tidy)
        if index % 7:
            files = self.spread(
                g, rng, lines, 'func_odbc.conf', rng.choice([0, .5, 1.5]))
            if rng.random() < magnify.share(.05):
                magnify.magnify(rng, files)
            return {'kind': 'read', 'files': files}
        mode = rng.choice(['auto', 'auto', 'named', 'both', 'off', 'absent',
                           'odbc-check'])
        directory = rng.choice(['', '', 'sub/', './', 'sub/../'])
        data = {'kind': mode, 'directory': directory, 'files': {},
                'tool': rng.choice(['dialplan-check', 'modules-show']),
                'arg': None}
        real = os.path.normpath(directory) + '/' if directory == (
            'sub/') else ''
        level = rng.choice([0, 0, .5])
        if mode in ('auto', 'both', 'off', 'odbc-check'):
            data['files'][real + 'func_odbc.conf'] = g.layout(lines, level)
        if mode in ('named', 'both'):
            name = rng.choice(['o.conf', 'sub/p.conf', 'func.conf'])
            if mode == 'both':
                lines = self.odbc_lines(rng, tidy)
            data['files'][name] = g.layout(lines, level)
            data['arg'] = name
        if mode == 'off':
            data['arg'] = ''
        if 'sub' in directory and not any(
                i.startswith('sub/') for i in data['files']):
            data['files']['sub/empty'] = b''
        data['files'][real + 'extensions.conf'] = self.dialplan(rng, g, data)
        return data

    def spread(self, g, rng, lines, name, level):
        return g.spread(lines, level=level, name=name)

    def dialplan(self, rng, g, data):
        names = set()
        for name, content in data['files'].items():
            m = model.OdbcModel({name: content}, name)
            names.update(f['name_full'] for f in m.functions)
        names = sorted(names) + ['ODBC_FOO', 'ODBC_NONE', 'LEN', 'MY_FOO']
        lines = ['[general]', '[globals]', '[a]']
        for n in range(1, rng.randint(2, 8)):
            name = rng.choice(names)
            if rng.random() < .15:
                name = rng.choice([name.lower(), name.upper(), name + 'X',
                                   name[1:], name.swapcase()])
            lines.append('exten => s,{},{}'.format(n, rng.choice([
                'NoOp(${{{}(x)}})', 'Set({}(a)=1)', 'Set(HASH(x)=${{{}(1)}})',
                'ExecIf(${{{}(1)}}?NoOp())']).format(name)))
        return g.layout(lines, 0)

    def observe(self, case, data):
        if data['kind'] == 'read':
            self.read(case, data)
        else:
            self.command(case, data)

    def read(self, case, data):
        observed = lint.odbc(data['files'])
        m = model.OdbcModel(data['files'])
        for noise in observed.noise:
            case.fail('noise', noise)
        lint.compare(case, 'func_odbc.conf', m.msgs, observed.msgs)
        case.nontrivial = bool(observed.messages)
        want = [(f['name'], f['where'][0], f['where'][1], f['name_full'],
                 f['keys']) for f in m.functions]
        got = [(f.name, f.where.filename, f.where.lineno,
                f.get_function_name(), [(v.variable, v.value) for v in f])
               for f in observed.functions]
        case.stats['functions'] += len(want)
        case.stats['settings'] += sum(len(i[4]) for i in want)
        if want != got:
            diff = [(a, b) for a, b in zip(want, got) if a != b][0:1] or (
                len(want), len(got))
            case.fail('sections', 'want/got {!r}'.format(diff))

    def command(self, case, data):
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        case.see(data['kind'])
        args = [data['tool']]
        if data['kind'] == 'odbc-check':
            args = ['func_odbc-check', data['directory'] + 'func_odbc.conf']
        else:
            if data['arg'] is not None:
                args.append('--func-odbc={}'.format(data['arg']))
            args.append(data['directory'] + 'extensions.conf')
            if data['directory'] and data['kind'] == 'auto':
                case.see('subdir')
        try:
            ret = self.zygote.main(args, cwd=self.dir)
        finally:
            shutil.rmtree(self.dir)
            os.mkdir(self.dir)
        case.stats['commands'] += 1
        if 'Traceback' in ret.err:
            case.fail('traceback', ret.err[-1500:])
            return

        # Which file applies?
        directory = data['directory']
        if data['kind'] in ('auto', 'odbc-check'):
            name = directory + 'func_odbc.conf'
        else:
            name = data['arg']
        msgs, funcs = [], dict(model.FUNCS)
        if name:
            m = model.OdbcModel(data['files'], name)
            msgs += m.msgs
            funcs.update(m.names)
        state = {}
        if data['kind'] != 'odbc-check':
            d = model.DialplanModel(
                data['files'], directory + 'extensions.conf', funcs, state)
            d.walk()
            msgs += d.msgs
        for i in (state.get('funcs', ())):
            if i not in model.FUNCS.values():
                case.see('known')
                case.stats['used'] += 1
                case.nontrivial = True
        if any(i.code == 'E_FUNC_MISSING' for i in msgs):
            case.see('unknown')
        if any(i.code == 'E_FUNC_BAD_CASE' for i in msgs):
            case.see('wrong-case')

        what = ' '.join(args)
        if args[0] == 'modules-show':
            missing = sorted(state.get('unknown_funcs', ()))
            status = int(bool(missing))
            got = ret.out.partition('unknown functions were seen:\n;   ')[
                2].split('\n')[0]
            if got != ', '.join(missing):
                case.fail('modules-unknown', '{}: unknown functions {!r} '
                          'instead of {!r}'.format(what, got, missing))
            used = any(i not in model.FUNCS.values()
                       for i in state.get('funcs', ()))
            loads = 'load => func_odbc.so' in ret.out.split('\n')
            builtin = any(
                model.CATALOGUE['v13']['func'].get(i) == 'func_odbc'
                for i in state.get('funcs', ()))
            if loads != (used or builtin):
                case.fail('modules-load', '{}: {!r}'.format(what, ret.out))
        else:
            messages, noise = lint.parse_stderr(ret.err)
            for i in noise:
                case.fail('noise', '{}: {!r}'.format(what, i))
            codes = None
            skip = ('H_PAT_NON_CANONICAL',)
            lint.compare(
                case, what, [i for i in msgs if i.code not in skip],
                [i.msg for i in messages if i.code not in skip], codes)
            status = int(bool(messages))
        if ret.status != status:
            case.fail('status', '{}: exit status {} instead of {}'.format(
                what, ret.status, status))
