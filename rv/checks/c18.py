"""C18: one line per finding, the exit status tells, ignoring is exact."""
import os
import re
import shutil
import sys

# asterisklint reads ALINT_IGNORE when it is imported: not here.
from .. import core, dictionary, forked, gen, magnify, model

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: an interpreter that has not imported the '
             'linter yet is forked for every run; its standard error, '
             'standard output and exit status are compared with the reference '
             'model and with those of a run that ignores nothing')
RULE = ('Random dialplans and func_odbc files with mistakes; ignore lists '
        'made of codes, prefixes and things that look like them, all codes '
        'and prefixes are tried; non-trivial is a run in which something but '
        'not everything is silenced.')
ASSUMPTIONS = [
    'Names in the ignore list are compared as they are (no trimming).',
]
LINE_RE = re.compile(r'^([^\n:]+):(\d+) ([EWHI]_[A-Z0-9_]+): (\S.*)\Z', re.S)
CODES = (
    'E_APP_ARG_BADOPT E_APP_ARG_DUPEOPT E_APP_ARG_FEW E_APP_ARG_IFCONST '
    'E_APP_ARG_IFEMPTY E_APP_ARG_IFSTYLE E_APP_ARG_MANY E_APP_ARG_PIPEDELIM '
    'E_APP_MISSING E_APP_PARSE_ERROR E_APP_WSH E_ASSIGN_EMPTY '
    'E_ASSIGN_NO_EQUALS E_CONF_BAD_LINE E_CONF_CTX_MISSING E_CONF_KEY_DUPE '
    'E_CONF_KEY_INVALID E_DP_GLOBALS_DUPE E_DP_GOTO_CONTEXT_NOLABEL '
    'E_DP_GOTO_NOCONTEXT E_DP_GOTO_NOLABEL E_DP_LABEL_DUPE E_DP_LABEL_INVALID '
    'E_DP_PAT_INVALID E_DP_PAT_MISSING E_DP_PRIO_DUPE E_DP_PRIO_INVALID '
    'E_DP_PRIO_MISSING E_FILE_UTF8_BAD E_FUNC_BAD_ARGS E_FUNC_BAD_CASE '
    'E_FUNC_MISSING E_FUNC_PARENS E_FUNC_TAIL E_ODBC_NOSQL E_VAR_BAD_TOKENS '
    'E_VAR_SUBSTR_ARGS E_VAR_SUBSTR_LENGTH E_VAR_SUBSTR_START '
    'H_CONF_HAS_ARROW H_CONF_NO_ARROW H_DP_GENERAL_MISPLACED '
    'H_DP_GLOBALS_MISPLACED H_PAT_NON_CANONICAL H_WSV_CTX_BETWEEN '
    'H_WSV_VARSET_BETWEEN I_NOTIMPL_HINT I_NOTIMPL_IGNOREPAT '
    'I_NOTIMPL_SWITCH I_NOTIMPL_TEMPLATES W_APP_BAD_CASE W_APP_BALANCE '
    'W_APP_NEED_PARENS W_APP_WSH W_ASSIGN_SPACES W_CONF_CTX_DUPE '
    'W_CONF_KEY_LATE W_DP_GOTO_CONTEXT_NOEXTEN W_DP_PRIO_BADORDER '
    'W_FILE_CTRL_CHAR W_FILE_DOS_BARELF W_FILE_DOS_EOFCRLF W_FILE_UNIX_CRLF '
    'W_FILE_UNIX_NOLF W_FUNC_BALANCE W_FUNC_DYNAMIC W_ODBC_BADTOKENS '
    'W_ODBC_LEGACY W_ODBC_TAILSEMI W_PP_EXEC W_PP_INCLUDE_MISSING '
    'W_PP_QUOTE_BAD W_WSH_BOL W_WSH_COMMENT W_WSH_CTRL W_WSH_EOL '
    'W_WSH_OBJSET W_WSH_VARSET W_WSV_BOF W_WSV_EOF').split()
PREFIXES = sorted(set(
    '_'.join(i.split('_')[0:n]) + '_' for i in CODES for n in (1, 2, 3)
    if len(i.split('_')) > n))
# All codes and prefixes in turn, and things that silence nothing.
SINGLE = CODES + PREFIXES + [
    'E', 'W', 'H', 'I', 'E_APP', 'E_APP_ARG', 'W_WSH', 'e_', 'w_wsh_eol',
    '_', '*', 'E_*', ' E_', 'W_ ', 'E_APP_ARG_FEW_', 'APP_', '_APP_', 'E_AP',
    'W_APP_BAL', 'ERROR', 'all', '1', 'W_WS_', 'E_DP_GOTO_NO', ' ', 'H_D_']


def plan(tier):
    return {'cases': 1600 if tier == 'quick' else 16000,
            'min_events': {'runs': 3000, 'lines': 10000, 'silenced': 3000,
                           'kept': 3000},
            'kinds': ('dialplan-check', 'func_odbc-check', 'modules-show',
                      'ident-scan', 'dialplan-show', 'nothing-found',
                      'all-silenced', 'some-silenced', 'none-silenced',
                      'exit-0', 'exit-1', 'found')}


def matches(ignore, code):
    return any(
        code == i or (i.endswith('_') and code.startswith(i))
        for i in ignore.split(',') if i)


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier
        self.dir = os.path.join(core.WORK, 'c18-{}'.format(os.getpid()))
        os.mkdir(self.dir)
        # Compiling it for every run takes too long.
        sys.pycache_prefix = os.path.join(core.WORK, 'c18-{}-pyc'.format(
            os.getpid()))
        sys.dont_write_bytecode = False
        assert 'asterisklint' not in sys.modules
        self.zygote = forked.Zygote()
        sys.dont_write_bytecode = True

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)

    def generate(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([0, .1, .3, .6]))
        g.again = rng.choice([0, 0, 0, .3])
        kind = rng.random()
        if kind < .12:
            lines = ['[general]', '[globals]', '[a]'] + [
                'exten => s,{},NoOp(1)'.format(i) for i in range(1, 4)]
            level = 0
        else:
            lines = g.dialplan_lines()
            level = rng.choice([0, .5, 2])
        files = g.spread(lines, level=level)
        command = rng.choice(['dialplan-check'] * 8 + [
            'func_odbc-check', 'func_odbc-check', 'modules-show',
            'ident-scan', 'dialplan-show'])
        if command == 'func_odbc-check':
            files = {'extensions.conf': g.layout(self.odbc(rng), level)}
        ignore = [SINGLE[index % len(SINGLE)]] if rng.random() < .4 else []
        # Names that occur, their prefixes, and what looks like them.
        m = (model.OdbcModel(files, 'extensions.conf')
             if command == 'func_odbc-check' else model.DialplanModel(files))
        names = sorted(set(i.code for i in m.msgs)) or SINGLE
        while rng.random() < .75:
            name = rng.choice(names if rng.random() < .8 else SINGLE)
            if rng.random() < .4:
                parts = name.split('_')
                name = '_'.join(parts[0:rng.randint(1, len(parts))])
                name += rng.choice(['_', '_', '', '__'])
            elif rng.random() < .15:
                name = rng.choice([
                    name[0:-1], name + '_', name.lower(), ' ' + name,
                    name + ' ', name[1:], name[0:-1] + '_', name + 'X'])
            ignore.append(name)
        if rng.random() < .1:
            ignore = ['E_', 'W_', 'H_', 'I_']
        if rng.random() < .1:
            ignore += ['']
        if dictionary.get().words and rng.random() < .1:
            ignore += [magnify.word(rng, '').replace('\0', '')]
        rng.shuffle(ignore)
        return {'command': command, 'files': files,
                'ignore': ','.join(ignore)}

    @staticmethod
    def odbc(rng):
        lines = []
        for _ in range(rng.randint(0, 3)):
            lines.append('[{}]'.format(rng.choice(['FOO', 'bar', 'A_', 'B'])))
            lines += rng.sample([
                'readsql=SELECT 1', 'writesql=x\\;', 'read=1', 'dsn=x',
                'dsn=y', 'bogus=1', 'prefix => x', 'mode=', 'insertsql=z;',
                'synopsis=1', 'bad line', '#include nosuch'],
                rng.randint(0, 5))
        return lines

    def run(self, case, data, ignore):
        args = {'ident-scan': ['-v'], 'func_odbc-check': []}.get(
            data['command'], [])
        if data['command'] in ('dialplan-check', 'modules-show'):
            args = ['--func-odbc=']
        env = {'HOME': '/nonexistent', 'PATH': '/usr/bin:/bin'}
        if ignore is not None:
            env['ALINT_IGNORE'] = ignore
        ret = self.zygote.main(
            [data['command']] + args + ['extensions.conf'], cwd=self.dir,
            env=env)
        case.stats['runs'] += 1
        return ret

    def observe(self, case, data):
        command = data['command']
        case.see(command)
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        try:
            base = self.run(case, data, None)
            other = self.run(case, data, data['ignore'])
        finally:
            shutil.rmtree(self.dir)
            os.mkdir(self.dir)
        if 'Traceback' in base.err:
            case.fail('traceback', base.err[-1500:])
            return

        checks = command in ('dialplan-check', 'func_odbc-check')
        lines = base.err.split('\n')
        if lines.pop():
            case.fail('unterminated', repr(base.err[-500:]))
        case.stats['lines'] += len(lines)
        found = []
        for line in lines:
            match = LINE_RE.match(line)
            if not match:
                case.fail('format', '{!r} is not a finding'.format(line))
                return
            found.append(model.Msg(
                match.group(1), int(match.group(2)), match.group(3)))
        if not checks and base.err:
            case.fail('not-a-check', '{} reports {!r}'.format(
                command, base.err[-500:]))
        if checks:
            self.baseline(case, data, base, found)

        # Ignoring
        keep = [line for line, msg in zip(lines, found)
                if not matches(data['ignore'], msg.code)]
        got = other.err.split('\n')[0:-1]
        case.stats['silenced'] += len(lines) - len(keep)
        case.stats['kept'] += len(keep)
        if checks and lines:
            case.see('all-silenced' if not keep else 'none-silenced'
                     if keep == lines else 'some-silenced')
        case.nontrivial = 0 < len(keep) < len(lines)
        if got != keep:
            lost = [i for i in keep if i not in got]
            more = [i for i in got if i not in keep]
            case.fail('ignore', 'with {!r}: lost {!r}, added {!r}'.format(
                data['ignore'], lost[0:3], more[0:3]) if lost or more else
                'with {!r}: other order or count'.format(data['ignore']))
        if other.out != base.out:
            case.fail('ignore-output', '{} with {!r} prints {!r} instead of '
                      '{!r}'.format(command, data['ignore'], other.out[-500:],
                                    base.out[-500:]))
        status = int(bool(keep)) if checks else base.status
        if other.status != status:
            case.fail('ignore-status', 'with {!r} the exit status is {} '
                      'instead of {} ({} of {} lines left)'.format(
                          data['ignore'], other.status, status, len(keep),
                          len(lines)))
        case.see('exit-{}'.format(other.status))

    def baseline(self, case, data, base, found):
        if data['command'] == 'dialplan-check':
            m = model.DialplanModel(data['files'])
            m.walk()
        else:
            m = model.OdbcModel(data['files'], 'extensions.conf')
        skip = 'H_PAT_NON_CANONICAL'
        want = sorted(i for i in m.msgs if i.code != skip)
        got = sorted(i for i in found if i.code != skip)
        if want != got:
            rest = list(got)
            missed = [i for i in want if i not in rest or rest.remove(i)]
            case.fail('findings', 'not one line per finding: missed {!r}, '
                      'too many {!r}'.format(missed[0:3], rest[0:3]))
        if base.out:
            case.fail('stdout', repr(base.out[-500:]))
        if base.status != int(bool(found)):
            case.fail('status', 'exit status {} with {} findings'.format(
                base.status, len(found)))
        case.see('found' if found else 'nothing-found')
