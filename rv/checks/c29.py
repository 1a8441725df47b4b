"""C29: the vg command reads folded files like the unfolded ones."""
import collections
import os
import re
import shutil

from .. import core, forked, gen, lint
from . import c19

PROPERTY = 'C29'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the vg command in a new process against the '
             'plain command in another one, on two spellings of the same '
             'configuration (folded or not, semicolons nested or escaped, '
             'replaced sections or renamed ones)')
RULE = ('Random dialplans and func_odbc files with mistakes, lines folded at '
        'random places, comments between the parts, semicolons inside '
        'quotes and parentheses, sections that are defined again, included '
        'files; non-trivial is a case with folded lines, nested semicolons '
        'or replaced sections.')
ASSUMPTIONS = [
    'Quotes and parentheses are properly nested within each part of a '
    'folded line that has a semicolon.',
    'Warnings about white space are not compared.',
]
COMMENTS = [' ; x', ' ;', ' ; "x (y', "\t; it's", ' ;; ${', ' ; a => b']
QUOTED = ['"a;b"', "'a;b'", 'a;b', ';', 'a;', '";"', "';;'", '"(;"', '(;)',
          '";)"', 'x;y,z', '(";");', '"a);b"', '");"', '(")";x)', "(';');"]


def depth(text):
    """
    The depth of the nesting before each character and after the last one;
    None if it is not nested properly.
    """
    stack = []
    ret = []
    for char in text:
        ret.append(len(stack))
        top = stack[-1] if stack else ''
        if top == '"':
            if char == '"':
                stack.pop()
            elif char == "'":
                return None
        elif top == "'":
            if char == "'":
                stack.pop()
            elif char in '"()':
                return None
        elif char in '"\'(':
            stack.append(char)
        elif char == ')':
            if not stack:
                return None
            stack.pop()
    ret.append(len(stack))
    return ret if not stack else None


class Render(object):
    "Two spellings of logical lines."
    def __init__(self, rng, fold):
        self.rng = rng
        self.fold = fold
        self.plain = []
        self.vg = []
        self.lines = {}     # plain line number -> number in vg
        self.folded = self.nested = 0

    def add(self, line, plain=None):
        comment = ''
        if heading(line) is None and self.rng.random() < .06:
            at = self.rng.choice([
                i for i, char in enumerate(line + ' ') if char == ' '])
            line = (line[0:at] + '\t' + line[at + 1:]).rstrip()
        parts = [line]
        if self.rng.random() < self.fold:
            parts = self.split(line)
        good = []
        for part in parts:
            nesting = depth(part)
            if ';' in part and (nesting is None or any(
                    char == ';' and not deep
                    for char, deep in zip(part, nesting))):
                # That would be a comment; do not fold.
                parts = [line]
                nesting = depth(line)
                good = []
                if ';' in line and (nesting is None or any(
                        char == ';' and not deep
                        for char, deep in zip(line, nesting))):
                    line = line.replace(';', '')
                    plain = plain and plain.replace(';', '')
                    parts = [line]
                good = [depth(line) is not None]
                break
            good.append(nesting is not None)
        self.folded += len(parts) > 1
        self.nested += ';' in line
        self.lines[len(self.plain) + 1] = len(self.vg) + 1
        for part, fine in zip(parts, good):
            more = ''
            if fine and self.rng.random() < .08:
                comment = ' ; x'
                more = self.rng.choice(COMMENTS)
            self.vg.append(part + more)
        self.plain.append(
            (plain or line).replace(';', '\\;') + comment)

    def other(self, line):
        "An empty line or a comment."
        self.lines[len(self.plain) + 1] = len(self.vg) + 1
        self.plain.append(line)
        self.vg.append(line)

    def split(self, line):
        places = [i for i in range(1, len(line) - 1)
                  if line[i] in ' \t' and line[i - 1] not in ' \t' and
                  line[i:].strip()]
        self.rng.shuffle(places)
        places = sorted(places[0:self.rng.choice([1, 1, 2, 3, 9])])
        ret = []
        start = 0
        for place in places:
            ret.append(line[start:place])
            start = place
        return ret + [line[start:]]


def logical(lines):
    ret = []
    for line in lines:
        line = line.partition(';')[0].strip()
        if line and not line.startswith('#') and line.isprintable():
            ret.append(line)
    return ret


def heading(line):
    match = re.match(r'\[([^]]*)\]', line)
    return match and match.group(1)


def plan(tier):
    return {'cases': 2600 if tier == 'quick' else 60000,
            'min_events': {'folded': 1500, 'nested': 400, 'wiped': 400,
                           'included': 300, 'messages': 3000},
            'kinds': ('dialplan-check', 'dialplan-show', 'func_odbc-check',
                      'both', 'modules-show', 'ident-scan', 'exit0',
                      'exit1', 'prefix', 'special-twice')}


class Workload(object):
    def __init__(self, tier, worker):
        self.odbc = c19.Workload(tier, worker)
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c29-{}'.format(os.getpid()))
        self.home = os.path.join(core.WORK, 'c29-home-{}'.format(os.getpid()))
        shutil.rmtree(self.home, ignore_errors=True)
        commands = os.path.join(self.home, '.asterisklint/asterisklint')
        os.makedirs(commands)
        os.symlink(os.path.join(core.REPO, 'contrib', 'commands'),
                   os.path.join(commands, 'commands'))

    def finish(self):
        self.zygote.close()
        if hasattr(self.odbc, 'finish'):
            self.odbc.finish()
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.home, ignore_errors=True)

    # generating

    def generate(self, rng, index):
        what = rng.choice(['dialplan-check'] * 4 + [
            'dialplan-show', 'dialplan-show', 'func_odbc-check', 'both',
            'both', 'modules-show', 'ident-scan'])
        data = {'what': what, 'plain': {}, 'vg': {}, 'lines': {}, 'wiped': [],
                'counts': {}, 'odbc': [], 'gone': [],
                'twice': False}
        again = what != 'ident-scan' and rng.random() < .5
        fold = rng.choice([0, .1, .4, .8])
        if what != 'func_odbc-check':
            g = gen.Gen(rng, bad=rng.choice([.02, .1, .3]))
            lines = logical(g.dialplan_lines())
            if again or rng.random() < .3:
                special = again and rng.random() < .5
                lines += [i for i in logical(g.dialplan_lines())
                          if special or
                          heading(i) not in ('general', 'globals')]
            lines = self.semicolons(rng, lines)
            if what == 'both':
                for n in range(rng.randint(0, 6)):
                    lines.append('exten => {},1,NoOp(${{{}_{}(x)}})'.format(
                        n, rng.choice(['ODBC', 'ODBC', 'X', 'Y']),
                        rng.choice(c19.SECTIONS[0:5])))
            self.render(rng, data, 'extensions.conf', lines, fold, again,
                        ('general', 'globals'))
        if what in ('func_odbc-check', 'both'):
            lines = self.odbc.odbc_lines(rng, rng.random() < .5)
            if again:
                lines += self.odbc.odbc_lines(rng, rng.random() < .5)
            lines = self.semicolons(rng, logical(lines))
            if rng.random() < .5:
                lines = [i + rng.choice([
                    ' FROM a WHERE (b = \'x;y\')', ' (a, ";", c)', ' FROM x y',
                    ' (SELECT (1;2) + 3)  FROM x', ''])
                    if 'sql' in i else i for i in lines]
            if rng.random() < .4:
                lines = [re.sub('^prefix.*', 'prefix=' + rng.choice('XY'), i)
                         for i in lines]
            self.render(rng, data, 'func_odbc.conf', lines, fold, again, ())
        return data

    @staticmethod
    def semicolons(rng, lines):
        share = rng.choice([0, .1, .4])
        ret = []
        for line in lines:
            if '(' in line and rng.random() < share:
                at = rng.choice([
                    i for i, char in enumerate(line) if char == '('])
                new = line[0:at + 1] + rng.choice(QUOTED) + line[at + 1:]
                if depth(new) is not None:
                    line = new
            ret.append(line)
        return ret

    def render(self, rng, data, name, lines, fold, again, special):
        # Only the last one of the sections with the same name remains.
        last = {}
        seen = set()
        kept = []
        drop = False
        for line in lines:
            section = heading(line)
            if section is not None:
                drop = (
                    section in special and section in seen and not again)
                data['twice'] |= bool(
                    again and section in special and section in seen)
                seen.add(section)
            if not drop:
                kept.append(line)
        lines = kept
        for at, line in enumerate(lines):
            if heading(line) is not None:
                if not again and heading(line) in last:
                    lines[at] = line.replace('[', '[x{}'.format(at), 1)
                last[heading(lines[at])] = at
        pieces = [name]
        renders = {name: Render(rng, fold)}
        # Some lines are in other files.
        spans = {}
        if len(lines) > 3 and rng.random() < .4:
            for n in range(rng.choice([1, 1, 2])):
                a = rng.randrange(len(lines))
                b = min(len(lines), a + rng.randint(1, 6))
                if not any(a < j and i < b for i, j, _ in spans.values()):
                    spans[a] = (a, b, '{}.{}'.format(name, n))
        gone = False
        for at, line in enumerate(lines):
            for a, b, inner in spans.values():
                if at == a:
                    renders[name].other(rng.choice([
                        '#include "{}"', '#include "{}"', '#include {}',
                        '#tryinclude "{}"', '#tryinclude {}',
                    ]).format(inner))
                    renders[inner] = Render(rng, fold)
                    pieces.append(inner)
            here = name
            for a, b, inner in spans.values():
                if a <= at < b:
                    here = inner
            while rng.random() < .06:
                renders[here].other(rng.choice([
                    '', '', '', '', '; comment', '; comment', ';', ';',
                    '#include missing', '#tryinclude missing', '#exec x']))
            plain = None
            section = heading(line)
            if section in special:
                gone = False
            elif section is not None and last[section] != at:
                unique = 'WIPED{}'.format(at)
                plain = line.replace(
                    '[' + section, '[' + unique, 1)
                data['wiped'].append(unique)
            if section is not None and section not in special:
                gone = section in last and last[section] != at
            if gone:
                data['gone'].append([here, len(renders[here].vg) + 1])
            if plain is not None:
                if name == 'func_odbc.conf':
                    data['odbc'].append(
                        [here, len(renders[here].plain) + 1])
            renders[here].add(line, plain)
        for inner, render in renders.items():
            data['plain'][inner] = ''.join(
                i + '\n' for i in render.plain).encode('utf-8')
            data['vg'][inner] = ''.join(
                i + '\n' for i in render.vg).encode('utf-8')
            data['lines'][inner] = [
                [a, b] for a, b in sorted(render.lines.items())]
        for key, value in (
                ('folded', sum(i.folded for i in renders.values())),
                ('nested', sum(i.nested for i in renders.values())),
                ('included', len(spans))):
            data['counts'][key] = data['counts'].get(key, 0) + value

    # observing

    def run(self, files, argv):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        for name, content in files.items():
            with open(os.path.join(self.dir, name), 'wb') as fp:
                fp.write(content)
        return self.zygote.main(argv, cwd=self.dir, env={
            'PATH': os.environ['PATH'], 'HOME': self.home})

    def observe(self, case, data):
        what = data['what']
        argv = {
            'dialplan-check': ['dialplan-check', 'extensions.conf'],
            'both': ['dialplan-check', 'extensions.conf'],
            'func_odbc-check': ['func_odbc-check', 'func_odbc.conf'],
        }.get(what, [what, 'extensions.conf'])
        case.see(what)
        case.stats.update(data['counts'])
        case.stats['wiped'] += len(data['wiped'])
        case.nontrivial = bool(data['wiped'] or sum(data['counts'].values()))
        plain = self.run(data['plain'], argv)
        vg = self.run(data['vg'], ['vg'] + argv)
        case.see('exit{}'.format(vg.status))
        if vg.status not in (0, 1) or 'Traceback' in vg.err:
            case.fail('crash', 'vg {}: exit {}, {}'.format(
                ' '.join(argv), vg.status, vg.err[-800:]))
            return
        if what == 'both' and b'prefix' in data['vg']['func_odbc.conf']:
            case.see('prefix')
        self.messages(case, data, plain, vg)
        want, got = plain.out, vg.out
        if what == 'dialplan-show':
            want = self.without(want, data['wiped'])
        if want != got:
            case.fail('output:' + what, 'vg {}: shows {!r} and not {!r}'
                      .format(' '.join(argv), *self.first(got, want)))

    @staticmethod
    def first(got, want):
        got, want = got.split('\n'), want.split('\n')
        for a, b in zip(got, want):
            if a != b:
                return a, b
        return len(got), len(want)

    @staticmethod
    def without(text, sections):
        ret = []
        drop = False
        for line in text.split('\n'):
            match = re.match(r"\[ Context ['\"](.*)['\"] created by", line)
            if match:
                drop = match.group(1) in sections
            if not drop:
                ret.append(line)
        if drop:
            ret.append('')
        return '\n'.join(ret)

    @staticmethod
    def place(data, key):
        """
        What jumps out of a replaced section is unspecified. The hints about
        missing sections point at the first section that is left. The plain
        spelling of repeated [general] and [globals] has them twice.
        """
        if data['twice'] and key[2] in (
                'W_CONF_CTX_DUPE', 'E_DP_GLOBALS_DUPE',
                'H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED'):
            return None
        if data['wiped']:
            if key[2].endswith('_MISPLACED'):
                return ('', 0, key[2])
            if '_GOTO_' in key[2] and list(key[0:2]) in data['gone']:
                return None
        return key

    @staticmethod
    def messages(case, data, plain, vg):
        lines = {name: dict((a, b) for a, b in items)
                 for name, items in data['lines'].items()}
        wiped = set((name, line) for name, line in data['odbc'])

        want = collections.Counter()
        for full in lint.parse_stderr(plain.err)[0]:
            if full.code.startswith('W_WSH_') or (
                    full.code in ('E_ODBC_NOSQL', 'W_ODBC_BADTOKENS') and
                    (full.file, full.line) in wiped):
                continue
            want[Workload.place(data, (full.file, lines.get(
                full.file, {}).get(full.line, full.line), full.code))] += 1
        got = collections.Counter()
        found, noise = lint.parse_stderr(vg.err)
        badtokens = set(
            (name, lines[name][line]) for name, line in wiped)
        for full in found:
            if full.code.startswith('W_WSH_') or (
                    full.code == 'W_ODBC_BADTOKENS' and
                    (full.file, full.line) in badtokens):
                continue
            got[Workload.place(
                data, (full.file, full.line, full.code))] += 1
            case.stats['messages'] += 1
            case.see(full.code)
        if noise:
            case.fail('noise', 'stderr has {!r}'.format(noise[0]))
        want.pop(None, 0)
        got.pop(None, 0)
        if data['twice']:
            case.see('special-twice')
        for key in want - got:
            case.fail('missed:' + key[2], 'vg: {}:{} {} is not reported'
                      .format(*key))
        for key in got - want:
            case.fail('bogus:' + key[2], 'vg: {}:{} {} is reported'
                      .format(*key))
        if data['what'] in ('dialplan-check', 'both', 'func_odbc-check'):
            if vg.status != int(bool(found)):
                case.fail('status', 'exit status {} with {} messages'.format(
                    vg.status, len(found)))
        elif found:
            case.fail('stderr', 'vg {} reports {}'.format(
                data['what'], found[0]))
