"""C24: the migration tools change just what they announce."""
import ast
import os
import re
import shutil

from .. import core, forked, gen, lint, magnify, model, tools

PROPERTY = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the tools run on real file trees; every byte '
             'of every file is compared with what the announced problems, '
             'found by the linter before, allow; the linter reads the result '
             'and the tools run again')
RULE = ('Random dialplans with non-canonical patterns or old style ExecIf '
        'calls on any number of lines, with the same text elsewhere in the '
        'line, spread over files that are also included twice, under other '
        'names and through symbolic links; non-trivial is a case with a '
        'rewritten line.')
ASSUMPTIONS = [
    'A pattern or ExecIf call with non-ASCII characters is in a line that is '
    'valid UTF-8. Old style calls of other apps are refused by the '
    'converter, like calls that it cannot find in the line: then that file '
    'stays as it is. No ExecIf inside an ExecIf.',
]
ANSWERS = [b'y\n'] * 12 + [b'n\n', b'', b'Y\n', b'yes\n', b' y\n', b'\n',
                           b'y ', b'\xff\n']
PATTERNS = [
    '_x', '_[0-9]', '_[123]', '_[1-3]', '_[2-9]X', '_NZx.', '_1-2', '_12',
    '_[a-]', '_[-a]', '_0[0-9]!', '_[1]', '_s', '_[+--]', '_[:-<]', '_z-x',
    '_[a\\;]x', '_[ba]', '_[9-0]', '_\u00e9[1]', '_X[13579]', '_i', '_h',
    '_[xyz]', '_n', '_[nN]', '_ [1]', '_>1', '_ 1', '_[[]', '_[\\]', '_[!]',
    '_.', '_X.', '_X', 's', '1-2', '100', 't', '-_1', '_[1-1]', '_[11]x',
    '_[#-*]', '_[0-9*#]', '_[A-Da-d]', '_00X.', '_0x', '_[1-9][0-9]',
]
CONDS = ['${x}', '$[1]', '$[${x} = 1]', '$["${x}" = "a,b"]', '${LEN(${x})}',
         '$[${a}&${b}]', '${x}${y}', '1', '', '${ISNULL(x)}', '$[1 > 0]',
         '${x:1}', '$[!${x}]', '$["a" = "b"]', '(x)', '$[${x}\\;1]',
         '$[(1)&(0)]', ' ${x}', '${x} ', 'caf\u00e9']
CALLS = ['NoOp', 'Set,x=1', 'Set,x=${y}', 'Goto,a,s,1', 'Playback,a&b',
         'NoOp,', 'Set,HASH(a,b)=c', 'NoOp,(a,b)', 'NoOp,"a,b"', 'Hangup,17',
         'NoOp,a\\;b', 'Gosub,s,1(x,y)', 'NoOp,${x},${y}', 'Dial,SIP/1,,g',
         'NoOp,$[1 + 1]', 'Return,', 'NoOp,caf\u00e9', 'Macro,x,1', 'Busy,1',
         'NoOp, spaced , out', 'NoOp,a:b', 'NoOp,[a,b]']


def plan(tier):
    return {'cases': 2400 if tier == 'quick' else 24000,
            'min_events': {'files': 4000, 'lines_rewritten': 4000,
                           'lines_kept': 20000, 'relinted': 800},
            'kinds': ('canonical', 'convert', 'refused', 'nothing-to-do',
                      'second-run', 'symlink', 'alias', 'twice', 'crlf',
                      'bad-utf8', 'not-convertible', 'same-text-elsewhere')}


def key_of(raw):
    pat = model.Pat(raw)
    return tuple(tuple(sorted(i)) if isinstance(i, frozenset) else i
                 for i in pat.seq)


def describe(files):
    "What the dialplan means, and the messages."
    observed = lint.dialplan(files)
    sections = [
        (name, where, sorted(
            ((key_of(e[0]), e[1], e[2], e[3], e[4], e[5]) for e in extens),
            key=repr), includes)
        for name, where, extens, includes in lint.sections_of(
            observed.dialplan)]
    return sections, [tuple(i) for i in observed.messages]


class Workload(object):
    def __init__(self, tier, worker):
        tools.preload()
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c24-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    # generating

    def pattern(self, g, rng):
        kind = rng.random()
        if kind < .6:
            return rng.choice(PATTERNS)
        pat = g.pattern()
        if kind < .8 and ',' not in pat:
            pat = ''.join(rng.choice([i, i.lower()]) for i in pat)
        return pat

    def lines(self, g, rng, tool):
        lines = []
        for line in g.dialplan_lines(sections=rng.randint(1, 4)):
            if tool == tools.CONVERT and re.search('(?i)if', line):
                continue
            if line.startswith('exten') and rng.random() < .5:
                continue
            lines.append(line)
            if not line.startswith('['):
                continue
            for _ in range(rng.choice([0, 1, 2, 4, 8])):
                if tool == tools.CANONICAL:
                    pat = self.pattern(g, rng)
                    app = rng.choice([
                        'NoOp()', 'NoOp({})'.format(pat), 'Goto({},1)'.format(
                            pat), 'Set(X={})'.format(pat), 'Hangup'])
                    label = '({})'.format(pat) if rng.random() < .1 else ''
                    lines.append('exten => {},{}{},{}'.format(
                        pat, rng.choice(['1', '1', '2', 'n', 'hint']), label,
                        app))
                    if rng.random() < .3:
                        lines.append(' same => n,NoOp({})'.format(pat))
                    if rng.random() < .1:
                        lines.append('; exten => {},1,NoOp()'.format(pat))
                else:
                    pat = g.literal()
                    call = '{},{}'.format(
                        rng.choice(CONDS), rng.choice(CALLS))
                    lines.append('exten => {},{},{}ExecIf({}){}'.format(
                        pat, rng.choice(['1', 'n', 'n(a)']),
                        rng.choice(['', '', ' ']), call, rng.choice(
                            ['', '', '', ' ;', ' ; was {}', ' ; ExecIf({})',
                             ';{}']).format(call)))
                    if rng.random() < .3:
                        lines.append('same => n,ExecIf({}?{})'.format(
                            rng.choice(CONDS[0:3]), 'NoOp({},NoOp)'.format(
                                rng.choice(CONDS))))
                    if rng.random() < .05:
                        lines.append('same => n,{}'.format(rng.choice([
                            'GotoIf(${x},a)', 'GosubIf(${x},a,b)',
                            'ExecIf(${x})', 'ExecIf()', 'ExecIf'])))
        return lines

    def generate(self, rng, index):
        tool = tools.CANONICAL if index % 3 else tools.CONVERT
        g = gen.Gen(rng, bad=rng.choice([0, 0, .1]))
        g.again = rng.choice([0, 0, 0, .3])
        lines = self.lines(g, rng, tool)
        if not index % 13:
            lines = ['[general]', '[globals]', '[a]', 'exten => s,1,NoOp()']
        files = g.spread(lines, level=rng.choice([0, .3, 1]))
        if rng.random() < magnify.share(.06):
            magnify.magnify(rng, files, plain=True)
        links = {}
        names = sorted(files)
        # Once more, under the same or another name.
        if len(names) > 1 and rng.random() < .4:
            name = rng.choice([i for i in names if i != 'extensions.conf'])
            other = rng.choice(['{}', './{}', 'links/../{}', 'LINK'])
            if other == 'LINK':
                links['link.conf'] = name
                other = 'link.conf'
            other = other.format(name)
            files['extensions.conf'] = (
                files['extensions.conf'].rstrip() + '\n[once-more]\n'
                '#include {}\n'.format(other).encode())
        elif len(names) > 1 and rng.random() < .15:
            # The one that is included is a link.
            name = rng.choice([i for i in names if i != 'extensions.conf'])
            real = 'links/real.conf'
            if '#include' not in files[name].decode('latin1'):
                files[real] = files.pop(name)
                links[name] = os.path.relpath(
                    real, os.path.dirname(name) or '.')
        if rng.random() < .15:
            name = rng.choice(sorted(files))
            data = files[name].split(b'\n')
            pos = rng.randrange(len(data))
            data[pos] = data[pos].rstrip(b'\r') + rng.choice(
                [b' ; \xe9', b'\xff', b' ;\x80'])
            files[name] = b'\n'.join(data)
        return {'tool': tool, 'files': files, 'links': links,
                'answer': rng.choice(ANSWERS)}

    # observing

    def write(self, data):
        shutil.rmtree(self.dir)
        os.makedirs(os.path.join(self.dir, 'links'))
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(content)
        for name, target in data['links'].items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink(target, path)

    def tree(self):
        ret = {}
        for top, dirs, names in os.walk(self.dir):
            for name in names:
                path = os.path.join(top, name)
                rel = os.path.relpath(path, self.dir)
                if os.path.islink(path):
                    ret[rel] = os.readlink(path)
                else:
                    with open(path, 'rb') as fp:
                        ret[rel] = fp.read()
        return ret

    def seen_as(self):
        "The files like the linter sees them."
        ret = {}
        for name in self.tree():
            with open(os.path.join(self.dir, name), 'rb') as fp:
                ret[name] = fp.read()
        return ret

    def real(self, name):
        return os.path.relpath(os.path.realpath(
            os.path.join(self.dir, name)), os.path.realpath(self.dir))

    def observe(self, case, data):
        self.write(data)
        before = self.tree()
        described = self.zygote.run(describe, self.seen_as())
        if described.value is None:
            case.fail('lint', described.err[-1500:])
            return
        sections, messages = described.value
        canonical = data['tool'] == tools.CANONICAL
        case.see('canonical' if canonical else 'convert')

        # The announced problems.
        code = 'H_PAT_NON_CANONICAL' if canonical else 'E_APP_ARG_IFSTYLE'
        problems = {}
        names = {}
        for file_, lineno, msgcode, text in messages:
            if msgcode == code:
                problems.setdefault(self.real(file_), {})[lineno] = text
                names.setdefault(self.real(file_), set()).add(file_)
                if not os.path.normpath(file_) == self.real(file_):
                    case.see('symlink')
        if any(len(i) > 1 for i in names.values()):
            case.see('alias')
        if len([i for i in messages if i[2] == code]) > sum(
                len(i) for i in problems.values()):
            case.see('twice')
        expected = dict(before)
        fixed = set()
        self.literals = False
        impossible = None
        for name in sorted(problems, key=(lambda x: sorted(names[x])[0])):
            lines = before[name].split(b'\n')
            for lineno, text in sorted(problems[name].items()):
                line = lines[lineno - 1]
                new = (self.canonical if canonical else self.convert)(
                    case, line, text)
                if new is None:
                    impossible = impossible or name
                    break
                if new != line:
                    fixed.add((name, lineno))
                    if b'\r' in line:
                        case.see('crlf')
                lines[lineno - 1] = new
            if impossible:
                # It stops there.
                break
            expected[name] = b'\n'.join(lines)

        # The tool.
        ret = self.run(data['tool'], data['answer'])
        after = self.tree()
        what = '{} {!r}'.format(data['tool'], data['answer'])
        case.stats['files'] += len(before)
        if not problems:
            case.see('nothing-to-do')
            if after != before or ret.status:
                case.fail('nothing-to-do', '{}: exit {}, changes {!r}'.format(
                    what, ret.status, self.diff(before, after)))
            return
        if data['answer'] not in (b'y\n',):
            # "y" without anything else.
            case.see('refused')
            if after != before:
                case.fail('refused', '{}: changes {!r}'.format(
                    what, self.diff(before, after)))
            return
        case.nontrivial = bool(fixed)
        case.stats['lines_rewritten'] += len(fixed)
        case.stats['lines_kept'] += sum(
            i.count(b'\n') for i in before.values()
            if isinstance(i, bytes)) - len(fixed)
        if after != expected:
            case.fail('bytes', '{}: want/got {!r}\n{}'.format(
                what, self.diff(expected, after), ret.err[-800:]))
            return
        if impossible:
            case.see('not-convertible')
            if not ret.status:
                case.fail('status', '{}: exit 0 without converting '
                          'everything'.format(what))
            return
        if ret.status:
            case.fail('status', '{}: exit {}: {}'.format(
                what, ret.status, ret.err[-800:]))

        # What it means now.
        described = self.zygote.run(describe, self.seen_as())
        if described.value is None:
            case.fail('relint', described.err[-1500:])
            return
        case.stats['relinted'] += 1
        now_sections, now_messages = described.value
        self.meaning(case, what, fixed, sections, now_sections, canonical)
        old = sorted(i[0:3] for i in messages)
        new = sorted(i[0:3] for i in now_messages)
        for file_, lineno, msgcode in new:
            if msgcode == code and (self.real(file_), lineno) in fixed:
                case.fail('still-reported', '{}: {}:{} is still '
                          'reported'.format(what, file_, lineno))
        if not canonical:
            # (The app in it is looked at now.)
            old = [i for i in old if (self.real(i[0]), i[1]) not in fixed]
            new = [i for i in new if (self.real(i[0]), i[1]) not in fixed]
        elif self.literals:
            # The pattern "_12" is not an extension "12" yet.
            old = [i for i in old if '_DP_' not in i[2]]
            new = [i for i in new if '_DP_' not in i[2]]
        old = [i for i in old if i[2] != code]
        new = [i for i in new if i[2] != code]
        if old != new:
            case.fail('messages', '{}: other messages: {!r}'.format(
                what, sorted(set(old) ^ set(new))[0:3]))

        # Once more.
        case.see('second-run')
        ret = self.run(data['tool'], b'y\n')
        again = self.tree()
        if again != after:
            case.fail('second-run', '{}: {!r}'.format(
                what, self.diff(after, again)))

    def run(self, script, answer):
        return self.zygote.run(
            tools.tool, script, ['extensions.conf'], cwd=self.dir,
            stdin=answer, env={
                'PATH': os.environ['PATH'], 'HOME': '/nonexistent',
                'TMPDIR': '/nonexistent'})

    @staticmethod
    def diff(a, b):
        ret = []
        for name in sorted(set(a) | set(b)):
            x, y = a.get(name), b.get(name)
            if x == y:
                continue
            if not isinstance(x, bytes) or not isinstance(y, bytes):
                ret.append((name, x, y))
                continue
            x, y = x.split(b'\n'), y.split(b'\n')
            lines = [(n, i, j) for n, (i, j) in enumerate(zip(x, y), 1)
                     if i != j]
            ret.append((name, lines[0] if lines else (len(x), len(y))))
        return ret[0:3]

    def decode(self, case, line):
        try:
            return line.decode('utf-8')
        except UnicodeDecodeError:
            case.see('bad-utf8')
            return None

    def canonical(self, case, line, text):
        "The line like it should become."
        old, new = re.match(
            r'''pattern ('.*'|".*") is not in the canonical form '''
            r'''('.*'|".*")\Z''', text).groups()
        old = ast.literal_eval(old).replace(';', '\\;')
        new = ast.literal_eval(new).replace(';', '\\;')
        decoded = self.decode(case, line)
        if decoded is None:
            # Everything but ASCII may be something else.
            if not old.isascii() or not new.isascii():
                return line
            decoded = line.decode('latin1')
            back = 'latin1'
        else:
            back = 'utf-8'
        head, rest = re.match(
            r'([^=]*=>\s*|[^=]*=\s*)(.*)\Z', decoded, re.S).groups()
        pat, comma, tail = rest.partition(',')
        if pat != old:
            case.fail('announced', '{!r} is not the pattern in {!r}'.format(
                old, line))
            return line
        if not new.startswith('_'):
            self.literals = True
        if old in tail:
            case.see('same-text-elsewhere')
        return (head + new + comma + tail).encode(back)

    def convert(self, case, line, text):
        decoded = self.decode(case, line)
        back = 'utf-8'
        if decoded is None:
            decoded = line.decode('latin1')
            back = 'latin1'
        code, comment = re.match(
            r'((?:[^;\\]|\\.)*)(.*)\Z', decoded, re.S).groups()
        match = re.match(
            r'(.*?,\s*ExecIf\()(.*)\)(\s*)\Z', code, re.S)
        if not match or 'ExecIf' in match.group(2):
            return None
        head, data, tail = match.groups()
        tail += comment
        if back == 'latin1' and not data.isascii():
            return None
        parts = self.split(data)
        if len(parts) < 2:
            return None
        if data in tail:
            case.see('same-text-elsewhere')
        return '{}{}?{}({}){}{}'.format(
            head, parts[0], parts[1], ','.join(parts[2:]), ')',
            tail).encode(back)

    @staticmethod
    def split(data):
        parts, depth, quotes = [''], [], False
        i = 0
        while i < len(data):
            ch = data[i]
            if data[i:i + 2] in ('${', '$['):
                # An element of its own.
                closing = {'${': '}', '$[': ']'}[data[i:i + 2]]
                opening = data[i + 1]
                level, j = 0, i + 1
                while True:
                    if j == len(data):
                        # We cannot tell.
                        raise core.Inconclusive('not terminated')
                    if data[j] == opening:
                        level += 1
                    elif data[j] == closing:
                        level -= 1
                        if not level:
                            break
                    j += 1
                parts[-1] += data[i:j + 1]
                if re.search(r':(?!-?[1-9][0-9]*[:}]|0[:}])', data[i:j]):
                    # A slice that prints differently, and is not found.
                    raise core.Inconclusive('an odd slice')
                i = j + 1
                continue
            if ch == '"':
                quotes = not quotes
            elif ch in '([':
                depth.append(ch)
            elif ch in ')]' and depth and depth[-1] == '(['[')]'.index(ch)]:
                depth.pop()
            if ch == ',' and not depth and not quotes:
                parts.append('')
            else:
                parts[-1] += ch
            i += 1
        return parts

    def meaning(self, case, what, fixed, old, new, canonical):
        if not canonical:
            def strip(sections):
                return [(name, where, [
                    e if (self.real(e[4]), e[5]) not in fixed else
                    e[0:3] + ('', ) + e[4:] for e in extens], includes)
                    for name, where, extens, includes in sections]
            old, new = strip(old), strip(new)
        if old != new:
            diff = [(a, b) for a, b in zip(old, new) if a != b][0:1]
            if diff:
                a, b = diff[0]
                diff = [[x for x in a[2] if x not in b[2]][0:3],
                        [x for x in b[2] if x not in a[2]][0:3],
                        a[0:2] + a[3:], b[0:2] + b[3:]]
            case.fail('meaning', '{}: the dialplan means something else: '
                      '{!r}'.format(what, diff))
