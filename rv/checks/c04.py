"""C04: layout never changes the meaning."""
import collections
import re

from .. import core, gen, lint, magnify

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: metamorphic runs; the same logical lines are '
             'laid out in several ways (comments, blank lines, line ends, '
             'spaces, include files) and the observed dialplan and messages, '
             'with positions mapped back to logical lines, must be equal')
RULE = ('Random dialplans, configurations and func_odbc files with mistakes '
        'in them, each laid out tidily and in three untidy ways; non-trivial '
        'is a case where some message about the meaning is reported.')
ASSUMPTIONS = [
    'Layout diagnostics are W_WSH_*, W_WSV_*, H_WSV_* and the line-end '
    'W_FILE_DOS_*/W_FILE_UNIX_*; everything else is about the meaning.',
]
LAYOUT = ('W_WSH_', 'W_WSV_', 'H_WSV_', 'W_FILE_DOS_', 'W_FILE_UNIX_')
KINDS = ('comments', 'blanks', 'trailing', 'crlf', 'mixed', 'spacing',
         'include', 'noeof')


def plan(tier):
    return {'cases': 7000 if tier == 'quick' else 120000,
            'min_events': {'variants': 10000, 'messages': 10000},
            'kinds': KINDS + ('dialplan', 'config', 'odbc')}


class Renderer(object):
    """
    Lays out lines; self.where maps (file, line) to the number of the line.
    """
    def __init__(self, rng, what):
        self.r = rng
        self.what = what
        self.files = {}
        self.where = {}
        self.used = set()

    def on(self, what, prob):
        if what in self.what and self.r.random() < prob:
            self.used.add(what)
            return True
        return False

    def render(self, name, items, depth=0):
        r = self.r
        self.files[name] = b''
        out = []        # (id, text)
        items = list(items)
        while items:
            if (depth < 3 and 'include' in self.what and
                    r.random() < .06 and len(self.files) < 6):
                self.used.add('include')
                count = r.randint(0, min(len(items), 7))
                directory, _, _ = name.rpartition('/')
                sub = r.choice(['inc{}.conf', 'd/inc{}.conf', 'é{}.conf']
                               ).format(len(self.files))
                if any(text.startswith('#') for _, text in items[0:count]):
                    sub = sub.rpartition('/')[2]
                path = (directory + '/' if directory else '') + sub
                self.render(path, items[0:count], depth + 1)
                items[0:count] = []
                out.append((None, r.choice([
                    '#include {}', '#include "{}"', '#tryinclude {}',
                    '#include <{}>', '#include\t{}']).format(sub)))
                continue
            while self.on('blanks', .15):
                out.append((None, r.choice(['', '', ' ', '\t', ' \t '])))
            while self.on('comments', .1):
                out.append((None, r.choice([
                    ';', '; exten => 1,1,NoOp()', ' ; [x]', ';; #include x',
                    '\t;a=b', ';-- x', '; "', ';]', ';\\;', ';é',
                    '; ${', '; \\'])))
            ident, text = items.pop(0)
            if ('=' in text and not text.lstrip().startswith(('[', '#')) and
                    self.on('spacing', .2)):
                key, value = text.split('=', 1)
                arrow = '='
                if value.startswith('>'):
                    arrow, value = '=>', value[1:]
                text = ''.join([
                    key.rstrip(' '), r.choice(['', ' ', '  ', '\t', ' \t']),
                    arrow, r.choice(['', ' ', '  ', '\t', ' \t']),
                    value.lstrip(' ')])
                if arrow == '=' and value.lstrip(' ').startswith('>'):
                    text = text.replace('=>', '= >', 1)
            if self.on('comments', .15):
                text += r.choice([
                    ' ; c', ' ;', '\t; x=y', '  ;; z', ' ;)', ' ;]', ' ;"',
                    ';', ';c', ' ; é', ' ;\\;', ' ; \\', ' ;=>', ';;']
                    if not text.endswith('\\') else [' ; c', '\t;', ' ;='])
            if self.on('trailing', .1):
                text += r.choice([' ', '\t', '  ', ' \t'])
            out.append((ident, text))
        while self.on('blanks', .2):
            out.append((None, r.choice(['', ' '])))
        if self.on('comments', .1):
            out.append((None, '; end'))
        eols = [b'\n']
        if self.on('crlf', .5):
            eols = [b'\r\n']
        elif self.on('mixed', .6):
            eols = [b'\n', b'\n', b'\r\n']
        data = []
        for lineno, (ident, text) in enumerate(out, 1):
            if ident is not None:
                self.where[(name, lineno)] = ident
            data.append(text.encode('utf-8') + r.choice(eols))
        if data and self.on('noeof', .4):
            data[-1] = data[-1].rstrip(b'\r\n')
        self.files[name] = b''.join(data)


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier

    def generate(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([.03, .1, .2]))
        kind = rng.choice(['dialplan'] * 5 + ['config', 'odbc'])
        if kind == 'odbc':
            lines = self.odbc(rng)
        else:
            lines = g.dialplan_lines()
            for _ in range(rng.choice([0, 0, 1])):
                lines.insert(rng.randint(0, len(lines)), rng.choice([
                    '#include nosuch.conf', '#tryinclude nosuch.conf',
                    '#exec /bin/true', '#bogus', '#include', 'a=b', 'bad line',
                    '#include "nosuch', 'x==y', '=', '=>', 'a=>=b', '[x',
                    '[y](+)', '[y](t)', '[]', 'same=>n,x', 'a\\=b', 'k=a\\;b',
                    'k=\\;', 'k=\\\\;']))
            if rng.random() < magnify.share(.06):
                lines = magnify.magnify_lines(rng, lines)
            # Semicolons are escaped, or they would be layout.
            lines = [re.sub(r'\\*;', r'\;', line) for line in lines]
        lines = [line.rstrip(' \t') for line in lines]
        variants = [{'extensions.conf': ''.join(
            i + '\n' for i in lines).encode('utf-8')}]
        maps = [[['extensions.conf', n + 1, n] for n in range(len(lines))]]
        used = set()
        for n in range(3):
            what = set(i for i in KINDS if rng.random() < .6) if n else (
                [rng.choice(KINDS)])
            renderer = Renderer(rng, what)
            renderer.render('extensions.conf', enumerate(lines))
            variants.append(renderer.files)
            maps.append([[f, l, i] for (f, l), i in renderer.where.items()])
            used |= renderer.used
        return {'kind': kind, 'variants': variants, 'maps': maps,
                'used': sorted(used)}

    def odbc(self, rng):
        lines = []
        for _ in range(rng.randint(0, 4)):
            lines.append('[{}]'.format(rng.choice(
                ['FOO', 'BAR_1', 'foo', 'A B', '', 'FOO'])))
            for key in rng.sample([
                    'prefix', 'synopsis', 'dsn', 'escapecommas', 'mode',
                    'rowlimit', 'readsql', 'writesql', 'insertsql', 'read',
                    'write', 'bogus', 'dsn '], rng.randint(0, 6)):
                lines.append('{}{}{}'.format(
                    key.strip(), rng.choice(['=', '=', '=', '=>']),
                    rng.choice(['asterisk', 'SELECT 1', 'SELECT 2\\;', '',
                                'X=Y', 'a = b', '"', '>'])))
        return lines

    def observe(self, case, data):
        seen = []
        for files, where in zip(data['variants'], data['maps']):
            where = {(f, l): i for f, l, i in where}
            seen.append(self.run(case, data['kind'], files, where))
            case.stats['variants'] += 1
        case.see(data['kind'], *data['used'])
        base = seen[0]
        case.stats['messages'] += sum(base['messages'].values())
        case.nontrivial = bool(base['messages'])
        for n, other in enumerate(seen[1:], 1):
            for key in base:
                if base[key] == other[key]:
                    continue
                a, b = base[key], other[key]
                if isinstance(a, collections.Counter):
                    for msg in sorted(set(a) | set(b)):
                        if a[msg] != b[msg]:
                            case.fail(
                                'message:{}'.format(msg[1]),
                                '{!r} is reported {} times with tidy layout, '
                                '{} times otherwise (variant {})'.format(
                                    msg, a[msg], b[msg], n))
                else:
                    case.fail('result:' + key, 'differs (variant {}): {!r} '
                              'became {!r}'.format(n, *self.diff(a, b)))

    @staticmethod
    def diff(a, b):
        if isinstance(a, str):
            a, b = a.split('\n'), b.split('\n')
        if isinstance(a, list):
            for x, y in zip(a, b):
                if x != y:
                    return x, y
            return a[len(b):], b[len(a):]
        return a, b

    def run(self, case, kind, files, where):
        def ident(file_, line):
            if (file_, line) in where:
                return where[(file_, line)]
            return 'line 0' if line == 0 else 'elsewhere'

        if kind == 'config':
            observed = lint.config(files)
            result = {'sections': [
                (name, ident(f, l), [
                    (k, v, arrow, ident(f2, l2))
                    for k, v, arrow, f2, l2 in sets])
                for name, f, l, sets in observed.sections]}
        elif kind == 'odbc':
            observed = lint.odbc(files, 'extensions.conf')
            result = {'sections': [
                (c.name, ident(c.where.filename, c.where.lineno), [
                    (v.variable, v.value, v.arrow,
                     ident(v.where.filename, v.where.lineno)) for v in c])
                for c in observed.functions]}
        else:
            observed = lint.dialplan(files)
            dialplan = observed.dialplan
            result = {
                'sections': [
                    (name, ident(*at),
                     [(raw, prio, label, app, ident(f, l))
                      for raw, prio, label, app, f, l in extens],
                     [(n, ident(f, l)) for n, f, l in includes])
                    for name, at, extens, includes in lint.sections_of(
                        dialplan)],
                'general': [
                    None if c is None else [
                        (k, v, a, ident(f, l))
                        for k, v, a, f, l in lint.sets_of(c)]
                    for c in (dialplan.general, dialplan.globals)],
                'show': dialplan.format_as_dialplan_show(reverse=False),
            }
        for noise in observed.noise:
            case.fail('noise', 'stderr has {!r}'.format(noise))
        result['messages'] = collections.Counter(
            (str(ident(m.file, m.line)), m.code, m.text)
            for m in observed.messages if not m.code.startswith(LAYOUT))
        return result


__all__ = ['core']
