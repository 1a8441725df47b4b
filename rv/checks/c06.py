"""C06: section headers, keys, separators and values are read as written."""
import itertools

from .. import gen, lint, model

PROPERTY = 'C06'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: reference model of the configuration syntax '
             'judges the parsed sections and settings and the syntax messages')
RULE = ('Lines are random combinations of keys, values, separators, spaces, '
        'semicolons, backslashes, brackets and directives, plus every line of '
        'a few characters over a small alphabet; non-trivial is a case with a '
        'parsed setting and a syntax message.')
ASSUMPTIONS = [
    'A line that is neither header, setting, directive nor blank is malformed;'
    ' templates other than a one-character one are not known.',
]
CODES = ('E_CONF_', 'W_WSH_BOL', 'W_WSH_OBJSET', 'W_WSH_VARSET', 'W_WSH_CTRL',
         'W_PP_QUOTE_BAD', 'W_PP_EXEC', 'I_NOTIMPL_TEMPLATES')
ALL = ('E_CONF_BAD_LINE', 'E_CONF_CTX_MISSING', 'W_WSH_BOL', 'W_WSH_OBJSET',
       'W_WSH_VARSET', 'W_WSH_CTRL', 'W_PP_QUOTE_BAD', 'I_NOTIMPL_TEMPLATES',
       'arrow', 'equals', 'escaped-semicolon')
ALPHABET = ['a', '=', '>', ' ', ';', '\\', '[', ']', '#', '\t', '(', ')', 'x']
KEYS = ['k', 'exten', 'same', 'a b', 'foo;bar', 'key]', '[k', '#k', 'k\u00e9',
        'k>', '', '>', 'same ', 'k\\', '(x)', 'include', 'k\xa0', 'k"']
VALUES = ['v', '', 'a=b', 'a => b', '=> x', '=x', '>', '>>', ' x', 'a;b',
          'a\\;b', '\\', 'a\\\\', 'v ', '[x]', '${FOO}=1', '\u20ac', 'a\tb',
          '#include x', '\\;', '\\\\;', ';', 'a  b', '\xa0v\xa0', '=', '=>']
HEADERS = ['[a]', '[general]', '[]', '[a b]', '[a]b]', '[a](!)', '[a](+)',
           '[a](x)', '[a] (x)', '[a](b)(c)', '[a](xy)', '[a]()', '[a] ', '[a',
           'a]', '[[a]]', ' [a]', '\t[b]', '[a];c', '[a\\;b]', '[a=b]',
           '[a]=b', '[a]=>b', '[ a ]', '[a] x', '[#a]', '[a]\xa0', '[a](>)',
           '[a]  (;)', '[a](=)', '[\u00e9]']
DIRECTIVES = ['#include x', '#include "x"', '#include <x>', '#include "x',
              '#include x"', '#include <x', '#include x>', '#include  x',
              '#include\tx', '#include \tx', '#include', '#include ', '#foo',
              '#tryinclude x', '#tryinclude "x"', '#tryinclude', '#exec x',
              '#exec "x y"', '#exec', '#execx', '#includex', '# include x',
              '#INCLUDE x', ' #include x', '#', '##', '#include "a b" c',
              '#tryincludex', '#include "', '#include ""', '#include <">',
              '#include x;c', '#include\x0bx', '#include x\\;y', '#exec\tx',
              '#includ x', '#tryinclude  <x>', '\t#exec x', '#include x y',
              '#include < x>', '#include "x "', '#include " x"',
              '#include <x >', '#include <"x">', '#include "<x>"',
              '#tryinclude < x >', '#include  "\t x"', '#exec < x >',
              '#exec " x"', '#include <x\t>', '#include "\xa0x"']


def plan(tier):
    return {'cases': 40000 if tier == 'quick' else 140000,
            'min_events': {'messages': 2000, 'settings': 5000},
            'kinds': ALL}


def enumerated(tier):
    for length in range(1, 5 if tier == 'quick' else 6):
        for line in itertools.product(ALPHABET, repeat=length):
            yield ''.join(line)


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier
        self.chunks = None

    def line(self, rng, g):
        kind = rng.random()
        if kind < .15:
            line = rng.choice(HEADERS)
        elif kind < .27:
            line = rng.choice(DIRECTIVES)
        elif kind < .34:
            line = ''.join(rng.choice(ALPHABET)
                           for _ in range(rng.randint(0, 12)))
        elif kind < .5:
            line = rng.choice(g.dialplan_lines(1, 2))
        elif kind < .55:
            line = rng.choice(['', ' ', ';', 'bad', ' bad', 'x;=y', ';x=y'])
        else:
            space = ['', '', ' ', ' ', '\t', '  ', ' \t', '\xa0', '\x0b']
            line = (rng.choice(['', '', '', ' ', '\t', '\xa0', ' \t',
                                '\ufeff']) +
                    rng.choice(KEYS) + rng.choice(space) +
                    rng.choice(['=', '=', '=>', '=>', '= >', '==', '=>>']) +
                    rng.choice(space) + rng.choice(VALUES))
        if rng.random() < .05:
            # What other tools than Asterisk take for white space, for a line
            # end, for nothing at all, or for another spelling.
            pos = rng.choice([0, len(line), rng.randint(0, len(line))])
            line = line[0:pos] + rng.choice([
                '\ufeff', '\u2028', '\u2029', '\x85', '\x0b', '\x0c', '\x1c',
                '\u3000', '\u200b', '\xad', '\u0301', '\uff1d', '\uff1b',
                '\x00', '\r']) + line[pos:]
        if rng.random() < .15:
            line += rng.choice([' ; c', ';c', ' ', '\t', '\\', ' \\;', ' ;'])
        return line

    def generate(self, rng, index):
        if index % 50 == 0:
            if self.chunks is None:
                every = list(enumerated(self.tier))
                self.chunks = [
                    every[i:i + 2000] for i in range(0, len(every), 2000)]
                # Spread them: they are bigger than the others.
            if index // 50 < len(self.chunks):
                return {'files': {'extensions.conf': '\n'.join(
                    ['[s]'] + self.chunks[index // 50] + ['']
                    ).encode('utf-8')}, 'enumerated': True}
        g = gen.Gen(rng, bad=.2)
        files = {}
        lines = []
        if rng.random() < .7:
            lines.append('[s]')
        for _ in range(rng.randint(1, 14)):
            lines.append(self.line(rng, g))
        files['extensions.conf'] = '\n'.join(lines + ['']).encode('utf-8')
        if rng.random() < .3:
            files[rng.choice(['x', 'x', 'a b', 'b', 'x y', ' x', 'x ', '<x>',
                              '"x"'])] = '\n'.join(
                [self.line(rng, g).replace('#', '') for _ in range(
                    rng.randint(0, 4))] + ['from=x', '']).encode('utf-8')
        return {'files': files}

    def observe(self, case, data):
        files = data['files']
        observed = lint.config(files)
        expected, sections = model.read_config(files, 'extensions.conf')
        lint.compare(case, 'config', expected.msgs, observed.msgs, CODES)
        if observed.noise:
            case.fail('noise', repr(observed.noise))
        got = observed.sections
        settings = 0
        if [i[0] for i in got] != [i[0] for i in sections]:
            case.fail('headers', 'sections {!r} instead of {!r}'.format(
                [i[0] for i in got][0:9], [i[0] for i in sections][0:9]))
        for (gname, gfile, gline, gsets), (name, file_, line, sets) in zip(
                got, sections):
            if (gname, gfile, gline) != (name, file_, line):
                case.fail('header', '{!r} instead of {!r}'.format(
                    (gname, gfile, gline), (name, file_, line)))
            gsets = [tuple(i) for i in gsets]
            if gsets != sets:
                diff = [(a, b) for a, b in itertools.zip_longest(gsets, sets)
                        if a != b]
                which = 'count'
                if diff[0][0] and diff[0][1]:
                    which = [n for n, a, b in zip(
                        ('key', 'value', 'arrow', 'file', 'line'),
                        *diff[0]) if a != b][0]
                case.fail('setting:' + which, '[{}] got/want {!r}'.format(
                    name, diff[0]))
            settings += len(gsets)
            for key, value, arrow, _, _ in gsets:
                case.see('arrow' if arrow else 'equals')
                if ';' in value:
                    case.see('escaped-semicolon')
        case.stats['settings'] += settings
        if data.get('enumerated'):
            case.stats['enumerated_lines'] += (
                files['extensions.conf'].count(b'\n'))
        if settings and any(m.code.startswith(CODES) for m in observed.msgs):
            case.nontrivial = True
