"""C09: 'dialplan show' lists every extension once, in Asterisk's order."""
import collections
import random
import re

from .. import gen, lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the listing is parsed back and checked for '
             'conservation, grouping and order against an independent '
             'implementation of the pattern order; declaration-order '
             'metamorphic runs')
RULE = ('Random sections with many related literals and patterns in several '
        'spellings, listed in both directions, and again with the pattern '
        'groups declared in another order; non-trivial is a listing with at '
        'least two patterns in a section.')
ASSUMPTIONS = [
    'Order of patterns: position by position from few to many members, as '
    'pbx.c ext_cmp1 does; equal groups are spellings of one extension.',
]
ROW = re.compile(r"^  (?:'(.*?)' =>|(Include =>)|   (.*?)) ")
SHAPES = ['_X', '_Z', '_N', '_[12]', '_[13]', '_[0-9]', '_.', '_!', '_1',
          '_X.', '_X!', '_1X', '_1.', '_[1-9]', '_[2-9]', '_[123]', '_[19]',
          '_XX', '_NX', '_XN', '_[a-c]', '_[1a]', '_-1', '_1-1', '_11', '_a',
          '1', '11', '9', '10', '2', 'a', 's', 'i', 'X', 'N1', '#', '*', '+1',
          '1-1', '_[1]', '_[21]', '_[1-2]', '_z', '_x', '_n', '_[0-8]',
          '_[1-8]', '_[0-8]X', '_[4-6]', '_[789]', '_X[12]', '_[12]X', '_12X',
          '_1XX', '_1X.', '_1X!', '_1[2-3]', '_1[4-9]', '_1[2345]', '_s',
          '_[*]', '_[#-*]', 'abc', 'ABC', '_A', '_[A-Z]', '_\u00e9', '0', '00',
          '_0', '_[^1]', '_[!]', '_[.]', '1.', '1!']


def plan(tier):
    return {'cases': 16000 if tier == 'quick' else 250000,
            'min_events': {'rows': 20000, 'shuffled': 1000},
            'kinds': ('reversed', 'forward', 'include', 'label', 'patterns')}


def parenthesised(app):
    "An application without parentheses is shown with them."
    return app + ('' if '(' in app else '(') + ('' if ')' in app else ')')


def listing(text):
    """[(section, [(pattern, prio, label, app) or ('include', name)])]"""
    ret = []
    for line in text.split('\n'):
        if line.startswith('[ Context '):
            ret.append((line, []))
        elif line:
            ret[-1][1].append(line)
    return ret


class Workload(DialplanCheck):
    codes = ()
    structure = False

    def generate(self, rng, index):
        if rng.random() < .4:
            g = self.gen(rng, bad=rng.choice([0, .05, .15]))
            return {'files': g.spread(g.dialplan_lines(), level=.3),
                    'shuffle': None}
        g = gen.Gen(rng, bad=0)
        lines = ['[general]', '[globals]']
        sections = []
        for _ in range(rng.randint(1, 3)):
            name = rng.choice(['a', 'b', 'c d', '\u00e9', "it's", 'x'])
            groups = []
            pats = rng.sample(SHAPES, rng.randint(1, 9))
            pats += [g.exten() for _ in range(rng.randint(0, 3))]
            for pat in pats:
                group = []
                for n in range(rng.choice([1, 1, 2, 3])):
                    label = rng.choice(['', '', '', '(l%d)' % n])
                    app = rng.choice(['NoOp(%d)' % n, 'NoOp', 'Answer()',
                                      'Verbose(%s,[x])' % n, 'Set(a=b) ',
                                      'Wait', 'Playback(a', 'x' * 60])
                    group.append('exten => {},{}{},{}'.format(
                        pat, 'n' if n else 1, label, app))
                groups.append(group)
            includes = ['include => {}'.format(rng.choice(['a', 'b', 'x y']))
                        for _ in range(rng.choice([0, 0, 1, 3]))]
            sections.append((name, groups, includes))
        return {'sections': sections, 'shuffle': rng.randint(1, 10 ** 9)}

    def files(self, sections):
        lines = ['[general]', '[globals]']
        for name, groups, includes in sections:
            lines.append('[{}]'.format(name))
            for group in groups:
                lines.extend(group)
            lines.extend(includes)
        return {'extensions.conf': '\n'.join(lines + ['']).encode('utf-8')}

    def observe(self, case, data):
        files = data.get('files') or self.files(data['sections'])
        observed = lint.dialplan(files, walk=False)
        expected = model.DialplanModel(files)
        for reverse in (False, True):
            text = observed.dialplan.format_as_dialplan_show(reverse=reverse)
            case.see('reversed' if reverse else 'forward')
            self.conserve(case, observed.dialplan, text, reverse)
            want = expected.show(reverse)
            if text != want:
                diff = [(a, b) for a, b in zip(
                    text.split('\n'), want.split('\n')) if a != b]
                case.fail('listing', 'got/want {!r}'.format(
                    diff[0:2] or (text[-200:], want[-200:])))
        # The default is what the command shows.
        if data['shuffle']:
            self.shuffled(case, data, observed)

    def conserve(self, case, dialplan, text, reverse):
        "Every section, extension and include exactly once."
        blocks = listing(text)
        contexts = list(dialplan.contexts)
        if reverse:
            contexts.reverse()
        if len(blocks) != len(contexts):
            case.fail('sections', '{} sections listed, {} parsed'.format(
                len(blocks), len(contexts)))
            return
        for (head, rows), context in zip(blocks, contexts):
            if repr(context.name) not in head:
                case.fail('header', '{!r} for [{}]'.format(head, context.name))
            extens = lint.extens_of(context)
            pool = collections.Counter()
            for raw, prio, label, app, _, _ in extens:
                pool[(prio, parenthesised(app).strip())] += 1
            seen = collections.Counter()
            case.stats['rows'] += len(rows)
            for row in rows:
                if row.startswith('  Include => '):
                    case.see('include')
                    seen['include'] += 1
                    continue
                match = re.match(r"^  (?:'.*?' =>|   (?:\[.*?\])?) *"
                                 r"([0-9]+)\. ?(.*?) *\[pbx_config\]$", row)
                if not match:
                    case.fail('row', 'odd row {!r}'.format(row))
                    continue
                if '[' in row[0:20]:
                    case.see('label')
                key = (int(match.group(1)), match.group(2).strip())
                if pool[key] > 0:
                    pool[key] -= 1
                else:
                    case.fail('extra', 'listed but not parsed: {!r}'.format(
                        row))
            if +pool:
                case.fail('missing', 'not listed: {!r}'.format(
                    list(+pool)[0:3]))
            if seen['include'] != len(context.includes):
                case.fail('includes', '{} listed, {} parsed'.format(
                    seen['include'], len(context.includes)))
            if len(set(e[0] for e in extens)) > 1:
                case.nontrivial = True
                case.see('patterns')

    def shuffled(self, case, data, observed):
        """
        Declared in another order, the listing is the same; unless a group
        consists of several spellings.
        """
        rng = random.Random(data['shuffle'])
        sections = []
        for name, groups, includes in data['sections']:
            pats = [model.Pat(g[0][len('exten => '):].split(',')[0])
                    for g in groups]
            if len(set(p.key for p in pats)) != len(pats) or any(
                    not p.valid for p in pats):
                return
            groups = list(groups)
            rng.shuffle(groups)
            sections.append((name, groups, includes))
        if len(set(i[0] for i in sections)) != len(sections):
            return
        again = lint.dialplan(self.files(sections), walk=False)
        case.stats['shuffled'] += 1
        a = observed.dialplan.format_as_dialplan_show(reverse=False)
        b = again.dialplan.format_as_dialplan_show(reverse=False)
        if a != b:
            diff = [(x, y) for x, y in zip(a.split('\n'), b.split('\n'))
                    if x != y]
            case.fail('declaration-order', 'listing changes: {!r}'.format(
                diff[0:2]))
