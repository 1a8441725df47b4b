"""C11: patterns match exactly the extensions that Asterisk would match."""
import itertools

from asterisklint.pattern import Pattern
from asterisklint.where import DUMMY_WHERE

from .. import core, lint, magnify, model

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every answer of the matcher, of the equality '
             'and of the example is compared with sequences of byte sets; '
             'also through jumps and duplicates in whole dialplans')
RULE = ('All patterns and extensions over a small alphabet up to a length, '
        'random ones over all characters, and dialplans whose jumps depend '
        'on a match; non-trivial is a case with both matches and mismatches.')
ASSUMPTIONS = [
    'Matching as in pbx.c: a set is a set of bytes, dashes in the extension '
    'and outside sets are skipped; the first "." or "!" ends the pattern.',
    'A literal and a pattern of the same sequence are duplicates of each '
    'other in a section, but they are not equal as Pattern objects.',
]
PIECES = ['X', 'Z', 'N', '[12]', '[0-9]', '[a-c]', '1', 'a', '.', '!', '-',
          '[1a]', 'n', '[2-1]', '[1-]', '[X]']
CHARS = '0129ab-X'
MORE = ['x', 'z', '0', '5', '9', 's', '*', '#', '+', '[5-8]', '[3-39]', 'e',
        '[-5]', '[*#]', '[.]', '[!]', '[n]', '[b-y]', '[1-35-7]', '[0-90-9]',
        '\u00e9', '\u20ac', '\U0001f600', '[\u00e9]', '[a-\u00e9]', '\\', '?',
        '[[]', ']', '_', ' ', '[ -~]', '[z-a]', '[A-Za-z]', '[9-0]', '[11]',
        '[\\]', '[%--]', '[+--]', '[--0]', '[-a-c]', '[a-c-]', '$', '(', '[1-3-5]']
BAD = ['[', '[1', '[]', '[1-', '1[', 'X[]', '[[', '[]]', '[-', 'N[2-9', '[]1']


def plan(tier):
    return {'cases': 24000 if tier == 'quick' else 300000,
            'min_events': {'matches': 5000, 'mismatches': 20000, 'equal': 500,
                           'jumps': 3000},
            'kinds': ('enumerated', 'random', 'dialplan', 'invalid', 'dupe',
                      'big:length')}


def usable(raw):
    "Not only dashes, and every set can match something."
    pat = model.Pat(raw)
    return pat.valid and pat.seq and all(
        isinstance(i, str) or i != {0x2d} for i in pat.seq)


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier
        self.length = 3 if tier == 'quick' else 4
        self.all = list(itertools.chain(*(
            itertools.product(PIECES, repeat=n)
            for n in range(1, self.length + 1))))
        self.extens = [''.join(i) for i in itertools.chain(*(
            itertools.product(CHARS, repeat=n)
            for n in range(1, 4)))]
        self.chunk = 8 if tier == 'quick' else 12

    def generate(self, rng, index):
        chunks = (len(self.all) + self.chunk - 1) // self.chunk
        if index < chunks:
            pats = ['_' + ''.join(i) for i in self.all[
                index * self.chunk:(index + 1) * self.chunk]]
            return {'kind': 'enumerated', 'patterns': pats, 'extens': (
                rng.sample(self.extens, 150))}
        data = self.random(rng) if index % 3 else self.dialplan(rng)
        if rng.random() < magnify.share(.06):
            self.lengthen(rng, data)
        return data

    @staticmethod
    def lengthen(rng, data):
        "Something long before everything, or in a part of the patterns."
        chars = ''.join(i for i in magnify.dictionary.get().chars
                        if i not in ',;[]-\n\r ')
        if chars and rng.random() < .6:
            # What the code knows.
            for key in ('patterns', 'extens', 'jumps'):
                for n, item in enumerate(data.get(key, ())):
                    char = rng.choice(chars)
                    if key == 'jumps' and char in '()$"?:{}\\|\t\'&':
                        continue
                    pos = rng.randint(1, len(item)) if item else 0
                    if key == 'patterns' and data['kind'] == 'random' and (
                            rng.random() < .4):
                        char = '[{}]'.format(char)
                    if data['kind'] != 'dialplan' or key == 'jumps':
                        data[key][n] = item[0:pos] + char + item[pos:]
            return
        size = magnify.size(rng, most=3000)
        piece, char = rng.choice([
            ('1', '1'), ('X', '5'), ('[12]', '2'), ('Z', '3'), ('[0-9]', '7'),
            ('a', 'a'), ('[a-c]', 'b')])
        some = rng.random() < .3
        for key in ('patterns', 'extens', 'jumps'):
            if key in data:
                data[key] = [i if some and rng.random() < .3 else (
                    '_' + piece * size + i[1:] if i.startswith('_') and
                    key == 'patterns' else char * size + i)
                    for i in data[key]]
        data['big'] = ['length']

    def pattern(self, rng):
        if rng.random() < .05:
            return '_' + rng.choice(BAD)
        pieces = [rng.choice(PIECES + MORE) for _ in range(rng.choice(
            [1, 1, 2, 2, 3, 4, 6]))]
        if rng.random() < .25:
            return ''.join(i for i in pieces if i[0] not in '[_') or '1'
        if rng.random() < .1:
            pieces.append(self.randomset(rng))
        return '_' + ''.join(pieces)

    def randomset(self, rng):
        chars = '019adzANX*#+-.!\\^~/ "'
        return '[{}]'.format(''.join(rng.choice(chars) for _ in range(
            rng.randint(1, 7))))

    def respell(self, rng, raw):
        "Another spelling of a pattern; it may mean something else."
        pieces = [('X', 'x'), ('X', '[0-9]'), ('Z', '[1-9]'), ('N', '[2-9]'),
                  ('[12]', '[21]'), ('[12]', '[1-2]'), ('1', '[1]'),
                  ('a', '[a]'), ('[a-c]', '[abc]'), ('[1a]', '[a1]'),
                  ('1', '-1'), ('.', '.1'), ('X', '[0-8]'), ('[12]', '[1]'),
                  ('_', ''), ('!', '!!'), ('a', 'A'), ('[a-c]', '[c-a]')]
        ret = raw
        for _ in range(rng.randint(1, 4)):
            a, b = rng.choice(pieces)
            if rng.random() < .5:
                a, b = b, a
            if a:
                ret = ret.replace(a, b, 1)
        return ret or '1'

    def exten_for(self, rng, raw):
        "One that matches, or nearly so."
        pat = model.Pat(raw)
        ret = []
        for item in pat.seq or ():
            if item in ('.', '!'):
                ret.extend(rng.choice([
                    b'', b'1', b'99', b'a', b'x!', '\u00e9'.encode('utf-8')]))
                break
            members = sorted(i for i in item if i < 0x80 or len(item) == 1)
            ret.append(rng.choice(members or [0x31]))
        ret = bytes(ret).decode('utf-8', 'replace')
        if rng.random() < .5:
            pos = rng.randint(0, len(ret))
            ret = ret[0:pos] + rng.choice(
                ['1', '-', 'a', '0', '', '9', 'X', '\u00e9']) + (
                ret[pos + rng.randint(0, 1):])
        return ret

    def random(self, rng):
        pats = [self.pattern(rng) for _ in range(4)]
        pats += [self.respell(rng, rng.choice(pats)) for _ in range(4)]
        extens = [self.exten_for(rng, i) for i in pats for _ in range(3)]
        extens += ['1', '', '-', 's']
        return {'kind': 'random', 'patterns': pats, 'extens': extens}

    def dialplan(self, rng):
        pats = [i for i in (self.pattern(rng) for _ in range(6))
                if usable(i) and not any(
                    c in i for c in ',;()$"\u00e9\u20ac\U0001f600')
                and i.strip() == i and '[ ' not in i
                and not any(not isinstance(j, str) and any(
                    k > 127 for k in j) for j in model.Pat(i).seq)]
        pats += [j for j in (self.respell(rng, i) for i in pats)
                 if usable(j) and rng.random() < .3]
        # (A literal that becomes "_" without its dashes is no pattern.)
        pats = [i for i in pats if i.strip() == i and
                model.Pat(i).seq[0] != {0x5f}]
        jumps = []
        for pat in pats:
            for _ in range(2):
                exten = self.exten_for(rng, pat)
                if exten and not (set(exten) & set(
                        ',;()[]$"?:{}\\| \t\'&')) and exten != 'i':
                    jumps.append(exten)
        return {'kind': 'dialplan', 'patterns': pats, 'jumps': jumps,
                'prio': rng.choice(['1', 'here'])}

    def observe(self, case, data):
        case.see(data['kind'])
        if data['kind'] == 'dialplan':
            return self.whole(case, data)
        pats = []
        for raw in data['patterns']:
            expected = model.Pat(raw)
            actual = Pattern(raw, DUMMY_WHERE)
            if not expected.valid:
                case.see('invalid')
                continue
            pats.append((raw, expected, actual))
            good = 0
            for exten in data['extens']:
                want = expected.matches(exten)
                got = actual.matches_extension(exten)
                case.stats['matches' if want else 'mismatches'] += 1
                good += want
                if bool(got) != want:
                    case.fail('match' if want else 'mismatch',
                              'pattern {!r} {} {!r}'.format(
                                  raw, 'does not match' if want else
                                  'matches', exten))
            if 0 < good < len(data['extens']):
                case.nontrivial = True
            if usable(raw):
                example = actual.example
                if not expected.matches(example):
                    case.fail('example', 'the example {!r} is not matched by '
                              '{!r}'.format(example, raw))
                if not actual.matches_extension(example):
                    case.fail('example', 'the example {!r} is not matched by '
                              '{!r} itself'.format(example, raw))
        for (rawa, ma, a), (rawb, mb, b) in itertools.combinations(pats, 2):
            if ma.kind != mb.kind or not ma.seq or not mb.seq:
                continue
            want = ma.seq == mb.seq
            case.stats['equal' if want else 'unequal'] += 1
            if (a == b) != want or (b == a) != want or (a != b) == want:
                case.fail('equality', '{!r} and {!r} are {}the same'.format(
                    rawa, rawb, '' if want else 'not '))
            if want and hash(a) != hash(b):
                case.fail('hash', '{!r} and {!r} hash differently'.format(
                    rawa, rawb))

    def whole(self, case, data):
        """
        The same, as shown by what the linter reports.
        """
        lines = ['[general]', '[globals]', '[p]']
        seen = {}
        dupes = set()
        for pat in data['patterns']:
            lines.append('exten => {},1(here),NoOp()'.format(pat))
            if model.Pat(pat).key in seen:
                dupes.add(len(lines))
            seen[model.Pat(pat).key] = True
        lines.append('[jumps]')
        missing = set()
        for n, exten in enumerate(data['jumps'], 1):
            lines.append('exten => {},1,Goto(p,{},{})'.format(
                n, exten, data['prio']))
            if not any(model.Pat(i).matches(exten) or (
                    data['prio'] == '1' and model.Pat(i).matches('i'))
                    for i in data['patterns']):
                missing.add(len(lines))
        observed = lint.dialplan({
            'extensions.conf': '\n'.join(lines + ['']).encode('utf-8')})
        got = {}
        for msg in observed.messages:
            got.setdefault(msg.code, set()).add(msg.line)
        case.stats['jumps'] += len(data['jumps'])
        case.stats['missing'] += len(missing)
        if dupes:
            case.see('dupe')
        case.nontrivial = 0 < len(missing) < len(data['jumps'])
        for code, want in (('W_DP_GOTO_CONTEXT_NOEXTEN', missing),
                           ('E_DP_PRIO_DUPE', dupes)):
            for line in got.get(code, set()) ^ want:
                case.fail('report:' + code, 'line {!r} is {}reported; '
                          'patterns {!r}'.format(
                              lines[line - 1], 'not ' if line in want else '',
                              data['patterns']))


__all__ = ['core']
