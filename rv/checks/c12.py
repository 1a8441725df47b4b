"""C12: canonical patterns keep their meaning; the hint fires when needed."""
import collections
import itertools

from asterisklint.pattern import Pattern
from asterisklint.where import DUMMY_WHERE

from .. import core, gen, lint, magnify, model
from .c11 import BAD, MORE, PIECES, Workload as Patterns, usable

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: relational oracle over the observed canonical '
             'spellings (same byte-set sequence, idempotent, one spelling per '
             'sequence) and an exact comparison of the hints in dialplans')
RULE = ('All sets of up to three members of a hostile alphabet, random sets '
        'and patterns with their respellings, and dialplans; non-trivial is '
        'a case with a non-canonical pattern.')
ASSUMPTIONS = [
    'Patterns made only of dashes, sets of just a dash and sets with '
    'non-ASCII members are left out: nothing can match the first two, and '
    'the last are sets of bytes that cannot be written otherwise.',
]
ALPHABET = '01239-XxzN.![\\^_aAbz!*~ '


def plan(tier):
    return {'cases': 20000 if tier == 'quick' else 250000,
            'min_events': {'canonical': 5000, 'noncanonical': 5000,
                           'spelled-alike': 1000, 'hints': 2000},
            'kinds': ('enumerated', 'random', 'dialplan', 'literalised')}


def in_scope(raw):
    # What a file cannot have: a comma, or a literal that starts like the
    # separator.
    if ',' in raw:
        return False
    if raw[0:1] != '_' and (raw.lstrip('-')[0:1] == '>' or
                            raw.lstrip('-')[0:1].isspace()):
        return False
    pat = model.Pat(raw)
    return usable(raw) and not any(
        not isinstance(i, str) and len(i) > 1 and max(i) > 127
        for i in pat.seq) and ('[' not in raw or raw.isascii())


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.patterns = Patterns(tier, worker)
        self.sets = [''.join(i) for i in itertools.chain(*(
            itertools.product(ALPHABET, repeat=n) for n in (1, 2, 3)))]
        self.chunk = 12

    def generate(self, rng, index):
        chunks = (len(self.sets) + self.chunk - 1) // self.chunk
        if index < chunks:
            sets = self.sets[index * self.chunk:(index + 1) * self.chunk]
            pats = ['_1[{}]'.format(i) for i in sets]
            pats += ['_[{}]X.'.format(''.join(
                rng.sample(i, len(i)))) for i in sets]
            return {'kind': 'enumerated', 'patterns': pats}
        if index % 2:
            pats = [self.pattern(rng) for _ in range(5)]
            pats += [self.respell(rng, i) for i in pats for _ in range(3)]
            pats += [self.patterns.respell(rng, i) for i in pats[0:5]]
            data = {'kind': 'random', 'patterns': pats}
            if rng.random() < magnify.share(.06):
                self.patterns.lengthen(rng, data)
            return data
        g = gen.Gen(rng, bad=rng.choice([0, .1, .3]))
        g.again = rng.choice([0, 0, 0, .3])
        lines = g.dialplan_lines(lines=rng.randint(1, 12))
        # Odd patterns.
        for _ in range(rng.randint(0, 8)):
            pat = self.pattern(rng)
            lines.append('exten => {},{},NoOp()'.format(
                pat, rng.choice(['1', '1', '2', 'n', 'x', '0', 'n(a)'])))
        return {'kind': 'dialplan', 'files': g.spread(
            lines, level=rng.choice([0, .3]))}

    def pattern(self, rng):
        if rng.random() < .5:
            return self.patterns.pattern(rng)
        if rng.random() < .05:
            return '_' + rng.choice(BAD)
        ret = ['_']
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .5:
                ret.append(self.randomset(rng))
            else:
                ret.append(rng.choice(PIECES + MORE))
        return ''.join(ret)

    def randomset(self, rng):
        ret = []
        for _ in range(rng.choice([1, 2, 2, 3, 5])):
            a = chr(rng.choice([rng.randint(32, 126), rng.randint(48, 57),
                                rng.randint(86, 100)]))
            if a in '],;':
                a = '1'
            if rng.random() < .5:
                b = chr(min(126, ord(a) + rng.choice([0, 1, 2, 3, 8, 30])))
                ret.append('{}-{}'.format(a, b if b not in '],;' else a))
            else:
                ret.append(a)
        return '[{}]'.format(''.join(ret))

    def respell(self, rng, raw):
        "Another spelling of exactly the same sequence."
        pat = model.Pat(raw)
        if not pat.valid:
            return raw
        if pat.kind == 'lit':
            return ''.join(i + rng.choice(['', '', '-']) for i in raw)
        ret = ['_']
        for item in pat.seq:
            if rng.random() < .1:
                ret.append('-')
            if isinstance(item, str):
                ret.append(item)
                continue
            members = sorted(item)
            if len(members) == 1 and members[0] > 127:
                # A byte of something; don't touch.
                return raw
            text = ''.join(map(chr, members))
            if text == '0123456789' and rng.random() < .5:
                ret.append(rng.choice('Xx'))
            elif text == '123456789' and rng.random() < .5:
                ret.append(rng.choice('Zz'))
            elif text == '23456789' and rng.random() < .5:
                ret.append(rng.choice('Nn'))
            elif len(text) == 1 and text not in '-.![]XZNxzn' and (
                    rng.random() < .6):
                ret.append(text)
            elif len(text) == 1 and text == ']':
                ret.append(text)
            else:
                ret.append(self.respell_set(rng, members, raw))
                if ret[-1] is None:
                    return raw
        return ''.join(ret)

    def respell_set(self, rng, members, raw):
        if 0x5d in members:
            # It can only be inside a range.
            low = high = 0x5d
            while low - 1 in members:
                low -= 1
            while high + 1 in members:
                high += 1
            if low == 0x5d or high == 0x5d:
                return None
            ret = ['{}-{}'.format(chr(low), chr(high))]
            members = [i for i in members if not low <= i <= high]
        else:
            ret = []
        dash = 0x2d in members
        members = [i for i in members if i != 0x2d]
        rng.shuffle(members)
        rest = set(members)
        for i in members:
            if i not in rest:
                continue
            end = i
            while rng.random() < .6 and end + 1 in rest:
                end += 1
            if end > i:
                rest -= set(range(i, end + 1))
                a, b = chr(i), chr(end)
                if rng.random() < .2:
                    a, b = b, a
                ret.append('{}-{}'.format(a, b))
            else:
                rest.discard(i)
                ret.append(chr(i) * rng.choice([1, 1, 1, 2]))
        rng.shuffle(ret)
        return '[{}{}]'.format(''.join(ret), '-' if dash else '')

    def observe(self, case, data):
        case.see(data['kind'])
        if data['kind'] == 'dialplan':
            return self.whole(case, data)
        spelled = {}
        for raw in data['patterns']:
            if not in_scope(raw):
                continue
            pat = model.Pat(raw)
            actual = Pattern(raw, DUMMY_WHERE)
            canon = actual.canonical_pattern
            again = Pattern(canon, DUMMY_WHERE)
            written = pat.nodash()
            case.stats['canonical' if written == canon else
                       'noncanonical'] += 1
            if written != canon:
                case.nontrivial = True
            if raw[0] == '_' and canon[0:1] != '_':
                case.see('literalised')
            meaning = model.Pat(canon)
            if meaning.seq != pat.seq:
                case.fail('meaning', 'canonical {!r} does not match the same '
                          'as {!r}'.format(canon, raw))
            if again.canonical_pattern != canon:
                case.fail('idempotent', '{!r} becomes {!r} becomes {!r}'
                          .format(raw, canon, again.canonical_pattern))
            if ',' in canon and ',' not in raw:
                case.fail('comma', 'canonical {!r} of {!r} has a comma, which '
                          'ends a pattern'.format(canon, raw))
            if canon[0:1] != raw[0:1] and (
                    canon[0:1] == '>' or canon[0:1].isspace()):
                case.fail('separator', 'canonical {!r} of {!r} starts with '
                          'what is taken for the separator'.format(canon, raw))
            if not again.is_canonical:
                case.fail('is-canonical', 'canonical {!r} of {!r} is not '
                          'canonical'.format(canon, raw))
            if bool(actual.is_canonical) != (written == canon):
                case.fail('is-canonical', '{!r} is {}canonical, but its form '
                          'is {!r}'.format(
                              raw, '' if actual.is_canonical else 'not ',
                              canon))
            other = spelled.setdefault(pat.seq, (canon, raw))
            if other[1] != raw:
                case.stats['spelled-alike'] += 1
            if other[0] != canon and not self.underscore(pat):
                case.fail('one-spelling', '{!r} and {!r} mean the same, but '
                          'become {!r} and {!r}'.format(
                              other[1], raw, other[0], canon))

    @staticmethod
    def underscore(pat):
        "The literal that becomes _ without dashes has no other spelling."
        return pat.seq[0] == {0x5f} or any(i == {0x2d} for i in pat.seq)

    def whole(self, case, data):
        files = data['files']
        observed = lint.dialplan(files)
        expected = model.DialplanModel(files)
        want = {}
        # A line is read as often as its file is included.
        times = collections.Counter(i[0:2] for i in expected.hints)
        for file_, line, pat in expected.hints:
            canon = Pattern(pat.raw, DUMMY_WHERE).canonical_pattern
            if not in_scope(pat.raw):
                canon = None
            elif canon == pat.nodash():
                continue
            want[(file_, line)] = (pat.raw, canon)
        got = {}
        for msg in observed.messages:
            if msg.code == 'H_PAT_NON_CANONICAL':
                where = (msg.file, msg.line)
                times[where] -= 1
                if where in got and times[where] < 0:
                    case.fail('hint-twice', 'too many hints at {}:{}'.format(
                        *where))
                got[where] = msg.text
        case.stats['hints'] += len(got)
        case.nontrivial = bool(got)
        for where, (raw, canon) in want.items():
            if canon is None:
                got.pop(where, None)
            elif where not in got:
                case.fail('hint-missed', 'no hint at {}:{} for {!r}, which is '
                          '{!r}'.format(where[0], where[1], raw, canon))
            else:
                text = got.pop(where)
                if repr(canon) not in text or repr(raw) not in text:
                    case.fail('hint-text', '{!r} should name {!r} and {!r}'
                              .format(text, raw, canon))
        for where, text in got.items():
            case.fail('hint-bogus', 'a hint at {}:{}: {}'.format(
                where[0], where[1], text))


__all__ = ['core']
