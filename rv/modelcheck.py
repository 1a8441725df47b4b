"""
Checks that compare a run of the linter with the reference model.
"""
from . import core, gen, lint, model


class DialplanCheck(object):
    """
    Generates dialplans and compares the messages that the property is about,
    and, if asked for, the parsed result.
    """
    codes = None        # tuple of prefixes, or None for everything
    skip = ('H_PAT_NON_CANONICAL',)
    structure = True
    bads = (0, .05, .15, .4)
    levels = (0, .3, 1, 2)
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier

    def gen(self, rng, bad=None, **kwargs):
        ret = gen.Gen(rng, bad=rng.choice(self.bads) if bad is None else bad,
                      **kwargs)
        ret.again = rng.choice([0, 0, 0, 0, .3])
        return ret

    def generate(self, rng, index):
        g = self.gen(rng)
        return {'files': g.spread(
            g.dialplan_lines(), level=rng.choice(self.levels))}

    def observe(self, case, data):
        files = data['files']
        observed = lint.dialplan(files)
        expected = model.DialplanModel(files)
        expected.walk()
        self.judge(case, data, observed, expected)

    def judge(self, case, data, observed, expected):
        for noise in observed.noise:
            case.fail('noise', 'stderr has {!r}'.format(noise))
        self.compare(case, observed, expected)
        case.stats['lines'] += sum(
            i.count(b'\n') for i in data['files'].values())
        case.stats['files'] += len(data['files'])
        if self.structure:
            self.compare_structure(case, observed, expected)

    def compare(self, case, observed, expected):
        lint.compare(
            case, 'dialplan',
            [i for i in expected.msgs if i.code not in self.skip],
            [i for i in observed.msgs if i.code not in self.skip],
            self.codes)
        if any(i.code.startswith(self.codes) if self.codes else True
               for i in observed.msgs):
            case.nontrivial = True

    def compare_structure(self, case, observed, expected):
        want = [(x.name, x.where, [tuple(e) for e in x.extens], x.includes)
                for x in expected.sections]
        got = lint.sections_of(observed.dialplan)
        if [i[0] for i in want] != [i[0] for i in got]:
            case.fail('sections', 'sections {!r} instead of {!r}'.format(
                [i[0] for i in got], [i[0] for i in want]))
            return
        for w, g in zip(want, got):
            for what, a, b in zip(
                    ('name', 'where', 'extensions', 'includes'), w, g):
                if a != b:
                    if isinstance(a, list):
                        diff = [(x, y) for x, y in zip(a, b) if x != y] or (
                            (a + b)[min(len(a), len(b)):])
                    else:
                        diff = (a, b)
                    case.fail('structure:' + what,
                              'section [{}]: {} differ: want/got {!r}'.format(
                                  w[0], what, diff[0:2]))
            case.stats['extensions'] += len(w[2])


__all__ = ['DialplanCheck', 'core', 'gen', 'lint', 'model']
