"""C03: findings and parsed elements carry the exact file and line."""
import os
import shutil
import sys
import tempfile

from .. import core, gen, lint, model
from ..modelcheck import DialplanCheck

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every message and parsed element of the real '
             'parser is compared by file and line with a reference model that '
             'resolves the include tree independently; opened files are logged')
RULE = ('Random dialplans spread over random include trees (siblings, nested '
        'directories, the same file more than once, missing files, quoted '
        'names), read through a recording opener or from real directories; '
        'non-trivial is a case in which an included file has an element or a '
        'message.')
ASSUMPTIONS = ['No file includes itself, directly or indirectly.']
ALL = ('W_PP_INCLUDE_MISSING', 'W_PP_EXEC', 'real', 'memory', 'twice',
       'nested')


def plan(tier):
    return {'cases': 12000 if tier == 'quick' else 220000,
            'min_events': {'messages': 5000, 'extensions': 5000,
                           'included': 1000, 'real': 100},
            'kinds': ALL}


class Workload(DialplanCheck):
    codes = None

    def __init__(self, tier, worker):
        super().__init__(tier, worker)
        self.dir = tempfile.mkdtemp(prefix='c03-', dir=core.WORK)

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, rng, index):
        g = self.gen(rng)
        if rng.random() < .5:
            files = g.spread(g.dialplan_lines(), level=rng.choice(self.levels),
                             missing=.3)
        else:
            files = self.tree(rng, g)
        name = rng.choice([
            'extensions.conf', 'extensions.conf', './extensions.conf',
            'etc/asterisk/extensions.conf', 'etc/../extensions.conf',
            'a//extensions.conf'])
        real = rng.random() < .12
        if real:
            name = rng.choice(['extensions.conf', './extensions.conf', '/abs/',
                               'sub dir/extensions.conf'])
        return {'files': files, 'name': name, 'real': real}

    def tree(self, rng, g):
        """
        Files that include any file with a higher number.
        """
        names = ['extensions.conf', 'a.conf', 'x/b.conf', 'x/c.conf',
                 'x/y/d.conf', 'e.conf'][0:rng.randint(2, 6)]
        files = {}
        every = g.dialplan_lines(rng.randint(2, 6))
        for n, name in enumerate(names):
            start = rng.randint(0, len(every))
            lines = every[start:start + rng.randint(0, 7)]
            if n == 0:
                lines = every[0:rng.randint(1, 9)]
            for other in names[n + 1:]:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    depth = name.count('/')
                    path = '../' * depth + other
                    if depth == 1 and other.startswith('x/') and (
                            rng.random() < .7):
                        path = other[2:]
                    if rng.random() < .15:
                        path = rng.choice(['nosuch', 'y', '../none', other])
                    lines.insert(rng.randint(0, len(lines)), '{} {}'.format(
                        rng.choice(['#include', '#tryinclude']),
                        rng.choice(['{}', '"{}"', '<{}>']).format(path)))
            files[name] = g.layout(lines, rng.choice([0, .3, 1]))
        return files

    def observe(self, case, data):
        files, name = data['files'], data['name']
        # The path of the first file is put before those of the included
        # ones.
        base = os.path.normpath(os.path.dirname(name))
        placed = {
            os.path.normpath(os.path.join(base, key)): value
            for key, value in files.items()}
        if data['real']:
            observed, placed, name = self.real(files, name)
            case.see('real')
            case.stats['real'] += 1
        else:
            observed = lint.dialplan(placed, name)
            case.see('memory')
        expected = model.DialplanModel(placed, name)
        expected.walk()
        self.judge(case, {'files': files}, observed, expected)
        if len(expected.fm.opened) != len(set(expected.fm.opened)):
            case.see('twice')
        if any('/' in i[len(name) - 15:] for i in expected.fm.opened[1:]):
            case.see('nested')
        if not data['real']:
            want = expected.fm.opened
            got = observed.opener.opened
            if want != got:
                case.fail('opened', 'opened {!r} instead of {!r}'.format(
                    got, want))
        # Did it concern other files than the first?
        others = set(i.file for i in observed.messages if i.file != name)
        for section in observed.dialplan.contexts:
            others.update(e.where.filename for e in section
                          if e.where.filename != name)
            # The text of the line that an element came from.
            for e in section:
                self.line_of(case, placed, e.where)
        case.nontrivial = bool(others)
        case.stats['included'] += len(others)

    def line_of(self, case, placed, where):
        lines = placed.get(os.path.normpath(where.filename), b'').split(b'\n')
        if not 1 <= where.lineno <= len(lines):
            case.fail('lineno', 'no line {} in {}'.format(
                where.lineno, where.filename))

    def real(self, files, name):
        root = tempfile.mkdtemp(dir=self.dir)
        cwd = os.getcwd()
        try:
            if name == '/abs/':
                name = os.path.join(root, 'extensions.conf')
            top = os.path.join(root, os.path.dirname(name))
            placed = {}
            for key, value in files.items():
                path = os.path.join(top, key)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as fp:
                    fp.write(value)
                placed[os.path.normpath(os.path.join(
                    os.path.dirname(name), key))] = value
            os.chdir(root)
            return self.run_real(name), placed, name
        finally:
            os.chdir(cwd)
            shutil.rmtree(root)

    def run_real(self, name):
        ret = lint.Observed()
        lint.fresh()
        with lint.captured() as cap:
            parser = lint.FileDialplanParser()
            parser.include(name)
            ret.dialplan = next(iter(parser))
            ret.dialplan.walk_jump_destinations()
        ret.messages, ret.noise = lint.parse_stderr(cap.text)
        return ret


__all__ = ['gen', 'sys', 'Workload']
