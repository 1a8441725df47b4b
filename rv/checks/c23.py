"""C23: rewriting a file is all-or-nothing."""
import errno
import os
import random
import shutil
import signal
import stat
import subprocess
import sys

from .. import core, server, tools

PROPERTY = 'C23'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('fault injection with a runtime monitor: a preloaded library '
             'numbers the file system calls of the rewriting interpreter and '
             'makes each of them, in turn, fail, be cut short, be interrupted '
             'or be the last one (every directory being a file system of '
             'its own); what is on disk afterwards is compared with '
             'the complete old and new contents')
RULE = ('Random file trees with problems (large and small files, symbolic '
        'links, owners, modes, line endings), both tools, both Python '
        'implementations; per tree every call that the tool makes below the '
        'directory is combined with a kill, an interrupt, errors, short '
        'reads and writes and a partial write followed by a kill; non-trivial '
        'is a tree where the tool rewrites a file.')
ASSUMPTIONS = [
    'A kill is a kill of the process: what the page cache holds is not lost.',
    'An interrupt (SIGINT) while the tempfile module of Python itself creates '
    'the file may leave that file.',
]
ERRORS = ['EIO', 'ENOSPC', 'EACCES', 'EPERM', 'EINTR', 'EDQUOT', 'EROFS',
          'ENOENT', 'EMFILE']
NOTHING, ERROR, KILL, SIGNAL, SHORT, PARTIAL = range(6)
MODES = {ERROR: 'error', KILL: 'kill', SIGNAL: 'interrupt', SHORT: 'short',
         PARTIAL: 'partial'}
LIB = None


def plan(tier):
    calls = ('create', 'open', 'write', 'read', 'close', 'rename', 'chmod',
             'chown')
    return {'cases': 40 if tier == 'quick' else 1200,
            'min_events': {'runs': 3000, 'trees_compared': 3000,
                           'points': 800, 'replaced': 500, 'kept': 500},
            'kinds': tuple(
                '{}:{}'.format(mode, call) for call in calls
                for mode in ('error', 'kill', 'interrupt')) + (
                    'short:write', 'short:read', 'partial:write', 'double',
                    'refused', 'cpython', 'pypy', 'symlink', 'owner',
                    'setuid')}


def prepare(tier, seed):
    global LIB
    LIB = os.path.join(core.WORK, 'c23-{}.so'.format(os.getpid()))
    os.makedirs(core.WORK, exist_ok=True)
    subprocess.run(
        ['gcc', '-O1', '-shared', '-fPIC', '-o', LIB,
         os.path.join(core.VERIF, 'rv', 'fault.c'), '-ldl'], check=True)


def cleanup():
    os.unlink(LIB)


class Workload(object):
    def __init__(self, tier, worker):
        self.tier = tier
        self.dir = os.path.join(core.WORK, 'c23-{}-{}'.format(
            os.getpid(), worker))
        self.log = self.dir.replace('c23-', 'c23log-')
        os.mkdir(self.dir)
        self.servers = {}

    def finish(self):
        for i in self.servers.values():
            i.close()
        shutil.rmtree(self.dir)
        if os.path.exists(self.log):
            os.unlink(self.log)

    def server(self, python):
        if python not in self.servers:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            self.servers[python] = server.Server(
                '/usr/bin/pypy3' if python == 'pypy' else sys.executable,
                {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent',
                 'LC_ALL': 'C.UTF-8', 'TMPDIR': '/nonexistent',
                 'PYTHONHASHSEED': '0', 'LD_PRELOAD': LIB}, preload=True)
        return self.servers[python]

    # generating

    def content(self, rng, script, name, includes):
        eol = rng.choice(['\n', '\n', '\n', '\r\n'])
        lines = []
        if name == 'extensions.conf':
            lines.extend(['[general]', '[globals]'])
        for n, include in enumerate(includes):
            if n == 1 and rng.random() < .5:
                lines.append('; and')
            lines.append('[{}-{}]'.format(name.replace('/', '-'), n))
            lines.append('#include "{}"'.format(include))
        lines.append('[{}]'.format(name.replace('/', '-')))
        size = rng.choice([0, 0, 0, 0, 8100, 8192, 9000, 16384, 70000])
        wrong = rng.choice([0, 1, 1, 1, 2, 3])
        lines.append('exten => s,1,NoOp(first)')
        filler = 0
        at = sorted(rng.randrange(max(1, size)) for _ in range(wrong))
        total = sum(len(i) + len(eol) for i in lines)
        while total < size or at:
            if at and (total >= at[0] or total >= size):
                at.pop(0)
                if script == tools.CANONICAL:
                    line = 'exten => _{}[0-9]{},1,NoOp(_[0-9])'.format(
                        rng.randint(0, 99), filler)
                else:
                    line = 'exten => {}{},1,ExecIf(${{x}},NoOp,{})'.format(
                        rng.randint(0, 99), filler, rng.randint(0, 99))
                line += rng.choice(['', ' ; [0-9], caf\u00e9'])
            else:
                line = 'exten => {},1,NoOp(){}'.format(
                    1000 + filler, ' ; ' + 'x' * rng.randint(
                        0, max(60, size // 5)))
            filler += 1
            lines.append(line)
            total += len(line.encode()) + len(eol)
        data = eol.join(lines) + eol
        if rng.random() < .2:
            data = data[0:-len(eol)]
        return data.encode()

    def generate(self, rng, index):
        script = tools.CANONICAL if index % 3 else tools.CONVERT
        names = ['extensions.conf', 'sub/b.conf', 'c.conf', 'sub/d.conf']
        names = names[0:rng.choice([1, 1, 2, 2, 3, 4])]
        links = {}
        files = {}
        stats = {}
        includes = list(names[1:])
        for n, name in enumerate(names):
            real = name
            if rng.random() < .4:
                real = rng.choice(['real/r{}.conf', 'r{}.conf',
                                   'sub/r{}.conf']).format(n)
                target = rng.choice([
                    os.path.relpath(real, os.path.dirname(name) or '.'),
                    '{dir}/' + real])
                if rng.random() < .3:
                    between = 'link{}.conf'.format(n)
                    links[between] = real
                    target = os.path.relpath(
                        between, os.path.dirname(name) or '.')
                links[name] = target
            files[real] = self.content(
                rng, script, name, includes if not n else [])
            stats[real] = [
                rng.choice([0o600, 0o640, 0o644, 0o444, 0o660, 0o4755, 0o2750,
                            0o6711, 0o777, 0o400]),
                rng.choice([0, 0, 1234]), rng.choice([0, 0, 4321])]
        return {'script': script, 'files': files, 'links': links,
                'stats': stats, 'python': 'pypy' if index % 5 == 3 else
                'cpython', 'answer': rng.choice(
                    [b'n\n', b'', b'Y\n', b'yes\n', b'\n']),
                'umask': rng.choice([0o22, 0o77, 0]),
                'faults': rng.randint(0, 1 << 30)}

    # observing

    def write(self, data):
        shutil.rmtree(self.dir)
        for top in ('', 'sub', 'real'):
            os.mkdir(os.path.join(self.dir, top))
        for name, content in data['files'].items():
            path = os.path.join(self.dir, name)
            with open(path, 'wb') as fp:
                fp.write(content)
            mode, uid, gid = data['stats'][name]
            os.chown(path, uid, gid)
            os.chmod(path, mode)
        for name, target in data['links'].items():
            os.symlink(target.replace('{dir}', self.dir),
                       os.path.join(self.dir, name))

    def tree(self):
        "{name: (contents or link target, mode, uid, gid)}"
        ret = {}
        for top, dirs, names in os.walk(self.dir):
            for name in names:
                path = os.path.join(top, name)
                st = os.lstat(path)
                if stat.S_ISLNK(st.st_mode):
                    ret[os.path.relpath(path, self.dir)] = (
                        os.readlink(path), 'link', 0, 0)
                    continue
                with open(path, 'rb') as fp:
                    ret[os.path.relpath(path, self.dir)] = (
                        fp.read(), oct(st.st_mode), st.st_uid, st.st_gid)
        return ret

    def run(self, data, answer, *faults):
        self.write(data)
        if os.path.exists(self.log):
            os.unlink(self.log)
        faults = [tuple(i) for i in faults]
        faults += [(-1, NOTHING, 0)] * (2 - len(faults))
        ret = self.server(data['python']).call(
            tools.tool, data['script'], ['extensions.conf'],
            (self.dir, self.log, faults), data['umask'],
            cwd=self.dir, stdin=answer)
        with open(self.log) as fp:
            calls = [i.split(' ', 2)[1] for i in fp]
        return ret, calls, self.tree()

    def observe(self, case, data):
        rng = random.Random(data['faults'])
        case.see(data['python'])
        if data['links']:
            case.see('symlink')

        # Without interference.
        self.write(data)
        before = self.tree()
        ret, calls, after = self.run(data, b'y\n')
        case.stats['runs'] += 1
        if not self.check(case, 'undisturbed', before, after, None):
            return
        if ret.status:
            case.fail('status', 'undisturbed: exit {}: {}'.format(
                ret.status, ret.err[-800:]))
            return
        changed = set(i for i in before if before[i] != after[i])
        case.nontrivial = bool(changed)
        for name in changed:
            mode, uid, gid = data['stats'][name]
            if uid or gid:
                case.see('owner')
            if mode & 0o6000:
                case.see('setuid')

        # Refused.
        case.see('refused')
        ret, _, tree = self.run(data, data['answer'])
        case.stats['runs'] += 1
        self.check(case, 'answer {!r}'.format(data['answer']), before, tree,
                   None)
        if tree != before:
            case.fail('refused', 'answer {!r}: changes {!r}'.format(
                data['answer'], self.diff(before, tree)))
        if not changed:
            return

        # Each of the calls, one by one.
        points = list(range(len(calls)))
        if len(points) > 120:
            points = [i for i in points if calls[i] != 'read' or
                      rng.random() < .3]
        case.stats['points'] += len(points)
        for at in points:
            faults = [(at, KILL, 0), (at, SIGNAL, 0)]
            names = rng.sample(ERRORS, 1 if self.tier == 'quick' else 3)
            faults.extend((at, ERROR, getattr(errno, i)) for i in names)
            if calls[at] in ('read', 'write'):
                faults.append((at, SHORT, 0))
            if calls[at] == 'write':
                faults.append((at, PARTIAL, 0))
            for fault in faults:
                self.single(case, data, before, after, calls, fault)
                if len(case.failures) > 5:
                    return
        for _ in range(8 if self.tier == 'quick' else 40):
            two = [(at, rng.choice([ERROR, ERROR, KILL, SIGNAL, SHORT]),
                    getattr(errno, rng.choice(ERRORS)))
                   for at in (rng.choice(points), rng.randint(
                       0, len(calls) + 3))]
            if two[0][1] == two[1][1] == SHORT or two[0][0] == two[1][0]:
                continue
            case.see('double')
            case.stats['runs'] += 1
            ret, now, tree = self.run(data, b'y\n', *two)
            self.check(case, 'at {!r}'.format(two), before, tree, after,
                       temps=True, stats=False)

    def single(self, case, data, before, after, calls, fault):
        at, mode, number = fault
        ret, now, tree = self.run(data, b'y\n', fault)
        case.stats['runs'] += 1
        name = now[at] if at < len(now) else None
        case.see('{}:{}'.format(MODES[mode], name))
        what = '{}{} at call {} ({}, {})'.format(
            MODES[mode], ' ' + errno.errorcode[number] if number else '', at,
            name, data['python'])
        if now[0:at + 1] != calls[0:at + 1]:
            case.stats['other_calls'] += 1
            return
        killed = ret.status == -signal.SIGKILL
        if killed != (mode in (KILL, PARTIAL)):
            case.fail('killed', '{}: exit {}'.format(what, ret.status))
        self.check(case, what, before, tree, after,
                   temps=killed or (mode == SIGNAL and name == 'create'),
                   stats=killed)
        for i in tree:
            if i in before and before[i] != after[i]:
                case.stats['replaced' if tree[i][0] == after[i][0] else
                           'kept'] += 1
        if killed:
            return
        complete = all(tree.get(i) == after[i] for i in after)
        started = 'create' in calls[0:at + 1]
        if mode == SHORT and (ret.status or not complete):
            case.fail('short', '{}: exit {}, not everything is done'.format(
                what, ret.status))
        elif started and not ret.status and not complete:
            case.fail('unnoticed', '{}: exit 0, not everything is '
                      'done'.format(what))

    def check(self, case, what, before, tree, after, temps=False,
              stats=False):
        """
        Everything has the contents and owner it had, or (if after is given)
        all of the new contents.
        """
        case.stats['trees_compared'] += 1
        for name in sorted(before):
            old = before[name]
            now = tree.get(name)
            if now is None:
                case.fail('gone', '{}: {} is gone'.format(what, name))
                return False
            if old[1] == 'link' or now[1] == 'link':
                if old != now:
                    case.fail('link', '{}: {} was {!r}, is {!r}'.format(
                        what, name, old[0:1], now[0:1]))
                    return False
                continue
            if after and now[0] not in (old[0], after[name][0]):
                case.fail('mixed', '{}: {} has {} bytes, neither the old {} '
                          'nor the new {}'.format(
                              what, name, len(now[0]), len(old[0]),
                              len(after[name][0])))
                return False
            if not (stats and now[0] != old[0]) and now[1:] != old[1:]:
                case.fail('stats', '{}: {} was {!r}, is {!r}'.format(
                    what, name, old[1:], now[1:]))
                return False
        more = sorted(set(tree) - set(before))
        if more and not temps:
            case.fail('temporary', '{}: {!r} stays behind'.format(what, more))
            return False
        return True

    @staticmethod
    def diff(a, b):
        return sorted(i for i in set(a) | set(b) if a.get(i) != b.get(i))[0:3]
