"""C22: linting only reads the named files."""
import os
import re
import shutil
import stat
import subprocess
import sys

from .. import core, forked, gen, model, server

PROPERTY = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: Python audit events and the open file '
             'descriptors of every run, the system calls of some runs '
             '(strace) and the file tree before and after are checked '
             'against what the reference model says may be opened')
RULE = ('Random dialplans and func_odbc files over include trees, with '
        'hostile file names, #exec lines and applications that name files '
        'and commands; non-trivial is a case with a hostile line or an '
        'included file.')
ASSUMPTIONS = [
    'Python\'s own files and the source of the linter may be read too. Files '
    'may be looked at (stat) before they are opened.',
]
HOSTILE = [
    '#exec touch canary', '#exec "touch canary"', '#exec /bin/rm -f secret',
    '#execincludes', '#include |touch canary', '#include "touch canary|"',
    '#include `touch canary`', '#include $(touch canary)', '#include *.conf',
    '#include ../outside.conf', '#include "../outside.conf"',
    '#include ~/secret', '#include $HOME/secret', '#include ${HOME}/secret',
    '#include sub', '#include .', '#include ..', '#include /',
    '#tryinclude /nonexistent/x', '#include a.conf;touch canary',
    '#include -', '#include &', '#include > canary', '#include secret\0x',
    '#tryinclude |touch canary', '#include x\u00e9.conf',
    '#include file:///etc/hosts', '#include http://127.0.0.1:9/x',
    '#include secret', '#tryinclude "secret"', '#include ./../cwd/secret',
    '#include secret2', '#EXEC touch canary', '#exec',
    'exten => s,1,System(touch canary)', 'include => secret',
    'exten => s,1,TrySystem(rm -rf .)', 'switch => Lua/secret',
    'exten => s,1,NoOp(${SHELL(touch canary)})',
    'exten => s,1,Set(FILE(canary)=x)', 'exten => s,1,AGI(touch canary)',
    'exten => s,1,NoOp(${FILE(secret)})', 'exten => s,1,Record(canary.wav)',
    'exten => s,1,Set(ENV(CANARY)=1)', 'exten => s,1,NoOp(${ENV(HOME)})',
    'exten => s,1,MixMonitor(canary.wav,,touch canary)',
    'exten => s,1,ExternalIVR(/bin/touch canary)', 'include => ../outside.conf',
    'readsql=`touch canary`', 'dsn=${SHELL(touch canary)}',
    'exten => s,1,NoOp($[`touch canary`])', '[`touch canary`]',
    'exten => s,1,NoOp(%(x)s {0.__class__} {{x}})', '__import__("os")=1',
]
# Audit events that nothing may cause; any that start with these.
FORBIDDEN = (
    'os.', 'subprocess.', 'shutil.', 'socket.', 'tempfile.', 'ctypes.',
    'fcntl.', 'signal.', 'pty.', 'webbrowser.', 'urllib.', 'ftplib.', 'http.',
    'smtplib.', 'sqlite3.', 'syslog.', 'mmap.', 'resource.', 'pathlib.',
    'imaplib.', 'nntplib.', 'poplib.', 'telnetlib.', 'setopencodehook',
    'cpython.run_', 'glob.')
ALLOWED = ('os.listdir', 'os.scandir')
# The same with system calls.
SYSCALLS = (
    'open,openat,openat2,creat,execve,execveat,fork,vfork,clone,clone3,'
    'unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,link,'
    'linkat,symlink,symlinkat,chmod,fchmod,fchmodat,chown,fchown,lchown,'
    'fchownat,truncate,ftruncate,mknod,mknodat,utime,utimes,utimensat,'
    'futimesat,setxattr,fsetxattr,lsetxattr,removexattr,socket,connect,bind,'
    'sendto,kill,tkill,tgkill,mount,umount2,chdir,fchdir,chroot,fallocate,'
    'copy_file_range,sendfile,flock')
STRACE_RE = re.compile(r'^(?:\d+ +)?(\w+)\((.*)\) += (-?\d+|\?)')
OPEN_RE = re.compile(r'^AT_FDCWD, "((?:[^"\\]|\\.)*)", ([A-Z_|0-9a-z]+)')


def plan(tier):
    return {'cases': 5000 if tier == 'quick' else 80000,
            'min_events': {'runs': 4000, 'audit_events': 10000,
                           'opened': 8000, 'straced': 40, 'syscalls': 2000,
                           'hostile': 4000, 'pypy': 50},
            'kinds': ('dialplan-check', 'dialplan-show', 'func_odbc-check',
                      'ident-scan', 'modules-show', 'strace', 'included',
                      'missing', 'absolute', 'open', 'os.listdir')}


def audited(argv, watch):
    """
    Runs in a forked child. Returns (status, events, files left open).
    """
    import asterisklint.main
    events = []
    on = [True]

    def hook(event, args):
        if not on[0]:
            return
        if event == 'open':
            path, mode, flags = args
            events.append((event, os.fsdecode(path) if isinstance(
                path, (str, bytes)) else path, mode, flags))
        elif event.startswith(FORBIDDEN) or event in ALLOWED:
            events.append((event, repr(args)[0:200], None, None))

    sys.argv = ['asterisklint'] + argv
    sys.dont_write_bytecode = True
    sys.addaudithook(hook)
    try:
        status = asterisklint.main.main(argv, os.environ)
    except SystemExit as e:
        status = e.code
    finally:
        on[0] = False
    return status, events, left_open(watch), dict(os.environ)


def left_open(watch):
    left = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(watch):
            left.append(target[len(watch):])
    return left


def snapshot(top):
    "{path: everything that could change}"
    ret = {}
    todo = [top]
    while todo:
        path = todo.pop()
        st = os.lstat(path)
        content = None
        if stat.S_ISDIR(st.st_mode):
            todo.extend(os.path.join(path, i) for i in os.listdir(path))
        elif stat.S_ISLNK(st.st_mode):
            content = os.readlink(path)
        else:
            with open(path, 'rb') as fp:
                content = fp.read()
        ret[os.path.relpath(path, top)] = (
            st.st_ino, st.st_mode, st.st_uid, st.st_gid, st.st_nlink,
            st.st_mtime_ns, content)
    return ret


class Workload(object):
    magnify = .05

    def __init__(self, tier, worker):
        self.tier = tier
        # Compiling everything for every run takes too long.
        sys.pycache_prefix = os.path.join(core.WORK, 'c22-{}-pyc'.format(
            os.getpid()))
        sys.dont_write_bytecode = False
        self.zygote = forked.Zygote()
        sys.dont_write_bytecode = True
        self.top = os.path.join(core.WORK, 'c22-{}'.format(os.getpid()))
        self.cwd = os.path.join(self.top, 'cwd')
        self.tmp = os.path.join(self.top, 'tmp')
        self.home = os.path.join(self.top, 'home')
        self.pypy = None
        os.mkdir(self.top)
        self.zygote.main(['ident-scan', '/dev/null'])
        self.zygote.main(['modules-show', '/dev/null'])
        self.zygote.main(['dialplan-check', '/dev/null'])
        self.zygote.main(['dialplan-show', '/dev/null'])
        self.zygote.main(['func_odbc-check', '/dev/null'])
        self.readable = tuple(
            os.path.join(i, '') for i in [
                core.REPO, os.path.join(core.VERIF, 'rv'), '/usr/lib',
                os.path.join(core.WORK, 'none'), sys.pycache_prefix,
                '/usr/local/lib', '/lib', '/lib64', os.path.dirname(os.__file__)
            ] + [i for i in (sys.prefix, sys.base_prefix)
                 if i not in ('/usr', '/')])

    def finish(self):
        self.zygote.close()
        if self.pypy:
            self.pypy.close()
        shutil.rmtree(self.top)
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)

    def generate(self, rng, index):
        g = gen.Gen(rng, bad=rng.choice([0, .1, .3]))
        g.again = rng.choice([0, 0, 0, .3])
        lines = g.dialplan_lines(sections=rng.randint(1, 3))
        hostile = rng.choice([0, 1, 2, 4])
        odbc = []
        for _ in range(rng.randint(0, 3)):
            odbc.append('[{}]'.format(rng.choice('ABC')))
            odbc += rng.sample(['readsql=x', 'dsn=y', 'writesql=x',
                                'prefix=MY', 'bogus=1'], rng.randint(0, 3))
        files = {}
        g.spread(lines, level=rng.choice([0, 1]), files=files)
        if rng.random() < .6:
            g.spread(odbc, level=rng.choice([0, 1]), files=files,
                     name=rng.choice(['func_odbc.conf', 'func_odbc.conf',
                                      'o.conf', 'sub/o.conf']))
        # Names that are in the way of others.
        for name in list(files):
            if files[name] is None:
                del files[name]
        names = sorted(files)
        for _ in range(hostile):
            name = rng.choice(names)
            data = files[name].split(b'\n')
            data.insert(rng.randint(0, len(data)),
                        rng.choice(HOSTILE).encode('utf-8'))
            files[name] = b'\n'.join(data)
        if rng.random() < .1:
            absolute = rng.choice(['TOP/outside.conf', 'TOP/nosuch',
                                   'TOP/home/secret'])
            files[names[0]] += '\n#include {}\n'.format(absolute).encode()
        files['secret'] = b'[secret]\nexten => s,1,NoOp()\n'
        files['../outside.conf'] = b'[outside]\nexten => s,1,NoOp()\n'
        files['../home/secret'] = b'[home]\n'
        command = rng.choice(['dialplan-check'] * 4 + [
            'dialplan-show', 'func_odbc-check', 'ident-scan',
            'modules-show'])
        odbc_name = [i for i in names if i.endswith('o.conf') or
                     i == 'func_odbc.conf'][0:1]
        args = [command]
        named = []
        if command == 'func_odbc-check':
            if not odbc_name:
                odbc_name = ['extensions.conf']
            args += odbc_name
            named += odbc_name
        else:
            if command in ('dialplan-check', 'modules-show'):
                if odbc_name == ['func_odbc.conf'] and rng.random() < .7:
                    named.append('func_odbc.conf')
                elif odbc_name:
                    args.append('--func-odbc=' + odbc_name[0])
                    named += odbc_name
                else:
                    if rng.random() < .5:
                        args.append('--func-odbc=')
            elif command == 'ident-scan':
                args.append('-v')
            name = 'extensions.conf'
            if rng.random() < .2:
                name = './extensions.conf'
            else:
                args.append(name)
            if named == ['func_odbc.conf'] and args[-1:] != [name] and len(
                    args) == 1:
                named = ['./func_odbc.conf']
            named.append(name)
        how = 'audit'
        if index % 81 == 3:
            how = 'strace'
        elif index % 51 == 7:
            how = 'pypy'
        return {'files': files, 'args': args, 'named': named,
                'hostile': hostile, 'how': how}

    def expected(self, data):
        files = {k: v.replace(b'TOP', self.top.encode())
                 for k, v in data['files'].items()}
        for name in ('outside.conf', 'home/secret'):
            files[os.path.join(self.top, name)] = files['../' + name]
        # What you can reach through the parent directory.
        for name in list(files):
            if not name.startswith(('..', '/')):
                files['../cwd/' + name] = files[name]
        wanted, opened = [], []
        for name in data['named']:
            m = model.FileModel(files)
            m.read(name)
            wanted += m.wanted
            opened += m.opened
            if len(opened) > 200:
                return None, None, None
        return files, wanted, opened

    def observe(self, case, data):
        try:
            files, wanted, opened = self.expected(data)
        except RecursionError:
            files = None
        if files is None:
            # (A file that includes itself.)
            case.stats['skipped'] += 1
            return
        shutil.rmtree(self.top)
        for i in (self.cwd, self.tmp, self.home):
            os.makedirs(i)
        for name in data['files']:
            path = os.path.normpath(os.path.join(self.cwd, name))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(files[name])
        before = snapshot(self.top)
        env = {'PATH': os.environ['PATH'], 'HOME': self.home,
               'TMPDIR': self.tmp, 'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONPATH': os.pathsep.join([
                   core.REPO, os.path.join(core.VERIF, 'rv', 'stubs')]),
               'PYTHONPYCACHEPREFIX': os.path.join(core.WORK, 'none')}
        what = ' '.join(data['args'])
        case.see(data['args'][0])
        case.stats['runs'] += 1
        case.stats['hostile'] += data['hostile']
        if data['hostile'] or len(opened) > len(data['named']):
            case.nontrivial = True
        if len(opened) > len(data['named']):
            case.see('included')
        if len(wanted) > len(opened):
            case.see('missing')
        if any(i.startswith('/') for i in wanted):
            case.see('absolute')
        if data['how'] == 'strace':
            got = self.strace(case, what, data['args'], env)
        elif data['how'] == 'pypy':
            got = self.on_pypy(case, what, data['args'], env, opened)
        else:
            got = self.audit(case, what, data['args'], env)

        # Nothing but what was named, and no more often.
        if got is not None:
            case.stats['opened'] += len(got)
            rest = list(wanted)
            more = [i for i in got if i not in rest or rest.remove(i)]
            if more:
                case.fail('opens', '{}: opens {!r}, which is not in the '
                          'files to be read: {!r}'.format(
                              what, more[0:3], wanted))
            rest = list(got)
            less = [i for i in opened if i not in rest or rest.remove(i)]
            if less:
                case.fail('not-opened', '{}: {!r} should have been '
                          'opened'.format(what, less[0:3]))
        after = snapshot(self.top)
        if before != after:
            diff = sorted(set(before.items()) ^ set(after.items()))
            case.fail('changes', '{}: changed {!r}'.format(what, diff[0:3]))

    def audit(self, case, what, args, env):
        ret = self.zygote.run(audited, args, self.top, cwd=self.cwd, env=env)
        if ret.value is None:
            case.fail('traceback', '{}: {}'.format(what, ret.err[-1500:]))
            return None
        status, events, left, environ = ret.value
        got = []
        for event, path, mode, flags in events:
            case.stats['audit_events'] += 1
            case.see(event)
            if event == 'open':
                if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC |
                            os.O_APPEND) or set(mode or 'r') & set('wax+'):
                    case.fail('open-for-writing', '{}: opens {!r} with mode '
                              '{!r} and flags {:#x}'.format(
                                  what, path, mode, flags))
                if not str(path).startswith(self.readable):
                    got.append(path)
            elif event not in ALLOWED:
                case.fail('event:' + event, '{}: causes {} {}'.format(
                    what, event, path))
        if left:
            case.fail('left-open', '{}: {!r} still open when the command '
                      'is done'.format(what, left[0:3]))
        if environ != env:
            case.fail('environment', '{}: {!r}'.format(
                what, set(environ.items()) ^ set(env.items())))
        return got

    def on_pypy(self, case, what, args, env, opened):
        "Where files are not closed just because nobody uses them."
        if self.pypy is None:
            self.pypy = server.Server('/usr/bin/pypy3', {
                'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
        ret = self.pypy.call(pypy_left_open, args, self.top, cwd=self.cwd,
                             env=env)
        case.stats['pypy'] += 1
        if ret.value is None:
            case.fail('traceback', '{}: {}'.format(what, ret.err[-1500:]))
        elif ret.value:
            case.fail('left-open', '{}: {!r} still open when the command '
                      'is done (PyPy)'.format(what, ret.value[0:3]))

    def strace(self, case, what, args, env):
        log = os.path.join(core.WORK, 'c22-{}.strace'.format(os.getpid()))
        proc = subprocess.run(
            ['strace', '-f', '-qq', '-s', '400', '-o', log, '-e',
             'trace=' + ','.join(
                 '?' + i for i in SYSCALLS.split(',')),
             sys.executable,
             os.path.join(core.REPO, 'scripts', 'asterisklint')] + args,
            cwd=self.cwd, env=env, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if not os.path.exists(log):
            raise AssertionError(proc.stderr)
        with open(log, encoding='utf-8') as fp:
            lines = fp.read().splitlines()
        os.unlink(log)
        case.see('strace')
        case.stats['straced'] += 1
        if b'Traceback' in proc.stderr:
            case.fail('traceback', '{}: {}'.format(what, proc.stderr[-1500:]))
            return None
        got = []
        for n, line in enumerate(lines):
            match = STRACE_RE.match(line)
            if not match:
                continue
            case.stats['syscalls'] += 1
            call, arg, _ = match.groups()
            if call in ('openat', 'open'):
                m = OPEN_RE.match(
                    arg if call == 'openat' else 'AT_FDCWD, ' + arg)
                if not m:
                    case.fail('syscall', '{}: {}'.format(what, line))
                    continue
                path, flags = m.groups()
                path = path.encode('latin1').decode('unicode_escape').encode(
                    'latin1').decode('utf-8', 'surrogateescape')
                if re.search('WRONLY|RDWR|CREAT|TRUNC|APPEND|TMPFILE', flags):
                    case.fail('open-for-writing', '{}: {}'.format(what, line))
                if not path.startswith(self.readable + (
                        '/usr/', '/etc/ld.so', '/proc/self/', '/etc/local',
                        '/dev/', '/sys/')) and 'O_DIRECTORY' not in flags:
                    got.append(path)
            elif call == 'execve' and n == 0:
                pass
            else:
                case.fail('syscall:' + call, '{}: {}'.format(what, line))
        # Python looks for the script in odd ways.
        return [i for i in got if not i.endswith(('pyvenv.cfg', '._pth'))]


def pypy_left_open(argv, watch):
    import gc
    import asterisklint.main
    gc.disable()
    sys.argv = ['asterisklint'] + argv
    try:
        asterisklint.main.main(argv, os.environ)
    except SystemExit:
        pass
    return left_open(watch)
