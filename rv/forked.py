"""
Run something in a forked copy of this process: it starts with the state that
this process has (nothing linted yet) and cannot influence us.
"""
import os
import pickle
import resource
import signal
import socket
import sys
import traceback

CPU_SECONDS = 30


class Result(object):
    def __init__(self, status, out, err, value):
        self.status = status    # exit status, negative for a signal
        self.out = out
        self.err = err
        self.value = value      # what the function returned, or None

    @property
    def hung(self):
        return self.status in (-signal.SIGXCPU, -signal.SIGKILL)


def run(func, *args, cwd=None, env=None, stdin=b'', native=False):
    """
    Call func(*args) in a child, with its own stdout/stderr. The exit status
    is what a Python program would exit with if it did sys.exit(func()).
    With native, stdout and stderr encode like this interpreter chose to.
    """
    how = (('utf-8', 'surrogateescape'), ('utf-8', 'backslashreplace'))
    if native:
        how = ((sys.__stdout__.encoding, sys.__stdout__.errors),
               (sys.__stderr__.encoding, sys.__stderr__.errors))
    out = os.memfd_create('out')
    err = os.memfd_create('err')
    val = os.memfd_create('val')
    inp = os.memfd_create('in')
    os.write(inp, stdin)
    os.lseek(inp, 0, os.SEEK_SET)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        status = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            sys.settrace(None)
            os.dup2(inp, 0)
            os.dup2(out, 1)
            os.dup2(err, 2)
            os.close(out)
            os.close(err)
            os.close(inp)
            sys.stdin = open(0, 'r', closefd=False)
            sys.stdout = open(1, 'w', encoding=how[0][0], closefd=False,
                              errors=how[0][1])
            sys.stderr = open(2, 'w', encoding=how[1][0], closefd=False,
                              errors=how[1][1], buffering=1)
            sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
            if cwd:
                os.chdir(cwd)
            if env is not None:
                os.environ.clear()
                os.environ.update(env)
            resource.setrlimit(
                resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS + 5))
            status = _call(func, args, val)
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                pass
            os._exit(status)
    _, wait = os.waitpid(pid, 0)
    status = os.waitstatus_to_exitcode(wait)
    ret = []
    for fd in (out, err, val):
        size = os.lseek(fd, 0, os.SEEK_END)
        os.lseek(fd, 0, os.SEEK_SET)
        ret.append(os.read(fd, size) if size else b'')
        os.close(fd)
    os.close(inp)
    value = pickle.loads(ret[2]) if ret[2] else None
    return Result(status, ret[0].decode('utf-8', 'surrogateescape'),
                  ret[1].decode('utf-8', 'surrogateescape'), value)


def _call(func, args, val):
    try:
        value = func(*args)
    except SystemExit as e:
        value = e.code
        if value is not None and not isinstance(value, int):
            print(value, file=sys.stderr)
            value = 1
    except BaseException:
        # What the interpreter would do.
        traceback.print_exc()
        return 1
    os.write(val, pickle.dumps(value, 4))
    if value is None:
        return 0
    if isinstance(value, int):
        return value & 0xff
    return 0


def main(argv, **kwargs):
    "Run the asterisklint main program with these arguments."
    def entry():
        import asterisklint.main
        sys.argv = ['asterisklint'] + list(argv)
        return asterisklint.main.main(list(argv), os.environ)
    return run(entry, **kwargs)


class Zygote(object):
    """
    A process that was forked off before anything was linted, and that forks
    on request: those have fresh state, whatever we did in the mean time.
    """
    def __init__(self):
        self.sock, other = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if not self.pid:
            try:
                self.sock.close()
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, signal.SIG_IGN)
                self._serve(other)
            finally:
                os._exit(0)
        other.close()
        self.reader = self.sock.makefile('rb')

    @staticmethod
    def _serve(sock):
        reader = sock.makefile('rb')
        while True:
            try:
                func, args, kwargs = pickle.load(reader)
            except EOFError:
                return
            ret = func(*args, **kwargs)
            sock.sendall(pickle.dumps(
                (ret.status, ret.out, ret.err, ret.value), 4))

    def _call(self, func, *args, **kwargs):
        self.sock.sendall(pickle.dumps((func, args, kwargs), 4))
        return Result(*pickle.load(self.reader))

    def run(self, func, *args, **kwargs):
        "The function has to be a module level one."
        return self._call(run, func, *args, **kwargs)

    def main(self, argv, **kwargs):
        return self._call(main, argv, **kwargs)

    def close(self):
        self.reader.close()
        self.sock.close()
        os.waitpid(self.pid, 0)
