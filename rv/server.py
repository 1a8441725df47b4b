"""
Run commands in processes of an interpreter that we choose, with the
environment (hash seed, locale) that we choose. Every command gets a forked
copy of a process that has imported the linter and has not done anything yet.
"""
import os
import random
import socket
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')


class Server(object):
    def __init__(self, python, env, preload=False):
        self.sock, other = socket.socketpair()
        self.proc = subprocess.Popen(
            [python, '-B', '-X', 'pycache_prefix={}'.format(
                os.path.join(VERIF, 'work', 'none')), '-c',
             'import sys; sys.path[0:1] = {!r}; import rv.server; '
             'rv.server.serve({}, {})'.format(
                 [REPO, os.path.join(VERIF, 'rv', 'stubs'), VERIF],
                 other.fileno(), preload)],
            env=env, pass_fds=[other.fileno()], cwd='/',
            stdin=subprocess.DEVNULL)
        other.close()
        self.reader = self.sock.makefile('rb')

    def main(self, argv, order, **kwargs):
        return self.call(command, argv, order, **kwargs)

    def call(self, func, *args, **kwargs):
        "The function has to be a module level one."
        from . import forked
        import pickle
        self.sock.sendall(pickle.dumps((func, args, kwargs), 4))
        return forked.Result(*pickle.load(self.reader))

    def close(self):
        self.reader.close()
        self.sock.close()
        self.proc.wait()


def serve(fd, preload):
    import pickle
    from . import forked
    import asterisklint.main  # noqa
    import asterisklint.func_odbc  # noqa
    import asterisklint.mainutil  # noqa
    if preload:
        from . import tools
        tools.preload()
    sock = socket.socket(fileno=fd)
    reader = sock.makefile('rb')
    while True:
        try:
            func, args, kwargs = pickle.load(reader)
        except EOFError:
            return
        ret = forked.run(func, *args, native=True, **kwargs)
        sock.sendall(pickle.dumps(
            (ret.status, ret.out, ret.err, ret.value), 4))


class Status(int):
    "An exit status, with the number of directory listings we shuffled."
    listings = 0


def command(argv, order):
    "Directories are listed in another order for every value of order."
    import asterisklint.main
    listings = [0]
    if order is not None:
        rng = random.Random(order)
        listdir, scandir = os.listdir, os.scandir

        def my_listdir(*args, **kwargs):
            names = sorted(listdir(*args, **kwargs))
            rng.shuffle(names)
            listings[0] += 1
            return names

        class my_scandir(object):
            def __init__(self, *args, **kwargs):
                with scandir(*args, **kwargs) as it:
                    self.entries = sorted(it, key=(lambda x: x.name))
                rng.shuffle(self.entries)
                listings[0] += 1
                self.iter = iter(self.entries)

            def __iter__(self):
                return self.iter

            def __next__(self):
                return next(self.iter)

            def __enter__(self):
                return self

            def __exit__(self, *args):
                pass

            def close(self):
                pass

        os.listdir, os.scandir = my_listdir, my_scandir
    # As if this was the script.
    sys.path[:] = [i for i in sys.path if i != VERIF]
    sys.argv = ['asterisklint'] + list(argv)
    status = Status(asterisklint.main.main(list(argv), os.environ) or 0)
    status.listings = listings[0]
    return status
