"""Run a migration tool; in a forked child that has the right directory."""
import importlib
import os
import pkgutil
import runpy
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')

CANONICAL = 'make_patterns_canonical.py'
CONVERT = 'convert_dp_104_to_1100.py'


def preload():
    "Import the modules that the linter would import, to save time."
    import asterisklint.app
    import asterisklint.func
    for package in (asterisklint.app, asterisklint.func):
        for info in pkgutil.walk_packages(
                package.__path__, package.__name__ + '.'):
            importlib.import_module(info.name)
    import asterisklint.helper.mutator  # noqa


def tool(script, args, fault=None, umask=None):
    "With fault, the preloaded library (fault.c) interferes from now on."
    path = os.path.join(REPO, 'contrib', script)
    sys.argv = [path] + args
    sys.path[0:0] = [os.path.dirname(path)]
    sys.dont_write_bytecode = True
    if umask is not None:
        os.umask(umask)
    lib = None
    if fault:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        import ctypes
        lib = ctypes.CDLL(None)
        directory, log, faults = fault
        lib.fault_arm(directory.encode(), log.encode(),
                      *[i for f in faults for i in f])
    try:
        runpy.run_path(path, run_name='__main__')
    finally:
        if lib:
            lib.fault_disarm()
