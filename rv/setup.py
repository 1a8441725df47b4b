"""
Builds what the checks need from the committed files. There is nothing that
outlives a check: this just looks whether everything is there.
"""
import os
import shutil
import subprocess
import sys

from . import core


def main():
    assert sys.version_info >= (3, 8)
    for name in ('work', 'evidence', 'replays'):
        os.makedirs(os.path.join(core.VERIF, name), exist_ok=True)
    assert os.path.isdir(os.path.join(core.REPO, 'asterisklint'))
    for name in ('gcc', 'pypy3', 'strace'):
        print(name, shutil.which(name))
    subprocess.check_call(
        [sys.executable, '-m', 'compileall', '-q', '-f', '-x', 'stubs',
         os.path.join(core.VERIF, 'rv')], stdout=subprocess.DEVNULL)


if __name__ == '__main__':
    main()
