"""
The constants of the code under test, as fuzzers use them: names that are
treated specially have to be in there, and so have limits. Those that were
not there when the checks were written come first. They only steer what is
tried; nothing is judged by them.
"""
import ast
import collections
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'dictionary.json')
FILES = ('asterisklint/**/*.py', 'contrib/*.py', 'web/*.py', 'scripts/*')


def constants(source):
    "The strings and numbers, {repr: count}."
    found = collections.Counter()
    tree = ast.parse(source)
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            first = node.body[0:1]
            if first and isinstance(first[0], ast.Expr):
                docs.add(id(first[0].value))
        if isinstance(node, ast.BinOp) and all(isinstance(i, (
                ast.BinOp, ast.UnaryOp, ast.Constant, ast.operator,
                ast.unaryop)) for i in ast.walk(node)):
            # 64 * 1024
            try:
                value = eval(compile(ast.Expression(node), 'x', 'eval'))
            except Exception:
                continue
            if isinstance(value, int) and abs(value) < 10 ** 9:
                found[repr(value)] += 1
        if isinstance(node, ast.Constant) and id(node) not in docs:
            value = node.value
            if isinstance(value, bool) or value is None:
                continue
            if isinstance(value, (int, str, bytes)):
                found[repr(value)] += 1
    return found


def harvest(root):
    ret = {}
    for pattern in FILES:
        for path in glob.glob(os.path.join(root, pattern), recursive=True):
            if not os.path.isfile(path):
                continue
            try:
                with open(path, encoding='utf-8') as fp:
                    ret[os.path.relpath(path, root)] = dict(
                        constants(fp.read()))
            except (SyntaxError, ValueError, UnicodeDecodeError):
                continue
    return ret


def added(root):
    "What is there now that was not there before."
    with open(BASE, encoding='utf-8') as fp:
        base = json.load(fp)
    ret = set()
    for path, found in harvest(root).items():
        before = base.get(path, {})
        ret.update(i for i, count in found.items()
                   if count > before.get(i, 0))
    return sorted(ret)


class Dictionary(object):
    def __init__(self, root):
        words, numbers = set(), set()
        items = [ast.literal_eval(i) for i in added(root)]
        # (To try what it does.)
        items += json.loads(os.environ.get('RV_DICTIONARY', '[]'))
        for value in items:
            if isinstance(value, int):
                if 3 < abs(value) < 70000:
                    numbers.add(abs(value))
                continue
            if isinstance(value, bytes):
                value = value.decode('latin1')
            if len(value) > 300:
                continue
            if '\n' not in value:
                words.add(value)
            words.update(re.findall(r'[A-Za-z0-9_]+', value))
            words.update(re.findall(r'[^A-Za-z0-9_\n]', value))
            numbers.update(
                int(i) for i in re.findall(r'[0-9]{1,5}', value)
                if 3 < int(i) < 70000)
            words.update(value.replace('\n', ' ').split())
        self.words = sorted(i for i in words if 0 < len(i) < 60)
        # Too much of it: that is no dictionary.
        if len(self.words) > 400:
            self.words = []
        self.numbers = sorted(numbers)[0:60]
        self.chars = [i for i in self.words if len(i) == 1]

    def __bool__(self):
        return bool(self.words or self.numbers)


CACHE = []


def get():
    if not CACHE:
        CACHE.append(Dictionary(os.environ.get('RV_REPO', '/repo')))
    return CACHE[0]


if __name__ == '__main__':
    with open(BASE, 'w', encoding='utf-8') as fp:
        json.dump(harvest(sys.argv[1]), fp, sort_keys=True, indent=0)
        fp.write('\n')
