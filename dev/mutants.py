"""
Mutation trial of the monitors: many small changes to asterisklint, in scratch
copies, of which those that pass the unit tests are run against the checks
that guard the changed file. What survives is reviewed by hand.

usage: mutants.py WORKDIR OUT.jsonl [--only REGEX] [--slots N] [--scale F]
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GUARDS = (
    (r'config\.py', 'C06 C02 C03 C08 C04'),
    (r'configobj\.py', 'C06 C02 C08 C19'),
    (r'configws\.py', 'C07 C04'),
    (r'asterisklint/file\.py', 'C05 C06 C03 C02 C04 C07 C22'),
    (r'dialplan\.py', 'C08 C09 C10 C02 C20'),
    (r'pattern\.py', 'C11 C12 C09 C10'),
    (r'make_patterns', 'C24 C23'),
    (r'variable\.py', 'C13 C15 C10 C16'),
    (r'varfun\.py', 'C15 C13 C14 C17'),
    (r'(expression|function|application)\.py', 'C15 C16 C17'),
    (r'app/', 'C10 C15 C17 C16'),
    (r'func/', 'C15 C17 C14'),
    (r'func_odbc\.py', 'C19 C02 C20'),
    (r'(defines|where|cls|version)\.py', 'C18 C03 C17 C20 C25'),
    (r'main\.py', 'C26 C21'),
    (r'mainutil\.py', 'C19 C26 C22'),
    (r'dialplan-', 'C18 C09 C19'),
    (r'ident-scan', 'C14 C18'),
    (r'modules-show', 'C17'),
    (r'func_odbc-', 'C19 C18 C26'),
    (r'mutator|convert_dp', 'C24 C23'),
    (r'wsgi', 'C25'),
    (r'scripts/', 'C26'),
)
FILES = '''asterisklint/*.py asterisklint/app/*.py asterisklint/app/vall/*.py
asterisklint/func/*.py asterisklint/func/vall/*.py asterisklint/commands/*.py
asterisklint/helper/*.py contrib/*.py web/wsgi.py scripts/asterisklint'''
SKIP = re.compile(r'alinttest|alintver|annotate|__init__')

COMPARE = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
           ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
           ast.IsNot: ['is']}


def mutations(source):
    "Yields (line, what, start, end, replacement)."
    tree = ast.parse(source)
    lines = source.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    raw = source.encode()

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Constant):
                docs.add(node.body[0])
                docs.add(node.body[0].value)
        if isinstance(node, ast.ClassDef):
            for sub in node.body:
                if isinstance(sub, ast.Assign) and isinstance(
                        sub.targets[0], ast.Name) and (
                            sub.targets[0].id == 'message'):
                    for i in ast.walk(sub):
                        docs.add(i)
        if isinstance(node, ast.Raise):     # texts of exceptions
            for i in ast.walk(node):
                docs.add(i)
        if isinstance(node, ast.Assert):
            for i in ast.walk(node):
                docs.add(i)
        if isinstance(node, ast.FunctionDef) and node.name in (
                '__repr__', 'create_argparser'):
            for i in ast.walk(node):
                docs.add(i)

    for node in ast.walk(tree):
        if node in docs:
            continue
        if isinstance(node, ast.Compare):
            a = span(node.left)[1]
            b = span(node.comparators[0])[0]
            for new in COMPARE[type(node.ops[0])]:
                between = raw[a:b].decode()
                op = re.search(r'[<>=!]+|not\s+in|is\s+not|in|is', between)
                yield (node.lineno, 'cmp ' + new, a + op.start(),
                       a + op.end(), new)
        elif isinstance(node, ast.BoolOp):
            for n, value in enumerate(node.values):
                rest = [text(v) for m, v in enumerate(node.values) if m != n]
                joiner = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield (node.lineno, 'drop operand {}'.format(n), *span(node),
                       '(' + joiner.join('(%s)' % i for i in rest) + ')')
            joiner = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield (node.lineno, 'and/or', *span(node), '(' + joiner.join(
                '(%s)' % text(v) for v in node.values) + ')')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield (node.lineno, 'not', *span(node),
                   '(%s)' % text(node.operand))
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield (node.lineno, 'bool', *span(node), str(not node.value))
            elif isinstance(node.value, int):
                for new in (node.value + 1, node.value - 1):
                    yield (node.lineno, 'int {}'.format(new), *span(node),
                           '(%d)' % new)
            elif isinstance(node.value, str) and node.value:
                old = text(node)
                if node.end_lineno != node.lineno or old[0] not in '\'"r':
                    continue
                yield (node.lineno, 'str empty', *span(node), "''")
                if len(node.value) > 1:
                    yield (node.lineno, 'str head', *span(node),
                           repr(node.value[1:]))
                    yield (node.lineno, 'str tail', *span(node),
                           repr(node.value[:-1]))
                if 'r' == old[0]:
                    for pos, char in enumerate(node.value):
                        if char in '*+?$^':
                            for new in {'*': '+', '+': '*'}.get(char, ''), '':
                                yield (node.lineno, 're', *span(node), repr(
                                    node.value[:pos] + new +
                                    node.value[pos + 1:]))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
                               ast.Delete)):
            yield (node.lineno, 'drop statement', *span(node), 'pass')
        elif isinstance(node, ast.Return) and node.value is not None:
            yield (node.lineno, 'return None', *span(node), 'return None')
        elif isinstance(node, ast.Return):
            yield (node.lineno, 'no return', *span(node), 'pass')
        elif isinstance(node, (ast.If, ast.While)):
            yield (node.lineno, 'if False', *span(node.test), 'False')
            if isinstance(node, ast.If):
                yield (node.lineno, 'if True', *span(node.test), 'True')
        elif isinstance(node, ast.IfExp):
            yield (node.lineno, 'ifexp', *span(node), text(node.body))
            yield (node.lineno, 'ifexp', *span(node), text(node.orelse))
        elif isinstance(node, ast.Break):
            yield (node.lineno, 'break', *span(node), 'pass')
        elif isinstance(node, ast.Continue):
            yield (node.lineno, 'continue', *span(node), 'pass')
        elif isinstance(node, ast.BinOp):
            new = {ast.Add: '-', ast.Sub: '+'}.get(type(node.op))
            yield (node.lineno, 'binop left', *span(node), text(node.left))
            if new and not isinstance(node.left, ast.Constant):
                a, b = span(node.left)[1], span(node.right)[0]
                pos = raw[a:b].decode().find('-' if new == '+' else '+')
                if pos >= 0:
                    yield (node.lineno, 'binop', a + pos, a + pos + 1, new)
        elif isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            if 1 < len(node.elts) < 9 and isinstance(
                    getattr(node, 'ctx', ast.Load()), ast.Load):
                for n, elt in enumerate(node.elts):
                    rest = [text(e) for m, e in enumerate(node.elts) if m != n]
                    left, right = {ast.Tuple: '()', ast.List: '[]',
                                   ast.Set: '{}'}[type(node)]
                    yield (node.lineno, 'drop element', *span(node),
                           left + ', '.join(rest) + (
                               ',' if left == '(' else '') + right)
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield (node.lineno, 'slice', *span(node.lower), '')
            if node.upper is not None:
                yield (node.lineno, 'slice', *span(node.upper), '')
        elif isinstance(node, ast.Call):
            name = text(node.func).rsplit('.', 1)[-1]
            if name in ('sorted', 'list', 'set', 'reversed', 'str', 'int',
                        'tuple', 'bool') and node.args:
                yield (node.lineno, 'unwrap ' + name, *span(node),
                       '(%s)' % text(node.args[0]))
            elif name in ('strip', 'lstrip', 'rstrip', 'lower') and isinstance(
                    node.func, ast.Attribute):
                yield (node.lineno, 'no ' + name, *span(node),
                       text(node.func.value))
            elif len(node.args) > 1 and isinstance(
                    node.args[-1], ast.Constant):
                yield (node.lineno, 'drop last argument',
                       span(node.args[-2])[1], span(node.args[-1])[1], '')


def guards(path):
    for regex, props in GUARDS:
        if re.search(regex, path):
            return props.split()
    raise KeyError(path)


def run(cmd, timeout, **kwargs):
    try:
        return subprocess.run(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout, universal_newlines=True, **kwargs)
    except subprocess.TimeoutExpired:
        return None


def slot(number, work, queue, results, scale):
    repo = os.path.join(work, 'repo{}'.format(number))
    verif = os.path.join(work, 'verif{}'.format(number))
    for path in (repo, verif):
        shutil.rmtree(path, ignore_errors=True)
    shutil.copytree('/repo', repo, symlinks=True,
                    ignore=shutil.ignore_patterns('.git', '__pycache__'))
    os.mkdir(verif)
    shutil.copytree(os.path.join(VERIF, 'rv'), os.path.join(verif, 'rv'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    open(os.path.join(verif, 'known_findings.txt'), 'w').close()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LANG='C.UTF-8')
    checkenv = dict(env, RV_REPO=repo, RV_VERIF=verif, RV_WORKERS='1',
                    RV_FAIL_FAST='1', RV_SCALE=str(scale))
    while True:
        item = queue.get()
        if item is None:
            break
        path, line, what, source = item
        with open(os.path.join('/repo', path)) as fp:
            original = fp.read()
        with open(os.path.join(repo, path), 'w') as fp:
            fp.write(source)
        result = {'path': path, 'line': line, 'what': what}
        old = original.split('\n')
        new = source.split('\n')
        result['new'] = [b for a, b in zip(old, new) if a != b][0:1]
        ret = run(['pypy3', '-m', 'unittest', 'discover',
                   '--pattern=test_*.py'], 30, cwd=repo, env=env)
        if ret is None or ret.returncode:
            result['verdict'] = 'tests'
        else:
            result['verdict'] = 'survived'
            for prop in guards(path):
                ret = run([sys.executable, '-m', 'rv.run', prop], 900,
                          cwd=verif, env=checkenv)
                if ret is None or ret.returncode not in (0, 1):
                    result['verdict'] = 'no answer ' + prop
                    result['out'] = ret and ret.stdout[-600:]
                    continue
                if ret.returncode == 1:
                    result['verdict'] = prop
                    result.pop('out', None)
                    result['key'] = [
                        i[:120] for i in ret.stdout.split('\n')
                        if i.startswith('-- ')][0:1]
                    break
        results.put(result)
        with open(os.path.join(repo, path), 'w') as fp:
            fp.write(original)
    results.put(None)


def main():
    import glob
    parser = argparse.ArgumentParser()
    parser.add_argument('work')
    parser.add_argument('out')
    parser.add_argument('--only', default='.')
    parser.add_argument('--slots', type=int, default=8)
    parser.add_argument('--scale', type=float, default=.4)
    parser.add_argument('--count', action='store_true')
    args = parser.parse_args()
    os.makedirs(args.work, exist_ok=True)
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            i = json.loads(line)
            done.add((i['path'], i['line'], i['what'], tuple(i['new'])))
    todo = []
    for pattern in FILES.split():
        for name in sorted(glob.glob(os.path.join('/repo', pattern))):
            path = os.path.relpath(name, '/repo')
            if SKIP.search(path) or not re.search(args.only, path):
                continue
            source = open(name).read()
            seen = set()
            for line, what, start, end, new in mutations(source):
                raw = source.encode()
                mutant = (raw[:start] + new.encode() + raw[end:]).decode()
                try:
                    ast.parse(mutant)
                except (SyntaxError, ValueError):
                    continue
                if mutant in seen or mutant == source:
                    continue
                seen.add(mutant)
                diff = [b for a, b in zip(
                    source.split('\n'), mutant.split('\n')) if a != b][0:1]
                if (path, line, what, tuple(diff)) not in done:
                    todo.append((path, line, what, mutant))
    print(len(todo), 'mutants')
    if args.count:
        return
    random.Random(1).shuffle(todo)
    queue, results = multiprocessing.Queue(), multiprocessing.Queue()
    procs = [multiprocessing.Process(target=slot, args=(
        n, args.work, queue, results, args.scale)) for n in range(args.slots)]
    for p in procs:
        p.start()
    for item in todo:
        queue.put(item)
    for _ in procs:
        queue.put(None)
    active = len(procs)
    with open(args.out, 'a') as fp:
        while active:
            result = results.get()
            if result is None:
                active -= 1
                continue
            fp.write(json.dumps(result) + '\n')
            fp.flush()


if __name__ == '__main__':
    main()
