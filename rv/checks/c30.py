"""C30: func_odbc-annotate shows every function and every query."""
import os
import re
import shutil
import sys

sys.path.insert(1, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'stubs_sql'))

from .. import core, forked, gen, lint, model  # noqa
from . import c19  # noqa

PROPERTY = 'C30'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: the func_odbc-annotate command in a new '
             'process; what it prints is taken apart and compared with the '
             'functions and queries that the generator wrote down')
RULE = ('Random func_odbc files with repeated, unknown, late and empty '
        'settings, legacy names, escapes, other files; non-trivial is a case '
        'with at least one query.')
ASSUMPTIONS = [
    'sqlparse is a stand-in (it is not installed): it knows the columns of '
    'simple SELECT statements and writes keywords in upper case.',
    'Every statement is one that it knows: a setting has one statement.',
]
COLUMNS = ['a', 'b.c', 'a AS b', 'COUNT(x)', 'COUNT(x) AS n', 'f(a, b)', 'x y',
           't.a as z', 'IFNULL(a, \'x, y\') AS q', 'id', 'c', 'MAX(f(a))',
           'a', '${ARG1} AS v', 'concat(a, \'b\') c']
OTHERS = ['UPDATE t SET a = 1', 'INSERT INTO t VALUES (1, 2)',
          'update t set a = \'${VAL1}\' WHERE b = ${ARG1}',
          'DELETE FROM t', 'CALL x(1)', 'selected', '', 'UPDATE t SET a = \'x;y\'',
          'INSERT INTO t VALUES (";", 1)']
TAILS = ['', '', '', ' ', ';', ' ;', '  ']


def plan(tier):
    return {'cases': 2500 if tier == 'quick' else 60000,
            'min_events': {'functions': 2500, 'queries': 2500,
                           'columns': 1500},
            'kinds': ('read', 'write', 'insert', 'legacy', 'empty',
                      'repeated', 'prefix', 'semicolon', 'included',
                      'default')}


class Workload(object):
    def __init__(self, tier, worker):
        self.odbc = c19.Workload(tier, worker)
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c30-{}'.format(os.getpid()))

    def finish(self):
        self.zygote.close()
        self.odbc.finish()
        shutil.rmtree(self.dir, ignore_errors=True)

    @staticmethod
    def select(rng):
        columns = [rng.choice(COLUMNS) for _ in range(rng.choice(
            [1, 1, 2, 3, 11]))]
        return '{}{}{}{}'.format(
            rng.choice(['SELECT ', 'select ', 'Select ', 'SELECT  ']),
            rng.choice([', ', ',', ' , ']).join(columns),
            rng.choice(['', ' FROM t', ' from t WHERE a = \'x from y\'',
                        ' FROM a, b', '  FROM (x)']), rng.choice(TAILS))

    def generate(self, rng, index):
        lines = []
        for line in self.odbc.odbc_lines(rng, rng.random() < .4):
            if line.startswith('[') and rng.random() < .1:
                lines.append(line)
                continue
            match = re.match(r'(\w*(?:sql|read|write))(\s*=>?\s*)', line)
            if match:
                line = match.group(0) + (
                    self.select(rng) if rng.random() < .6 else
                    rng.choice(OTHERS) + rng.choice(TAILS))
            lines.append(line.split(';')[0].rstrip('\\') if not match
                         else line)
            if match and rng.random() < .15:
                lines.append(match.group(0) + self.select(rng))
        lines = [i.replace(';', '\\;').rstrip() for i in lines]
        g = gen.Gen(rng)
        g.again = rng.choice([0, 0, 0, .3])
        files = {}
        if rng.random() < .3 and len(lines) > 2:
            a = rng.randrange(len(lines))
            b = min(len(lines), a + rng.randint(1, 4))
            files['other.conf'] = g.layout(lines[a:b], 0)
            files['func_odbc.conf'] = g.layout(
                lines[0:a] + ['#include other.conf'] + lines[b:], 0)
        else:
            files['func_odbc.conf'] = g.layout(lines, 0)
        return {'files': files, 'lines': lines,
                'default': rng.random() < .2}

    @staticmethod
    def expected(case, lines):
        "What the comments and statements have to be, without blank lines."
        functions = []
        for line in lines:
            line = line.replace('\\;', ';')
            match = re.match(r'\[([^\]]*)\]\Z', line)
            if match:
                functions.append((match.group(1), {}))
                continue
            match = re.match(r'([^=]*?)\s*=>?\s*(.*)\Z', line)
            if not match or not functions:
                continue
            key, value = match.groups()
            if key in model.ODBC_KEYS:
                if key in functions[-1][1]:
                    case.see('repeated')
                functions[-1][1].setdefault(key, value)
        ret = []
        for name, sets in functions:
            case.stats['functions'] += 1
            if sets.get('prefix'):
                case.see('prefix')
            ret.append('-- {}_{}'.format(sets.get('prefix') or 'ODBC', name))
            ret.append('-- .')
            for kind, keys in (('insert', ['insertsql']),
                               ('read', ['readsql', 'read']),
                               ('write', ['writesql', 'write'])):
                values = [sets[i] for i in keys if sets.get(i)]
                if any(i in sets and not sets[i] for i in keys):
                    case.see('empty')
                if not values:
                    continue
                if not sets.get(keys[0]):
                    case.see('legacy')
                case.stats['queries'] += 1
                case.nontrivial = True
                case.see(kind)
                query = values[0].strip()
                ret.append('-- FUNCTION TYPE: ' + kind)
                columns = select_columns(query) if kind == 'read' else []
                if columns:
                    ret.append('-- COLUMNS:')
                    case.stats['columns'] += len(columns)
                for number, column in enumerate(columns, 1):
                    ret.append('-- {}. {}'.format(number, column))
                if query.endswith(';'):
                    case.see('semicolon')
                ret.append(formatted(query).rstrip(';').rstrip() + ';')
        return ret

    def observe(self, case, data):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        for name, content in data['files'].items():
            with open(os.path.join(self.dir, name), 'wb') as fp:
                fp.write(content)
        if 'other.conf' in data['files']:
            case.see('included')
        argv = ['func_odbc-annotate']
        if data['default']:
            case.see('default')
        else:
            argv.append('func_odbc.conf')
        ret = self.zygote.main(argv, cwd=self.dir, env={
            'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
        if ret.status or ret.err:
            case.fail('status', 'exit {}: {}'.format(
                ret.status, ret.err[-600:]))
            return
        want = self.expected(case, data['lines'])
        got = []
        for line in ret.out.split('\n'):
            line = re.sub(r'^-- +', '-- ', line.rstrip())
            line = re.sub(r'\s*;+\Z', ';', line)
            if line:
                got.append(line)
        if got[0:2] == ['-- BEWARE: This output format is not standardized '
                        'yet', '-- NOT FOR MACHINE CONSUMPTION']:
            got = got[2:]
        for a, b in zip(got + [None], want + [None]):
            if a != b:
                case.fail('annotate', 'prints {!r} instead of {!r}'.format(
                    a, b))
                break


KEYWORDS = ('select', 'from', 'where', 'update', 'set', 'insert', 'into', 'as',
            'and', 'values', 'delete')


def formatted(query):
    return re.sub(r"('[^']*')|\b({})\b".format('|'.join(KEYWORDS)), lambda m: (
        m.group(1) or m.group(2).upper()), query, flags=re.I)


def select_columns(query):
    match = re.match(r'select\s+', query, re.I)
    if not match:
        return []
    rest = query[match.end():]
    columns = ['']
    depth = 0
    quoted = False
    for at, char in enumerate(rest):
        if char == "'":
            quoted = not quoted
        elif char in '()' and not quoted:
            depth += 1 if char == '(' else -1
        if not quoted and not depth:
            if char == ',':
                columns.append('')
                continue
            if char == ';' or re.match(r'\s+from\b', rest[at:], re.I):
                break
        columns[-1] += char
    ret = []
    for column in columns:
        column = column.strip()
        match = re.match(
            r'.*?\s+(?:as\s+)?([^\s()\',]+)\Z', column, re.I | re.S)
        ret.append(match.group(1) if match else column)
    return ret
