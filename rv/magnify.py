"""
Makes generated files bigger: long names and lines, many lines, sections and
included files, deep nesting. What a property says does not depend on size,
but code may (a buffer, a cache, a limit), and small cases do not tell.
"""
import re

from . import dictionary

SIZES = (17, 33, 41, 65, 81, 100, 129, 200, 257, 300, 520, 1030)
COUNTS = (12, 26, 34, 70, 105, 130, 260)
DEPTHS = (6, 9, 12, 17, 26, 34)
KEYWORDS = frozenset(
    b'exten same include general globals tryinclude exec hint n s i t h '
    b'switch ignorepat'.split())
WORD = re.compile(rb'[A-Za-z][A-Za-z0-9_]*')
MANY = (
    'same => n,NoOp({})', 'exten => 5{},1,NoOp()', 'same => n(l{}),NoOp()',
    'include => c{}', '[c{}]', '[c{0}]\nexten => {0},1,Goto(c{1},{1},1)',
    '; {}', '', 'same => n,Goto(l{1})', 'exten => _5{},1,Set(v{}=1)',
    'k{} = v', 'same => n,Set(V{0}=${{v{1}}})', 'same => n,App{}()',
    'same => {},NoOp()', '#tryinclude none{}', 'same', 'exten => s,n,Goto({})')


def size(rng, choices=SIZES, most=70000):
    "How big? Limits that were not in the code before are interesting."
    numbers = [i for i in dictionary.get().numbers if i <= most]
    if numbers and rng.random() < .5:
        number = rng.choice(numbers)
        return number + rng.choice([-1, 0, 1, 2, 5, number])
    return rng.choice(choices)


def word(rng, default):
    "A word of the dictionary, if there is one."
    words = dictionary.get().words
    return rng.choice(words) if words else default


class Magnifier(object):
    def __init__(self, rng, files, main, plain=False):
        self.plain = plain
        self.r = rng
        self.files = files
        self.main = main
        self.names = 0

    def size(self, choices=SIZES, most=1500):
        return size(self.r, choices, most)

    def lines(self, name):
        return self.files[name].split(b'\n')

    def store(self, name, lines):
        self.files[name] = b'\n'.join(lines)

    def some(self, test, most=3):
        "Pick some lines that pass the test, as (file, number)."
        found = [(name, n) for name in sorted(self.files)
                 for n, line in enumerate(self.lines(name))
                 if not line.lstrip().startswith(b'#') and test(line)]
        return self.r.sample(found, min(len(found), self.r.randint(1, most)))

    def edit(self, test, change, most=3):
        for name, n in self.some(test, most):
            lines = self.lines(name)
            lines[n] = change(lines[n])
            self.store(name, lines)

    # what to make big

    def rename(self):
        "Some words become long, and differ at one end only."
        taken = set(b''.join(
            i.encode('utf-8') + b' ' for i in self.files).replace(
                b'/', b' ').replace(b'.', b' ').split()) | KEYWORDS
        words = set()
        for data in self.files.values():
            for line in data.split(b'\n'):
                if not line.lstrip().startswith(b'#'):
                    words.update(WORD.findall(line))
        words = sorted(words - taken)
        words = self.r.sample(words, min(len(words), self.r.randint(1, 4)))
        size = self.size()
        letter = self.r.choice([b'q', b'W', b'x', b'_'])
        front = self.r.random() < .7
        for n, word in enumerate(words):
            filler = letter * size
            if self.r.random() < .5:
                word_ = b'%d' % (n,)
            else:
                word_ = word
            new = (b'v' + filler + word_) if front else (
                b'v' + word_ + filler)
            self.replace(rb'(?<![A-Za-z0-9_])' + word + rb'(?![A-Za-z0-9_])',
                         new)

    def numbers(self):
        numbers = set()
        for data in self.files.values():
            numbers.update(re.findall(
                rb'(?<![A-Za-z0-9_:+.-])[0-9]+(?=,)', data))
        numbers = sorted(numbers)
        numbers = self.r.sample(numbers, min(len(numbers),
                                             self.r.randint(1, 2)))
        size = self.size(SIZES, 600)
        filler = self.r.choice(b'0 1 X 5'.split()) * size
        for number in numbers:
            new = (filler + number) if self.r.random() < .6 else (
                number + filler)
            self.replace(rb'(?<![A-Za-z0-9_:+.-])' + number + rb'(?=,)', new)

    def replace(self, what, new):
        for name in sorted(self.files):
            self.store(name, [
                line if line.lstrip().startswith(b'#') else
                re.sub(what, lambda match: new, line)
                for line in self.lines(name)])

    def words(self):
        "Words that the code knows."
        words = dictionary.get().words
        if self.plain:
            words = [i for i in words if i.isalnum()]
        if not words:
            return
        for _ in range(self.r.randint(1, 4)):
            new = self.r.choice(words).encode('utf-8', 'replace')
            if b'\n' in new:
                continue
            if self.r.random() < .4:
                found = set()
                for data in self.files.values():
                    for line in data.split(b'\n'):
                        if not line.lstrip().startswith(b'#'):
                            found.update(re.findall(rb'[A-Za-z0-9_]+', line))
                found = sorted(found - {b'exten', b'same'})
                if found:
                    self.replace(
                        rb'(?<![A-Za-z0-9_])' + self.r.choice(found) +
                        rb'(?![A-Za-z0-9_])', new)
                continue

            def change(line):
                spots = [i.span() for i in re.finditer(
                    rb'[A-Za-z0-9_]+' if self.plain else
                    rb'[A-Za-z0-9_]+|[^A-Za-z0-9_]', line)]
                start, end = self.r.choice(spots or [(0, 0)])
                if self.r.random() < .5:
                    end = start
                return line[0:start] + new + line[end:]
            self.edit(lambda line: bool(line), change, 2)

    def ints(self):
        "Numbers that the code knows."
        numbers = dictionary.get().numbers
        if not numbers:
            return

        def change(line):
            spots = [i.span() for i in re.finditer(rb'[0-9]+', line)]
            start, end = self.r.choice(spots)
            return line[0:start] + str(self.r.choice(numbers) + (
                self.r.choice([-1, 0, 1]))).encode() + line[end:]
        self.edit(lambda line: bool(re.search(rb'[0-9]', line)), change, 4)

    def pad(self):
        "Long values and keys."
        def change(line):
            size = self.size(SIZES + (2100, 4100, 8200, 66000), 70000)
            unit = self.r.choice([
                b'a', b'a', b'ab ', b'${x}', b',', b',a', b'(1)', b' ', b'\t',
                b'&a', b'1', b'\xc3\xa9', b'\\;', b'"x"', b'x,', b'[a]', b'-'])
            if unit != b'a':
                size = min(size, 2100)
            pos = self.r.choice([
                self.r.randint(0, len(line)), line.find(b'(') + 1,
                line.find(b'=') + 1 + (line.find(b'=>') >= 0), 0, len(line),
                max(line.rfind(b')'), 0)])
            return line[0:pos] + unit * (size // len(unit)) + line[pos:]
        self.edit(lambda line: len(line) > 3, change)

    def comment(self):
        def change(line):
            size = self.size(SIZES + (2100, 4100, 8200, 66000), 70000)
            cr = line.endswith(b'\r')
            tail = self.r.choice([b'', b'', b' ', b'\x01', b'\xff', b'\t',
                                  b'\xe2\x82', b'\x00', b'\r', b' ;'])
            line = line.rstrip(b'\r') + self.r.choice([b' ; ', b';', b' ;'])
            return line + b'c' * size + tail + b'\r' * cr
        self.edit(lambda line: True, change)

    def many(self):
        "Many lines, sections or includes."
        name = self.main
        if self.r.random() < .3 and not self.names:
            name = self.r.choice(sorted(self.files))
        lines = self.lines(name)
        pos = self.r.randint(0, len(lines))
        template = self.r.choice(MANY)
        count = self.size(COUNTS, 1500)
        if template == '' and self.r.random() < .3:
            count = self.r.choice([1000, 1030, 4100])
        extra = []
        cr = b'\r' if lines[0].endswith(b'\r') else b''
        for i in range(1, count + 1):
            if template == 'same':
                if pos == 0 or lines[pos - 1].lstrip().startswith(b'#'):
                    break
                extra.append(lines[pos - 1])
            else:
                for line in template.format(i, i + 1, i).split('\n'):
                    extra.append(line.encode('ascii') + cr)
        lines[pos:pos] = extra
        if 'include' in template and self.r.random() < .7:
            # Something to include, the last ones perhaps.
            for i in self.r.sample(range(1, count + 1), 3) + [count]:
                lines.append(b'[c%d]' % (i,))
                lines.append(b'exten => _1XX,1(x),NoOp()')
        self.store(name, lines)

    def chain(self):
        "Sections that include one another, one after the other."
        count = self.size(DEPTHS + (60, 105), 130)
        lines = self.lines(self.main)
        cut = [n for n, line in enumerate(lines) if line.startswith(b'[')]
        pos = self.r.choice(cut or [len(lines)]) + 1
        lines[pos:pos] = [b'include => c1']
        if not lines[-1]:
            lines.pop()
        for i in range(1, count + 1):
            lines.append(b'[c%d]' % (i,))
            lines.append(b'include => c%d' % (i + 1,))
        lines.append(b'exten => _X.,1,Goto(x)')
        lines.append(b'[c%d]' % (count + 1,))
        lines.append(b'exten => _XXX,1(x),NoOp()')
        lines.append(b'same => n(start),NoOp()')
        lines.append(b'')
        self.store(self.main, lines)

    def nest(self):
        "Variables and applications in each other."
        depth = self.size(DEPTHS, 20)
        head, tail = self.r.choice([
            (b'${', b'}'), (b'${LEN(', b')}'), (b'$[', b']'), (b'${x', b'}'),
            (b'${LEN(${x', b'})}'), (b'(', b')'), (b'[', b']'),
            (b'ExecIf(${x}?', b')'), (b'${CUT(a,', b',1)}'), (b'"', b'"')])
        depth_tail = self.r.choice([0, 0, 0, 1])

        def change(line):
            if head.startswith(b'ExecIf'):
                pos = line.rfind(b',', 0, line.find(b'(')) + 1
                end = len(line.rstrip())
            else:
                pos = line.find(b'${')
                end = line.find(b'}', pos) + 1
                if pos < 0 or not end:
                    pos = end = len(line.rstrip(b') \r'))
            return (line[0:pos] + head * depth + line[pos:end] +
                    tail * (depth - depth_tail) + line[end:])
        self.edit(lambda line: b',' in line and b'(' in line, change, 2)

    def files_deep(self):
        "A file that includes a file that includes a file."
        depth = self.size(DEPTHS + (41, 65), 32)
        lines = self.lines(self.main)
        start = self.r.randint(0, len(lines) - 1)
        end = self.r.randint(start, len(lines))
        part = lines[start:end]
        self.names += 1
        name = 'm{}-%d.m'.format(self.names)
        lines[start:end] = [b'#include ' + (name % (1,)).encode('ascii')]
        self.store(self.main, lines)
        if part and self.r.random() < .8:
            part.append(b'')
        for i in range(1, depth + 1):
            around = self.r.choice([b'', b'', b'', b'; c\n', b'k=v\n', b'\n'])
            inner = (b'\n'.join(part) if i == depth else
                     b'#include %s\n' % ((name % (i + 1,)).encode('ascii'),))
            self.files[name % (i,)] = around + inner
            if i < depth and self.r.random() < .2:
                self.files[name % (i,)] += self.r.choice([
                    b'same => n,NoOp()\n', b' \n', b'\n', b'; c\n', b'x'])

    def files_wide(self):
        "A file that includes many."
        count = self.size(COUNTS[0:5], 300)
        lines = self.lines(self.main)
        pos = self.r.randint(0, len(lines))
        one = self.r.choice([b'', b'; c\n', b'\n', b'same => n,NoOp()\n', b'x',
                             b'[a]\n', b'k=v\n', b' \n'])
        self.names += 1
        more = []
        for i in range(1, count + 1):
            name = 'w%d-%d.w' % (
                self.names, i if self.r.random() < .9 else 1)
            more.append(b'#include ' + name.encode('ascii'))
            self.files[name] = one if self.r.random() < .9 else b'; d\n'
        lines[pos:pos] = more
        self.store(self.main, lines)


OPS = ('rename', 'rename', 'numbers', 'pad', 'pad', 'comment', 'many', 'many',
       'chain', 'nest', 'files_deep', 'files_wide')


def share(most):
    "How many of the cases."
    return most * (4 if dictionary.get() else 1)


LINE_OPS = ('rename', 'numbers', 'pad', 'many', 'chain', 'nest')


def magnify_lines(rng, lines):
    "The same, of (logical) lines."
    files = {'extensions.conf': '\n'.join(lines).encode('utf-8')}
    magnify(rng, files, LINE_OPS, plain=True)
    return files['extensions.conf'].decode('utf-8', 'replace').split('\n')


def magnify(rng, files, ops=OPS, plain=False):
    """Make the files bigger, in one or more ways. Returns what was done."""
    main = min(files, key=lambda name: (
        name not in ('extensions.conf', 'func_odbc.conf', 'x.conf'), name))
    m = Magnifier(rng, files, main, plain)
    done = []
    known = dictionary.get()
    if known.words:
        ops = ops + ('words',) * len(ops)
    if known.numbers:
        ops = ops + ('ints',) * (len(ops) // 4)
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = rng.choice(ops)
        getattr(m, op)()
        done.append(op)
    return sorted(set(done))
