"""C25: the web check reports what the command line reports."""
import collections
import io
import json
import os
import runpy
import shutil
import sys

from .. import core, forked, gen, lint, magnify, tools

PROPERTY = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: histories of requests to the real WSGI '
             'application in one process; every answer is compared with what '
             'the command line reports for those bytes in a fresh process, '
             'and every unprocessable request has to be answered as an error')
RULE = ('Random sequences of requests: dialplans with and without problems, '
        'the same ones again, and requests that fail before, during and '
        'after the parsing; non-trivial is a history with messages and at '
        'least two dialplans.')
ASSUMPTIONS = [
    'falcon is not installed: a stand-in implements the documented part of '
    'it that the application uses.',
    'The service has no func_odbc.conf, no other files and no ALINT_IGNORE; '
    'the command line runs with --func-odbc= and without ALINT_IGNORE.',
]
LIMIT = 64 * 1024
FAILING = ['include', 'include-late', 'tryinclude', 'self-include', 'no-json',
           'no-files', 'other-name', 'list', 'number', 'null', 'surrogate',
           'too-large', 'empty', 'array', 'multithread', 'form']
OTHER = ['get-index', 'get-health', 'get-check', 'not-found', 'post-index']


def plan(tier):
    return {'cases': 500 if tier == 'quick' else 6000,
            'min_events': {'answers': 1000, 'findings': 3000, 'errors': 300,
                           'again': 100},
            'kinds': tuple(FAILING + OTHER) + (
                'check', 'after-failure', 'clean', 'unicode', 'large')}


def session(requests):
    "[(method, path, body, content type, multithread)] -> [(status, body)]"
    # (Not as __main__: that would start a server.)
    namespace = runpy.run_path(
        os.path.join(core.REPO, 'web', 'wsgi.py'), run_name='wsgi')
    application = namespace['application']
    ret = []
    for method, path, body, content_type, threads in requests:
        env = {
            'REQUEST_METHOD': method, 'PATH_INFO': path, 'SCRIPT_NAME': '',
            'QUERY_STRING': '', 'SERVER_NAME': 'localhost',
            'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
            'REMOTE_ADDR': '127.0.0.1', 'wsgi.version': (1, 0),
            'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(body),
            'wsgi.errors': sys.stderr, 'wsgi.multithread': threads,
            'wsgi.multiprocess': False, 'wsgi.run_once': False,
            'CONTENT_LENGTH': str(len(body)) if body else ''}
        if content_type:
            env['CONTENT_TYPE'] = content_type
        started = []

        def start_response(status, headers, exc_info=None):
            started[:] = [int(status.split(' ')[0])]

        try:
            data = b''.join(application(env, start_response))
            ret.append((started[0], data))
        except Exception as e:
            # Like the server would.
            ret.append((500, '{}: {}'.format(
                type(e).__name__, e).encode('utf-8', 'replace')[0:300]))
    return ret


class Workload(object):
    def __init__(self, tier, worker):
        tools.preload()
        self.zygote = forked.Zygote()
        self.dir = os.path.join(core.WORK, 'c25-{}'.format(os.getpid()))
        os.mkdir(self.dir)

    def finish(self):
        self.zygote.close()
        shutil.rmtree(self.dir)

    # generating

    def dialplan(self, rng):
        g = gen.Gen(rng, bad=rng.choice([0, .1, .3]))
        lines = g.dialplan_lines(sections=rng.choice([1, 2, 3]))
        if rng.random() < .1:
            lines = []
        if rng.random() < .1:
            lines.append('; ' + 'x' * rng.choice([3000, 40000, 64000, 66000]))
        if rng.random() < magnify.share(.05):
            lines = [i for i in magnify.magnify_lines(rng, lines)
                     if not i.lstrip().startswith('#')]
        text = g.layout(lines, rng.choice([0, .5, 1])).decode(
            'utf-8', 'replace')
        if rng.random() < .1:
            text += rng.choice(['\x00', '\ufeff', '\u2028', '\x0b', '\x85'])
        return text

    def generate(self, rng, index):
        history = []
        for _ in range(rng.randint(3, 9)):
            dice = rng.random()
            checks = [i for i in history if i[0] == 'check']
            if dice < .15 and checks:
                history.append(rng.choice(checks))
            elif dice < .6:
                history.append(('check', self.dialplan(rng)))
            elif dice < .92:
                history.append((rng.choice(FAILING), self.dialplan(rng)))
            else:
                history.append((rng.choice(OTHER), ''))
        history.append(rng.choice(
            [i for i in history if i[0] == 'check'] or
            [('check', self.dialplan(rng))]))
        return {'history': [list(i) for i in history]}

    @staticmethod
    def request(kind, text):
        path = '/dialplan-check'
        ctype = 'application/json'
        threads = kind == 'multithread'
        if kind in ('check', 'get-check'):
            # (The real path has a slash in the examples.)
            if len(text) % 2:
                path += '/'
            elif len(text) % 3:
                ctype = None
        elif kind == 'include':
            text = '#include "other.conf"\n' + text
        elif kind == 'include-late':
            text = text.rstrip() + '\n[z]\nexten => s,1,Nosuch\n' + (
                '#include <other.conf>\n')
        elif kind == 'tryinclude':
            text = '[z]\nexten => s,n,Nosuch()\n#tryinclude other.conf\n'
        elif kind == 'self-include':
            text = '[z]\nexten => s,1,Nosuch\n#include extensions.conf\n'
        elif kind == 'surrogate':
            text += '\ud800'
        elif kind == 'too-large':
            text += '; ' + LIMIT * 'x'
        if kind == 'form':
            ctype = 'application/x-www-form-urlencoded'
        media = {'files': {'extensions.conf': text}}
        if kind == 'no-files':
            media = {'file': text}
        elif kind == 'other-name':
            media = {'files': {'sip.conf': text}}
        elif kind == 'list':
            media = {'files': {'extensions.conf': [text]}}
        elif kind == 'number':
            media = {'files': {'extensions.conf': 12}}
        elif kind == 'null':
            media = {'files': {'extensions.conf': None}}
        elif kind == 'array':
            media = [text]
        body = json.dumps(media, ensure_ascii=(
            len(text) % 2 or kind == 'surrogate')).encode('utf-8')
        if kind == 'no-json':
            body = body[0:-2]
        if kind == 'empty':
            body = b''
        method = 'POST'
        if kind.startswith('get-') or kind == 'not-found':
            method, body = 'GET', b''
        path = {'get-index': '/', 'get-health': '/healthz/',
                'not-found': '/nothing', 'post-index': '/'}.get(kind, path)
        return (method, path, body, ctype, threads)

    # observing

    def expected(self, text):
        shutil.rmtree(self.dir)
        os.mkdir(self.dir)
        with open(os.path.join(self.dir, 'extensions.conf'), 'wb') as fp:
            fp.write(text.encode('utf-8'))
        ret = self.zygote.main(
            ['dialplan-check', '--func-odbc=', 'extensions.conf'],
            cwd=self.dir, env={'PATH': os.environ['PATH'],
                               'HOME': '/nonexistent'})
        messages, noise = lint.parse_stderr(ret.err)
        return ret, messages, noise

    def observe(self, case, data):
        history = data['history']
        requests = [self.request(*i) for i in history]
        ret = self.zygote.run(session, requests, cwd=self.dir, env={
            'PATH': os.environ['PATH'], 'HOME': '/nonexistent'})
        if ret.status or ret.value is None:
            case.fail('session', 'exit {}: {}'.format(
                ret.status, ret.err[-1500:]))
            return
        if ret.out or ret.err:
            case.fail('noise', 'the service prints {!r}'.format(
                (ret.out + ret.err)[0:300]))
        known = {}
        failed = False
        dialplans = set()
        for n, ((kind, text), request, (status, body)) in enumerate(
                zip(history, requests, ret.value)):
            case.see(kind)
            case.stats['answers'] += 1
            what = 'request {} ({})'.format(n, kind)
            if kind in OTHER:
                if (kind in ('get-index', 'get-health')) != (status == 200):
                    case.fail('other', '{}: status {}: {!r}'.format(
                        what, status, body[0:200]))
                continue
            if kind != 'check':
                case.stats['errors'] += 1
                failed = True
                if kind == 'too-large' and status == 200:
                    # We do not say where the limit is.
                    continue
                if status < 400:
                    case.fail('not-an-error', '{}: status {}: {!r}'.format(
                        what, status, body[0:200]))
                continue
            if len(request[2]) > LIMIT and status == 413:
                case.see('large')
                continue
            if status != 200:
                case.fail('refused', '{}: status {}: {!r}'.format(
                    what, status, body[0:300]))
                continue
            if failed:
                case.see('after-failure')
            if not text.isascii():
                case.see('unicode')
            if text in known:
                case.stats['again'] += 1
            else:
                known[text] = self.expected(text)
            cli, messages, noise = known[text]
            if noise:
                case.fail('command-line', '{}: {!r}'.format(
                    what, noise[0:3]))
                return
            self.compare(case, what, messages, body)
            dialplans.add(text)
        case.nontrivial = len(dialplans) > 1 and bool(
            case.stats['findings'])

    def compare(self, case, what, messages, body):
        results = json.loads(body.decode('utf-8'))['results']
        want = collections.Counter(
            (i.file, i.line, i.code, i.text) for i in messages)
        got = collections.Counter(
            (name, i['line'], i['class'], i['desc'])
            for name, issues in results.items() for i in issues)
        case.stats['findings'] += sum(want.values())
        if not want:
            case.see('clean')
        if want != got:
            case.fail('findings', '{}: not in the answer: {!r}; only in the '
                      'answer: {!r}'.format(
                          what, sorted((want - got).elements())[0:2],
                          sorted((got - want).elements())[0:2]))
