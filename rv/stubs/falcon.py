"""
The part of falcon (2.0) that a small JSON service uses; falcon itself is not
installed here. Made after its documentation.
"""
import functools
import json


class HTTPError(Exception):
    status = '500 Internal Server Error'

    def __init__(self, title=None, description=None, **kwargs):
        super().__init__(title)
        self.title = title
        self.description = description


class HTTPBadRequest(HTTPError):
    status = '400 Bad Request'


class HTTPNotFound(HTTPError):
    status = '404 Not Found'


class HTTPMethodNotAllowed(HTTPError):
    status = '405 Method Not Allowed'


class HTTPPayloadTooLarge(HTTPError):
    status = '413 Payload Too Large'


HTTPRequestEntityTooLarge = HTTPPayloadTooLarge


class HTTPUnsupportedMediaType(HTTPError):
    status = '415 Unsupported Media Type'


class HTTPInternalServerError(HTTPError):
    pass


HTTP_200 = '200 OK'
HTTP_400 = '400 Bad Request'


def before(action, *args, **kwargs):
    def decorator(responder):
        @functools.wraps(responder)
        def wrapped(self, req, resp, **params):
            action(req, resp, self, params, *args, **kwargs)
            return responder(self, req, resp, **params)
        return wrapped
    return decorator


class Options(object):
    strip_url_path_trailing_slash = False


class Request(object):
    def __init__(self, env):
        self.env = env
        self.method = env['REQUEST_METHOD']
        self.path = env['PATH_INFO'] or '/'
        self.stream = env['wsgi.input']
        self._media = None

    @property
    def content_length(self):
        value = self.env.get('CONTENT_LENGTH')
        if not value:
            return None
        try:
            value = int(value)
        except ValueError:
            raise HTTPBadRequest('Invalid header value')
        if value < 0:
            raise HTTPBadRequest('Invalid header value')
        return value

    @property
    def content_type(self):
        return self.env.get('CONTENT_TYPE')

    @property
    def bounded_stream(self):
        return self.stream

    @property
    def media(self):
        if self._media is None:
            kind = (self.content_type or 'application/json').split(';')[0]
            if kind != 'application/json':
                raise HTTPUnsupportedMediaType('{} is unsupported'.format(
                    kind))
            raw = self.stream.read(self.content_length or 0)
            if not raw:
                raise HTTPBadRequest('Empty request body')
            try:
                self._media = json.loads(raw.decode('utf-8'))
            except ValueError as e:
                raise HTTPBadRequest('Invalid JSON', str(e))
        return self._media


class Response(object):
    def __init__(self):
        self.status = '200 OK'
        self.content_type = 'application/json; charset=UTF-8'
        self.body = None
        self.data = None
        self.media = None
        self.headers = {}

    def set_header(self, name, value):
        self.headers[name] = value

    def render(self):
        if self.data is not None:
            return self.data
        if self.body is not None:
            if isinstance(self.body, bytes):
                return self.body
            return self.body.encode('utf-8')
        if self.media is not None:
            return json.dumps(self.media, ensure_ascii=False).encode('utf-8')
        return b''


class API(object):
    def __init__(self, middleware=None, **kwargs):
        self.middleware = middleware or []
        self.req_options = Options()
        self.resp_options = Options()
        self.routes = {}
        self.handlers = []

    def add_route(self, path, resource, **kwargs):
        self.routes[path] = resource

    def add_error_handler(self, exception, handler=None):
        self.handlers.insert(0, (exception, handler))

    def __call__(self, env, start_response):
        req, resp = Request(env), Response()
        try:
            if (self.req_options.strip_url_path_trailing_slash and
                    len(req.path) > 1 and req.path.endswith('/')):
                req.path = req.path[0:-1]
            for i in self.middleware:
                if hasattr(i, 'process_request'):
                    i.process_request(req, resp)
            if req.path not in self.routes:
                raise HTTPNotFound()
            resource = self.routes[req.path]
            for i in self.middleware:
                if hasattr(i, 'process_resource'):
                    i.process_resource(req, resp, resource, {})
            responder = getattr(
                resource, 'on_' + req.method.lower(), None)
            if not responder:
                raise HTTPMethodNotAllowed()
            responder(req, resp)
            for i in reversed(self.middleware):
                if hasattr(i, 'process_response'):
                    i.process_response(req, resp, resource, True)
            body = resp.render()
        except HTTPError as e:
            resp = Response()
            resp.status = e.status
            resp.media = {'title': e.title, 'description': e.description}
            body = resp.render()
        except Exception as e:
            for exception, handler in self.handlers:
                if isinstance(e, exception):
                    handler(e, req, resp, {})
                    body = resp.render()
                    break
            else:
                raise
        start_response(resp.status, [
            ('Content-Type', resp.content_type),
            ('Content-Length', str(len(body)))] + sorted(
                resp.headers.items()))
        return [body]


App = API
