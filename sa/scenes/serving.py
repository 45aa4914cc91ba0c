"""Applications and clients for the isolation checks.  Interpreted abstractly together with the framework's source, never imported."""
from io import BytesIO
from ombott.ombott import Ombott, Globals, abort
from ombott.request_pkg.request import Request
from ombott.response import HTTPResponse, HTTPError, Response
import vthread


def client(app, method, path, query='', body=b'', ctype='', more=()):
    errs = []

    class Errors:
        def write(self, s):
            errs.append(s)

    env = {'REQUEST_METHOD': method, 'PATH_INFO': path, 'SCRIPT_NAME': '', 'QUERY_STRING': query, 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
           'HTTP_HOST': 'h', 'wsgi.url_scheme': 'http', 'CONTENT_LENGTH': str(len(body)), 'CONTENT_TYPE': ctype, 'wsgi.input': BytesIO(body), 'wsgi.errors': Errors()}
    for k, v in more:
        env[k] = v
    got = []

    def start_response(status, headers, exc_info=None):
        got.append(status)
        for h in headers:
            got.append(h)

    out = app(env, start_response)
    for piece in out:
        got.append(piece)
    return got


def fill(app, tag):
    req, resp = app.request, app.response

    def seen():
        return '|'.join([tag, req.method, req.path, req.query.get('q', '-'), req.cookies.get('c', '-'), req.headers['X-H'] if 'X-H' in req.headers else '-', req.environ.get('HTTP_X_H', '-'), req.content_type])

    def echo():
        return seen()

    def put():
        before = seen()
        resp.status = 202
        resp.headers['X-Q'] = req.query.get('q', '-')
        resp.headers.append('X-L', req.query.get('q', '-'))
        resp.headers.append('X-L', 'more')
        resp.set_cookie('k', req.query.get('q', '-'))
        resp.content_type = 'text/x-' + req.query.get('q', '-')
        return before + '|' + seen() + '|' + resp.headers['X-Q']

    def form():
        f = req.forms
        return seen() + '|' + f.get('a', '-') + '|' + str(len(f)) + '|' + seen()

    def raw():
        return req.body.read()

    def js():
        return str(req.json is None) + seen()

    def stop():
        resp.headers['X-Lost'] = req.query.get('q', '-')
        abort(409, 'no ' + req.query.get('q', '-'))

    def raised():
        r = HTTPResponse('raised ' + req.query.get('q', '-'), 203)
        r.headers['X-R'] = req.query.get('q', '-')
        r.set_cookie('r', req.query.get('q', '-'))
        resp.headers['X-Own'] = req.query.get('q', '-')
        resp.set_cookie('own', 'o')
        raise r

    def crash():
        resp.headers['X-Crash'] = req.query.get('q', '-')
        return [][0]

    def none():
        resp.status = 204
        return None

    def wild(name):
        return seen() + '|' + name

    def keep():
        req.environ['mine'] = req.query.get('q', '-')
        return req.environ.get('mine', '-') + str('x.left' in req.environ)

    for rule, fn in (('/echo', echo), ('/put', put), ('/form', form), ('/raw', raw), ('/js', js), ('/stop', stop), ('/raised', raised), ('/crash', crash), ('/none', none), ('/keep', keep)):
        app.route(rule, ['GET', 'POST'], fn)
    app.route('/w/<name>', 'GET', wild)
    return app


def build(tag, config=None):
    return fill(Ombott(config), tag)


def ask(app, kind, q):
    """requests of all kinds; everything they carry holds q"""
    if kind == 'bad':
        return client(app, 'GET', '/\xff', 'q=' + q)
    if kind == 'missing':
        return client(app, 'GET', '/missing' + q, 'q=' + q)
    if kind == 'method':
        return client(app, 'PUT', '/echo', 'q=' + q)
    if kind == 'wild':
        return client(app, 'GET', '/w/' + q, 'q=' + q)
    if kind == 'form':
        return client(app, 'POST', '/form', 'q=' + q, b'a=' + q.encode(), 'application/x-www-form-urlencoded')
    if kind == 'raw':
        return client(app, 'POST', '/raw', 'q=' + q, b'body ' + q.encode())
    if kind == 'js':
        return client(app, 'POST', '/js', 'q=' + q, b'{' + q.encode(), 'application/json')
    if kind == 'broken':
        return client(app, 'POST', '/form', 'q=' + q, b'--x\r\n' + q.encode(), 'multipart/form-data; boundary=x')
    if kind == 'big':
        return client(app, 'POST', '/form', 'q=' + q, b'a=' + q.encode() * 60, 'application/x-www-form-urlencoded')
    if kind == 'head':
        return client(app, 'HEAD', '/put', 'q=' + q)
    if kind == 'json404':
        return client(app, 'GET', '/missing' + q, 'q=' + q, b'', '', (('HTTP_ACCEPT', 'application/json'), ('HTTP_X_REQUESTED_WITH', 'XMLHttpRequest')))
    if kind == 'rich':
        return client(app, 'GET', '/put', 'q=' + q, b'', '', (('HTTP_COOKIE', 'c=' + q), ('HTTP_X_H', q)))
    if kind == 'richecho':
        return client(app, 'GET', '/echo', 'q=' + q, b'', '', (('HTTP_COOKIE', 'c=' + q), ('HTTP_X_H', q)))
    return client(app, 'GET', '/' + kind, 'q=' + q)


CONFIG = {'max_body_size': 50, 'max_memfile_size': 40}


def alone(kind, q):
    return ask(build('T', CONFIG), kind, q)


def after(first, kind, q):
    app = build('T', CONFIG)
    ask(app, first, 'old')
    return ask(app, kind, q)


def setup(tag):
    return build(tag, CONFIG)


def second(app, kind, q):
    """served by another thread while the first one is anywhere"""
    vthread.switch('two')
    r = ask(app, kind, q)
    vthread.switch('one')
    return r


def sight(app):
    """what the request and response objects of an application show"""
    req, resp = app.request, app.response
    return [req.method, req.path, req.query.get('q', '-'), req.cookies.get('c', '-'), req.headers['X-H'] if 'X-H' in req.headers else '-', req.forms.get('a', '-'), req.environ.get('PATH_INFO', '-'),
            resp.status, resp.status_code, resp.headers['X-Q'] if 'X-Q' in resp.headers else '-', resp.content_type, resp.body, len(resp.headerlist), req.environ['ombott.app'] is app, req.environ.get('mine', '-')]


def outer(app, act):
    """a request to app whose handler does act() halfway"""
    def both():
        app.response.status = 203
        app.response.headers['X-Q'] = 'outer'
        app.response.set_cookie('o', 'outer')
        before = sight(app)
        act()
        after = sight(app)
        app.response.headers['X-Z'] = 'end'
        app.response.set_cookie('p', 'end')
        return 'same' if before == after else 'before %s after %s' % (before, after)
    app.route('/outer', ['GET', 'POST'], both)
    return client(app, 'POST', '/outer', 'q=outer', b'a=form', 'application/x-www-form-urlencoded', (('HTTP_COOKIE', 'c=outer'), ('HTTP_X_H', 'outer')))


def undisturbed():
    return outer(build('A', CONFIG), lambda: None)


def nested(kind, threads):
    a, b = build('A', CONFIG), build('B', CONFIG)
    inner = []

    def act():
        if threads:
            vthread.switch('two')
        inner.append(ask(b, kind, 'inner'))
        if threads:
            vthread.switch('one')
    got = outer(a, act)
    return [got, inner[0]]


def inside(kind):
    return ask(build('B', CONFIG), kind, 'inner')


def made(what):
    """applications and objects that come to be while a request is served"""
    a = build('A', CONFIG)

    def act():
        if what == 'app':
            Ombott({'max_body_size': 1, 'errors_map': {}})
        elif what == 'filled':
            b = build('B', None)
            b.response.status = 418
            b.response.headers['X-Q'] = 'b'
            b.request.environ['QUERY_STRING'] = 'q=b'
        elif what == 'copy':
            r = a.request.copy()
            r.environ['PATH_INFO'] = '/copied'
        elif what == 'copyset':
            r = a.request.copy()
            r['QUERY_STRING'] = 'q=copy'
            r['HTTP_COOKIE'] = 'c=copy'
            r.environ['REQUEST_METHOD'] = 'PUT'
        elif what == 'copied':
            r = a.request.copy()
            r.environ = {'PATH_INFO': '/', 'REQUEST_METHOD': 'GET', 'ombott.app': None}
        elif what == 'request':
            Request({'PATH_INFO': '/r', 'REQUEST_METHOD': 'PUT', 'QUERY_STRING': 'q=r'})
        elif what == 'response':
            r = Response()
            r.status = 404
            r.headers['X-Q'] = 'other'
            r.set_cookie('o', 'other')
        elif what == 'default':
            Globals.app.response.status = 418
            Globals.app.response.headers['X-Q'] = 'default'
            Globals.app.request.__init__({'PATH_INFO': '/d', 'REQUEST_METHOD': 'PUT'})
        elif what == 'servedefault':
            client(fill(Globals.app, 'D'), 'GET', '/put', 'q=d')
        elif what == 'error':
            e = HTTPError(404, 'x')
            e.headers['X-Q'] = 'error'
        elif what == 'setup':
            Ombott().setup({'max_body_size': 3})
        elif what == 'route':
            b = Ombott()
            b.route('/outer', ['GET', 'POST'], lambda: 'other')
            b.error(404)(lambda e: 'none')
            b.add_hook('before_request', lambda: a.response.headers.clear())
    return outer(a, act)


def turns(order, kind):
    """requests to two applications in turn; the answers of the last one"""
    apps = [build('A', CONFIG), build('B', CONFIG)]
    got = None
    for i in order:
        if i == 't':
            vthread.switch('two')
        elif i == 'o':
            vthread.switch('one')
        else:
            got = ask(apps[int(i)], kind, 'turn' + i)
    return got


def turn(i, kind):
    return ask(build('AB'[i], CONFIG), kind, 'turn' + str(i))


def globals_after(kind):
    """the application in service as the module level proxies see it"""
    a, b = build('A', CONFIG), build('B', CONFIG)
    seen = []

    def both():
        seen.append(Globals.serving_app() is a)
        ask(b, kind, 'x')
        seen.append(Globals.serving_app() is a)
        return ''
    a.route('/g', 'GET', both)
    client(a, 'GET', '/g')
    return seen


class Morsel:
    """stand-ins for the cookie classes of the standard library"""
    def __init__(self, key, value):
        self.key = key
        self.value = self.coded_value = value
        self.attrs = {}

    def __setitem__(self, k, v):
        self.attrs[k] = v

    def __getitem__(self, k):
        return self.attrs.get(k, '')

    def copy(self):
        m = Morsel(self.key, self.value)
        m.attrs = self.attrs.copy()
        return m

    def OutputString(self):
        s = self.key + '=' + self.value
        for k in self.attrs:
            s += '; ' + k + '=' + str(self.attrs[k])
        return s


class Jar:
    def __init__(self, data=None):
        self.all = {}
        if data:
            self.load(data)

    def load(self, data):
        if isinstance(data, str):
            for part in data.split('; '):
                i = part.find('=')
                if i > 0:
                    self.all[part[:i]] = Morsel(part[:i], part[i + 1:])
        else:
            for k in data:
                self[k] = data[k]

    def __setitem__(self, k, v):
        self.all[k] = v if isinstance(v, Morsel) else Morsel(k, v)

    def __getitem__(self, k):
        return self.all[k]

    def __contains__(self, k):
        return k in self.all

    def __len__(self):
        return len(self.all)

    def __bool__(self):
        return len(self.all) > 0

    def __iter__(self):
        return iter(self.all)

    def keys(self):
        return self.all.keys()

    def values(self):
        return self.all.values()

    def items(self):
        return self.all.items()

    def get(self, k, default=None):
        return self.all.get(k, default)

    def output(self, attrs=None, header='Set-Cookie:', sep='\r\n'):
        return sep.join([header + ' ' + m.OutputString() for m in self.all.values()])
