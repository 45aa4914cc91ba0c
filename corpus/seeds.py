"""Planted bugs: edits, demonstration, metadata.  seed.py writes /verif/seeded from this."""
import importlib.util
import os


def C(pid, name):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), pid + '.py')
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.BUGS[name]


SEEDS = {}


def seed(i, pid, edits, needs, breaks, demo):
    SEEDS[i] = dict(property=pid, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed('c14-append', 'C14', C('C14', 'append_later'), 'the second value of a header that is appended to, holding CR/LF',
     'append() checks only the first value, so a later value splits the response headers', '''
from ombott import Ombott
app = Ombott()


@app.route('/')
def index():
    app.response.headers.append('X-A', 'one')
    try:
        app.response.headers.append('X-A', 'two\\r\\nSet-Cookie: evil=1')
    except ValueError:
        pass
    return 'x'


s, h, b = call(app, env('/'))
bad = [v for k, v in h if '\\r' in v or '\\n' in v]
assert not bad, bad
''')

seed('c15-mac-part', 'C15', C('C15', 'mac_part'), 'a signed cookie longer than 4096 bytes whose tail is altered',
     'only the first 4096 bytes of the message are authenticated', '''
from ombott.common_helpers import cookie_encode, cookie_decode
import base64
tok = cookie_encode(('n', 'a' * 6000), 'secret')
tok = tok if isinstance(tok, bytes) else tok.encode()
sig, msg = tok.split(b'?', 1)
raw = bytearray(base64.b64decode(msg))
raw[5000] = ord('b')
forged = sig + b'?' + base64.b64encode(bytes(raw))
assert cookie_decode(tok, 'secret') is not None
assert cookie_decode(forged, 'secret') is None, 'forged cookie accepted'
''')

seed('c16-rstrip', 'C16', C('C16', 'rstrip'), 'a sibling directory whose name starts with the root name',
     'the containment test drops the trailing separator, so ../root-secret/f passes', '''
import tempfile, shutil
from ombott import Ombott
from ombott.static_stream import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/www')
    os.makedirs(d + '/www-secret')
    open(d + '/www/a.txt', 'w').write('public')
    open(d + '/www-secret/b.txt', 'w').write('secret')
    app = Ombott()
    app.route('/<p.path()>')(lambda p: static_file(p, d + '/www'))
    s, h, b = call(app, env('/a.txt'))
    assert s.startswith('200') and b == b'public', (s, b)
    s, h, b = call(app, env('/../www-secret/b.txt'))
    assert s.startswith('403'), (s, b)
finally:
    shutil.rmtree(d)
''')

seed('c17-suffix', 'C17', C('C17', 'suffix_max'), 'a suffix range longer than the file (bytes=-100 of a 10 byte file)',
     'the start becomes negative and the satisfiable suffix range is refused', '''
from ombott.static_stream import get_first_range
assert get_first_range('bytes=-4', 10) == (6, 10)
assert get_first_range('bytes=-100', 10) == (0, 10), get_first_range('bytes=-100', 10)
''')

seed('c17-chunk', 'C17', C('C17', 'chunkall'), 'a range that starts well before the end of the file and is shorter than one read',
     'the first read of a range ignores the chunk limit order and reads the whole remaining window at once', '''
import io
from ombott import static_stream as m


class F(io.BytesIO):
    sizes = []

    def read(self, n=-1):
        self.sizes.append(n)
        return super().read(n)


f = F(b'x' * 300)
out = b''.join(m._file_iter_range(f, 10, 200, maxread=64))
assert out == b'x' * 200
assert all(0 <= n <= 64 for n in F.sizes), F.sizes
''')

seed('c20-short', 'C20', C('C20', 'render_short'), 'a URL with markup other than a script element',
     'the error page escapes the URL only when it contains <script', '''
from ombott import Ombott
app = Ombott()
for h in ('h', '<img src=x>'):
    s, _, b = call(app, env('/no', HTTP_HOST=h, QUERY_STRING='a=<b>'))
    assert s.startswith('404'), s
    assert b'<b>' not in b and b'<img' not in b, b
''')

seed('c20-json', 'C20', C('C20', 'json_no'), 'a request that accepts JSON and is not an XMLHttpRequest that fails',
     'the error body is HTML although JSON was requested', '''
import json
from ombott import Ombott
app = Ombott()
for extra in ({}, {'HTTP_X_REQUESTED_WITH': 'XMLHttpRequest'}):
    s, h, b = call(app, env('/no', HTTP_ACCEPT='application/json', **extra))
    assert s.startswith('404'), s
    json.loads(b)
    assert dict(h)['Content-Type'].startswith('application/json'), h
''')

seed('c02-all-get', 'C02', C('C02', 'all_get'), 'a request whose method is not registered on a route that has GET and no ANY',
     'every method falls back to GET instead of only HEAD', '''
from ombott import Ombott
app = Ombott()
app.route('/x', 'GET')(lambda: 'get')
app.route('/x', 'POST')(lambda: 'post')
s, h, b = call(app, env('/x', 'DELETE'))
assert s.startswith('405') and sorted(dict(h)['Allow'].split(',')) == ['GET', 'POST'], (s, h)
''')

seed('c02-over', 'C02', C('C02', 'over_all'), 'overwrite=True re-registration of one method of a route with several',
     'overwriting one method drops the other methods of the route', '''
from ombott import Ombott
app = Ombott()
app.route('/x', 'GET')(lambda: 'get')
app.route('/x', 'POST')(lambda: 'post')
app.route('/x', 'GET', overwrite=True)(lambda: 'new')
assert call(app, env('/x', 'GET'))[2] == b'new'
s, h, b = call(app, env('/x', 'POST'))
assert s.startswith('200') and b == b'post', s
''')

seed('c03-hook-nocopy', 'C03', C('C03', 'hook_nocopy'), 'a before-request hook that removes itself while it runs',
     'the hook list is iterated while a hook changes it, so the next hook is skipped', '''
from ombott import Ombott
app = Ombott()
ran = []


def once():
    ran.append('once')
    app.remove_hook('before_request', once)


app.add_hook('before_request', once)
app.add_hook('before_request', lambda: ran.append('second'))
app.route('/')(lambda: 'x')
assert call(app, env('/'))[2] == b'x'
assert ran == ['once', 'second'], ran
''')

seed('c03-cl-chars', 'C03', C('C03', 'cl_before'), 'a text body with characters outside ASCII',
     'Content-Length counts characters, not the encoded bytes', '''
from ombott import Ombott
app = Ombott()
app.route('/')(lambda: 'h\\u00e9llo \\u4f60')
s, h, b = call(app, env('/'))
assert int(dict(h)['Content-Length']) == len(b), (h, b)
''')

seed('c03-skip-one', 'C03', C('C03', 'skip_one'), 'a generator whose first two items are empty byte strings and the next is text',
     'only one leading empty item is skipped, so text items are returned to the server unencoded', '''
from ombott import Ombott
app = Ombott()


@app.route('/')
def gen():
    yield b''
    yield b''
    yield 'text'


out = []
res = app(env('/'), lambda *a: out.append(a))
items = list(res)
assert all(isinstance(i, bytes) for i in items), items
assert b''.join(items) == b'text'
''')

seed('c18-third', 'C18', C('C18', 'third_lost'), 'a key that is sent three times or more',
     'only the first and the latest value of a repeated key are kept', '''
from ombott import Ombott
app = Ombott()
seen = []


@app.route('/')
def index():
    seen.append(app.request.query.get('a'))
    return 'x'


call(app, env('/', QUERY_STRING='a=1&b=2&a=3'))
assert seen == [['1', '3']], seen
call(app, env('/', QUERY_STRING='a=1&a=2&a=3&a=4'))
assert seen[1] == ['1', '2', '3', '4'], seen
''')

seed('c18-truthy', 'C18', C('C18', 'seen_truthy'), 'a repeated key whose first value is empty',
     'an empty first value is dropped when the key is repeated', '''
from ombott import Ombott
app = Ombott()
seen = []


@app.route('/')
def index():
    seen.append(app.request.query.get('a'))
    return 'x'


call(app, env('/', QUERY_STRING='a=&a=2'))
assert seen == [['', '2']], seen
''')

seed('c01-cache-args', 'C01', C('C01', 'cache_args'), 'a `re` and a `rex` wildcard with the same pattern in one process',
     'the filter cache confuses two filters whose names begin alike, so the second rule converts its value with the filter of the first', '''
from ombott.router import RadiRouter
r = RadiRouter()
r.add('/r/<w.re((q)s)>', 'GET', 're')
r.add('/t/<w.rex((q)s)>', 'GET', 'rex')
(m, params, hooks), err = r.resolve('/r/qs', 'GET')
assert (m.handler, params) == ('re', {'w': 'qs'}), params
(m, params, hooks), err = r.resolve('/t/qs', 'GET')
assert (m.handler, params) == ('rex', {'w': 'q'}), params
''')

seed('c01-kw-none', 'C01', C('C01', 'kw_none'), 'an int wildcard that matches 0',
     'parameters that are false are not passed to the handler', '''
from ombott import Ombott
app = Ombott()
seen = []
app.route('/n/<i:int>', callback=lambda i=None: seen.append(i) or 'x')
call(app, env('/n/5'))
call(app, env('/n/0'))
assert seen == [5, 0], seen
''')

seed('c01-no-lookback', 'C01', C('C01', 'no_lookback'), 'two nested positions where a wildcard competes with a literal and the inner one has to be given up after the outer one was passed',
     'only the first alternative is remembered while matching, so a path that fits a wildcard rule deeper in the tree gets 404', '''
from ombott.router import RadiRouter
r = RadiRouter()
for rule in ('/a/b/c', '/a/<x>/d', '/<y>/b/e'):
    r.add(rule, 'GET', rule)
for path, want in (('/a/b/c', '/a/b/c'), ('/a/b/d', '/a/<x>/d'), ('/a/b/e', '/<y>/b/e'), ('/k/b/e', '/<y>/b/e')):
    end, err = r.resolve(path, 'GET')
    assert end and end[0].handler == want, (path, end, err)
''')

seed('c11-merge-many', 'C11', C('C11', 'merge_many'), 'a removal that leaves a tree node with two or more children and no route of its own',
     'the node is merged with its first child and the routes under the others are lost', '''
from ombott.router import RadiRouter
r = RadiRouter()
for rule in ('/ab', '/ac', '/ad'):
    r.add(rule, 'GET', rule)
r.remove('/ab')
assert r.resolve('/ab', 'GET')[0] is None
for rule in ('/ac', '/ad'):
    end, err = r.resolve(rule, 'GET')
    assert end and end[0].handler == rule, (rule, err)
''')

seed('c11-rej-name', 'C11', C('C11', 'rej_name'), 'a named registration that is refused',
     'the name of a refused registration is kept and answers with a route that is not in the router', '''
from ombott.router import RadiRouter
r = RadiRouter()
r.add('/a/<x>', 'GET', 'h')
try:
    r.add('/a/<x:int>', 'POST', 'g', name='n')
except Exception:
    assert r['n'] is None, r['n']
''')

seed('c11-hook-only', 'C11', C('C11', 'hooks_dropped'), 'removing a route whose rule also carries a route hook while a longer route stays',
     'the hook disappears with the route, although longer rules still extend it', '''
from ombott import Ombott
app = Ombott()
seen = []
app.route('/a', callback=lambda: 'a')
app.route('/a/b', callback=lambda: 'b')
app.on_route('/a', seen.append)
call(app, env('/a/b'))
assert seen == ['/a'], seen
app.remove_route('/a')
call(app, env('/a/b'))
assert seen == ['/a', '/a'], seen
''')

seed('c11-wild-exact', 'C11', C('C11', 'wild_nopartial'), 'a prefix removal whose prefix ends inside a tree key',
     'the removed routes stay in the tree and go on answering', '''
from ombott.router import RadiRouter
r = RadiRouter()
r.add('/abc/d', 'GET', 1)
r.add('/abc/e', 'GET', 2)
r.add('/x', 'GET', 3)
r.remove('/ab*')
assert r.resolve('/abc/d', 'GET')[0] is None
assert r.resolve('/abc/e', 'GET')[0] is None
assert r.resolve('/x', 'GET')[0][0].handler == 3
''')

TRIP = '''
from ombott.router import RadiRouter
def trip(rule, path, **kw):
    r = RadiRouter()
    r.add(rule, 'GET', rule)
    end, err = r.resolve(path, 'GET')
    assert end, (rule, path, err)
    args = kw.pop('args', [])
    want = kw.pop('want', path)
    url = r[{rule}].url(*args, **end[1])
    assert url.strip('/') == want.strip('/'), (rule, path, url)
    again, err = r.resolve('/' + url.strip('/'), 'GET')
    assert again and again[1] == end[1], (rule, path, url)
'''
seed('c19-tail', 'C19', C('C19', 'tail_lost'), 'a rule that ends with a literal of one character after a wildcard',
     'the built URL loses the last literal', TRIP + '''
trip('/p/<p:path>.e', '/p/a/b.e')
trip('/n/<i:int>e', '/n/5e')
trip('/a/<x>/b', '/a/u/b')
''')
seed('c19-args', 'C19', C('C19', 'args_pidx'), 'an anonymous wildcard after a named one',
     'the positional value is looked up at the wrong index', TRIP + '''
trip('/<:int>/<:int>', '/7/8', args=[7, 8])
trip('/<x>/<:int>', '/u/7', args=[7])
trip('/<x>/<:int>/<:int>', '/u/7/8', args=[7, 8])
''')
seed('c19-group', 'C19', C('C19', 'int_group'), 'an integer written with leading zeros before a literal',
     'the filter reports a wrong matched length and the rest of the path is read from the wrong place', TRIP + '''
trip('/n/<i:int>e', '/n/5e')
r = RadiRouter()
r.add('/n/<i:int>/<x>', 'GET', 1)
end, err = r.resolve('/n/007/u', 'GET')
assert end and end[1] == {'i': 7, 'x': 'u'}, (end, err)
assert r[{'/n/<i:int>/<x>'}].url(**end[1]) == 'n/7/u'
''')

BODY = '''
import io
from ombott import Ombott
class Drip:
    def __init__(self, data, n): self.d, self.n, self.p, self.most = data, n, 0, 0
    def read(self, k=-1):
        k = len(self.d) if k is None or k < 0 else k
        self.most = max(self.most, self.p + k)
        out = self.d[self.p:self.p + min(k, self.n)]
        self.p += len(out)
        return out
def body(data, n=10**6, cl=None, buf=None, method='POST', **kw):
    app = Ombott({'max_memfile_size': buf} if buf else None)
    e = env('/', method=method)
    e['REQUEST_METHOD'] = method
    e['wsgi.input'] = Drip(data, n)
    e.pop('CONTENT_LENGTH', None)
    if cl is not None:
        e['CONTENT_LENGTH'] = str(cl)
    e.update(kw)
    got = []
    @app.route('/', method=method)
    def h():
        got.append(app.request.body.read())
        return 'ok'
    status = call(app, e)[0]
    return str(status)[:3], (got or [None])[0], e
'''
seed('c04-short', 'C04', C('C04', 'short_stop'), 'a stream that delivers fewer bytes than asked for before its end',
     'the body ends at the first short read', BODY + '''
data = bytes(range(200))
assert body(data, cl=200)[1] == data
assert body(data, n=7, cl=200, buf=50)[1] == data
''')
seed('c04-ask', 'C04', C('C04', 'ask_buf'), 'a stream (keep-alive socket) that has more to deliver than Content-Length',
     'bytes beyond Content-Length are read and presented as body', BODY + '''
assert body(b'abcde', cl=5)[1] == b'abcde'
assert body(b'abcdeNEXT', cl=5)[1] == b'abcde'
''')
seed('c04-rewind', 'C04', C('C04', 'no_rewind'), 'a second access to the body after it has been read',
     'the body is not rewound and looks empty', BODY + '''
app = Ombott()
e = env('/', method='POST'); e['REQUEST_METHOD'] = 'POST'
e['wsgi.input'] = io.BytesIO(b'abc'); e['CONTENT_LENGTH'] = '3'
got = []
@app.route('/', method='POST')
def h():
    got.append(app.request.body.read()); got.append(app.request.body.read())
    return 'ok'
call(app, e)
assert got == [b'abc', b'abc'], got
''')
seed('c05-eof-line', 'C05', C('C05', 'eof_line'), 'a chunked stream that ends right after a complete chunk',
     'the truncated body is presented as complete', BODY + '''
t = {'HTTP_TRANSFER_ENCODING': 'chunked'}
assert body(b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n', **t)[:2] == ('200', b'abc')
s = body(b'3\\r\\nabc\\r\\n', **t)
assert s[0] == '400' and s[1] is None, s
''')
seed('c05-quote', 'C05', C('C05', 'ext_quote'), 'a chunk extension with a quoted value',
     'the quoted text leaks into the size', BODY + '''
t = {'HTTP_TRANSFER_ENCODING': 'chunked'}
assert body(b'3;a=b\\r\\nabc\\r\\n0\\r\\n\\r\\n', **t)[1] == b'abc'
assert body(b'3;a="b"\\r\\nabc\\r\\n0\\r\\n\\r\\n', **t)[1] == b'abc'
''')
seed('c05-dec', 'C05', C('C05', 'overwrite'), 'a chunk size spelled with a leading zero',
     'the body ends at the first chunk whose size starts with 0', BODY + '''
t = {'HTTP_TRANSFER_ENCODING': 'chunked'}
assert body(b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n', **t)[1] == b'abc'
assert body(b'03\\r\\nabc\\r\\n0\\r\\n\\r\\n', **t)[1] == b'abc'
''')
seed('c13-edge', 'C13', C('C13', 'ge'), 'a body exactly as large as max_body_size',
     'a body at the limit is rejected', BODY.replace("Ombott({'max_memfile_size': buf} if buf else None)", "Ombott({'max_memfile_size': buf, 'max_body_size': 10})") + '''
assert body(b'x' * 9, cl=9, buf=4)[0] == '200'
assert body(b'x' * 10, cl=10, buf=4)[:2] == ('200', b'x' * 10)
assert body(b'x' * 11, cl=11, buf=4)[0] == '413'
''')
seed('c13-chunkread', 'C13', C('C13', 'spill_chunked'), 'a chunked body larger than the in-memory threshold',
     'chunked bodies are kept in memory whatever their size', BODY.replace("got.append(app.request.body.read())", "got.append(type(app.request.body).__name__)") + '''
assert body(b'x' * 100, cl=100, buf=16)[1] != 'BytesIO'
assert body(b'40\\r\\n' + b'x' * 64 + b'\\r\\n0\\r\\n\\r\\n', buf=16, HTTP_TRANSFER_ENCODING='chunked')[1] != 'BytesIO'
''')
seed('c13-fields', 'C13', C('C13', 'max_read'), 'several multipart text fields, each below the threshold, together above it',
     'the in-memory budget is not shared between the fields of a form', BODY.replace("got.append(app.request.body.read())", "got.append(len(app.request.forms))") + '''
def form(n, size):
    p = b''.join(b'--x\\r\\nContent-Disposition: form-data; name="f%d"\\r\\n\\r\\n' % i + b'v' * size + b'\\r\\n' for i in range(n))
    return p + b'--x--\\r\\n'
ct = {'CONTENT_TYPE': 'multipart/form-data; boundary=x'}
one = form(1, 100)
assert body(one, cl=len(one), buf=300, **ct)[:2] == ('200', 1)
many = form(6, 100)
assert body(many, cl=len(many), buf=300, **ct)[0] == '413'
''')
PARTS = '''
import sys; sys.path.insert(0, '.')
from ombott.request_pkg.multipart import MultipartMarkup
def parse(boundary, *chunks):
    m = MultipartMarkup(boundary)
    for c in chunks: m.parse(c)
    return [list(x) for x in m.markups], type(m.error).__name__
def every(boundary, body):
    want = parse(boundary, body)
    assert want[1] == 'NoneType'
    for i in range(1, len(body)):
        assert parse(boundary, body[:i], body[i:]) == want, i
'''
seed('c06-expire', 'C06', C('C06', 'trest_keep'), 'data with the first bytes of a delimiter and, a block later, the rest of one, at a certain alignment of the read buffers',
     'a partial delimiter that did not continue is still completed by later bytes', PARTS + '''
for k in range(1, 12):
    b = b'--x\\r\\nh:v\\r\\n\\r\\n\\r\\n--' + b'z' * k + b'x and more\\r\\n--x--\\r\\n'
    every('x', b)
    assert len(parse('x', b)[0]) == 3
''')
seed('c06-hdr', 'C06', C('C06', 'hdr_rest'), 'a header block end that is spread over three reads',
     'the part of CRLFCRLF still expected is not shortened', PARTS + '''
b = b'--x\\r\\nh:v\\r\\n\\r\\ndata\\r\\n--x--\\r\\n'
every('x', b)
want = parse('x', b)
assert parse('x', *[b[i:i + 1] for i in range(len(b))]) == want
''')
seed('c06-spool', 'C06', C('C06', 'spool_feed'), 'a multipart body that outgrows the in-memory threshold while it is read',
     'what is read after the switch to a temporary file is not parsed', BODY.replace("got.append(app.request.body.read())", "got.append(app.request.files['f'].file.read() if 'f' in app.request.files else None)") + '''
data = bytes(range(256)) * 3
b = b'--x\\r\\nContent-Disposition: form-data; name="f"; filename="n"\\r\\n\\r\\n' + data + b'\\r\\n--x--\\r\\n'
ct = {'CONTENT_TYPE': 'multipart/form-data; boundary=x'}
assert body(b, cl=len(b), **ct)[:2] == ('200', data)
assert body(b, cl=len(b), buf=200, **ct)[:2] == ('200', data)
''')
POSTED = BODY.replace("got.append(app.request.body.read())", "got.append(look(app.request))") + '''
def mp(*parts):
    return b''.join(b'--x\\r\\nContent-Disposition: form-data; ' + h + b'\\r\\n\\r\\n' + d + b'\\r\\n' for h, d in parts) + b'--x--\\r\\n'
def post(b, f):
    global look
    look = f
    return body(b, cl=len(b), CONTENT_TYPE='multipart/form-data; boundary=x')[:2]
'''
seed('c07-save', 'C07', C('C07', 'savepos'), 'an upload that is saved after part of it has been read',
     'saving rewinds the upload instead of restoring its position', POSTED + """
def half(r):
    f = r.files['f']
    a = f.file.read(2)
    out = io.BytesIO()
    f.save(out)
    return a, out.getvalue(), f.file.read()
assert post(mp((b'name="f"; filename="n"', b'abcdef')), half)[1] == (b'ab', b'cdef', b'cdef')
""")
seed('c07-empty', 'C07', C('C07', 'fname_empty'), 'a file input that was left empty (filename="")',
     'an upload with an empty file name turns into a text field', POSTED + """
assert post(mp((b'name="f"; filename="n"', b'abc')), lambda r: (r.files['f'].file.read(), list(r.forms)))[1] == (b'abc', [])
assert post(mp((b'name="f"; filename=""', b'')), lambda r: (r.files['f'].file.read(), list(r.forms)))[1] == (b'', [])
""")
seed('c07-crlf', 'C07', C('C07', 'valstrip'), 'a text value that ends with a line break',
     'line breaks at the ends of a value are lost', POSTED + """
assert post(mp((b'name="a"', b'v')), lambda r: r.forms['a'])[1] == 'v'
assert post(mp((b'name="a"', b'\\r\\nv\\r\\n')), lambda r: r.forms['a'])[1] == '\\r\\nv\\r\\n'
""")
seed('c12-hex', 'C12', C('C12', 'hex'), 'a chunked body with a size line that is no hexadecimal number',
     'the ValueError of the size line escapes instead of becoming a 400', BODY + """
assert body(b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n', HTTP_TRANSFER_ENCODING='chunked')[:2] == ('200', b'abc')
assert body(b'zz\\r\\nabc\\r\\n0\\r\\n\\r\\n', HTTP_TRANSFER_ENCODING='chunked')[0] == '400'
""")
seed('c12-data', 'C12', C('C12', 'data_assert'), 'a multipart body that ends inside a part, after its headers',
     'the missing data of the part is an assertion failure (500) instead of a 400', POSTED + """
b = mp((b'name="a"', b'v'))
assert post(b, lambda r: r.forms['a']) == ('200', 'v')
assert all(post(b[:k], lambda r: r.forms.get('a'))[0][0] in '24' for k in range(len(b)))
""")
