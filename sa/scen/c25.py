"""The HTTP source sends the configured request and releases the response."""
import urllib.request
import sa
from stream2py.sources.http import HTTPResponseReader
from scen.common import attempt
from scen.stream import Clock, StreamBuffer

METHODS = ('GET', 'get', 'Get', 'POST', 'put', 'DELETE', 'HEAD', 'PATCH')


class Response:
    def __init__(self, net):
        self.net = net
        self.closed = False
        self.status = self.code = 200
        self.reads = 0

    def getcode(self):
        return 200

    def read(self, *args):
        sa.check(not self.closed, 'a response is read after it was released')
        net = self.net
        sa.check(args == net.read_args, 'the response is not read with the configured arguments')
        net.chunk = b'' if net.at_end or sa.flag('end of the response') else sa.sym('chunk', 'bytes')
        net.clock = []
        return net.chunk

    def isclosed(self):
        return self.closed

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        sa.check(not self.closed, 'a response is released again')
        self.closed = True
        self.net.released += 1


class Net:
    """the requests sent and the responses they got"""

    def __init__(self, read_args=()):
        self.read_args = read_args
        self.requests = []
        self.responses = []
        self.released = 0
        self.fail = False
        self.at_end = False
        self.chunk = None
        self.clock = []
        sa.set_env('urlopen', self.open)
        sa.set_env('time', self.time)

    def time(self):
        t = sa.sym('now', 'num')
        self.clock.append(t)
        return t

    def open(self, request, data):
        if self.fail:
            raise sa.user_error('urlopen')
        if not isinstance(request, urllib.request.Request):
            request = urllib.request.Request(request, data=data)
        elif data is not None:
            request.data = data
        self.requests.append(request)
        r = Response(self)
        self.responses.append(r)
        return r


def a_body():
    """-> (the body configured, what has to be sent)"""
    k = sa.choose(3, 'body')
    if k == 0:
        b = sa.sym('text', 'str')
        return b, b.encode()
    if k == 1:
        b = sa.sym('raw', 'bytes')
        return b, b
    return None, b''


def prove_request():
    net = Net()
    url = sa.sym('url', 'str')
    method = METHODS[sa.choose(len(METHODS), 'method')]
    body, sent = a_body()
    kw = {}
    headers = {}
    h = sa.choose(3, 'headers')
    if h == 0:
        kw['headers'] = None
    elif h == 1:
        headers = {'a': sa.sym('value', 'str'), 'b': sa.sym('value', 'str')}
        kw['headers'] = dict(headers)
    if body is not None:
        kw['body'] = body
    if sa.flag('encoding given'):
        kw['encoding'] = 'latin-1'  # (of the response)
    if method != 'GET' or sa.flag('method given'):
        kw['method'] = method
    s = HTTPResponseReader(url, **kw)
    sa.check(len(net.requests) == 0, 'a request is sent before the source is opened')
    s.open()
    sa.check(len(net.requests) == 1, 'opening does not send one request')
    r = net.requests[0]
    sa.check(r.full_url is url, 'the request does not go to the configured URL')
    sa.check(r.get_method() == method, 'the request does not have the configured method')
    sa.check(r.headers == headers, 'the request does not have the configured headers')
    if method.upper() == 'GET':
        sa.check(r.data is None, 'a GET request has a body')
    elif sent == b'':
        sa.check(r.data == b'' or r.data is None, 'a request without a body has one')
    else:
        sa.check(sa.same(r.data, sent), 'the request does not have the configured body')


def prove_any_method():
    net = Net()
    method = sa.sym('method', 'str')
    sa.assume(len(method) > 0)
    body = sa.sym('raw', 'bytes')
    s = HTTPResponseReader('u', method=method, body=body)
    s.open()
    r = net.requests[0]
    sa.check(r.get_method() == method, 'the request does not have the configured method')
    if method.upper() == 'GET':
        sa.check(r.data is None, 'a GET request has a body')
    else:
        sa.check(r.data == body, 'the request does not have the configured body')


def opened(net, **kw):
    s = HTTPResponseReader('u', **kw)
    s.open()
    return s


def read_args():
    """-> (the option, the arguments of a read)"""
    k = sa.choose(5, 'read arguments')
    if k == 4:
        return {'response_read_args': 0}, (0,)
    n = sa.integer('size', 1)
    if k == 0:
        return {}, ()
    if k == 1:
        return {'response_read_args': n}, (n,)
    if k == 2:
        return {'response_read_args': (n,)}, (n,)
    return {'response_read_args': None}, ()


def prove_chunk():
    opts, args = read_args()
    net = Net(args)
    enc = None
    if sa.flag('encoding'):
        enc = sa.sym('encoding', 'str')
        sa.assume(len(enc) > 0)
        opts['encoding'] = enc
    elif sa.flag('no encoding given'):
        opts['encoding'] = ''
    s = opened(net, **opts)
    x = s.read()
    if len(net.chunk) == 0:
        sa.check(x is None, 'the end of the response is an item')
        sa.check(s.info['n_bytes_read'] == 0, 'the byte count is not the number of bytes delivered')
        return
    sa.check(type(x) is tuple and len(x) == 2, 'a chunk is not delivered as a pair')
    sa.check(len(net.clock) > 0 and any(x[0] is t for t in net.clock),
             'the first of the pair is not the time of the read')
    if enc is None:
        sa.check(x[1] is net.chunk, 'a chunk is changed though no encoding is configured')
    else:
        sa.check(sa.same(x[1], net.chunk.decode(enc)), 'a chunk is not decoded as configured')
    sa.check(s.info['n_bytes_read'] == len(net.chunk),
             'the byte count is not the number of bytes delivered')


def prove_any_number_of_chunks():
    net = Net()
    kw = {}
    if sa.flag('encoding'):
        kw['encoding'] = 'utf-8'
    s = opened(net, **kw)
    total = 0
    while sa.flag('one more read'):
        x = s.read()
        if len(net.chunk) == 0:
            sa.check(x is None, 'the end of the response is an item')
        else:
            sa.check(x is not None, 'a chunk is not delivered as a pair')
            total += len(net.chunk)
        sa.check(s.info['n_bytes_read'] == total, 'the byte count is not the number of bytes delivered')


def prove_close():
    net = Net()
    s = HTTPResponseReader('u')
    if sa.flag('closed before'):
        s.close()
    s.open()
    if sa.flag('read'):
        s.read()
    r = net.responses[0]
    sa.check(not r.closed, 'the response is released before the source is closed')
    s.close()
    sa.check(r.closed, 'closing does not release the response')
    s.close()
    sa.check(net.released == 1, 'closing again releases again')
    sa.check(len(net.requests) == 1, 'closing sends a request')


def prove_reopened():
    net = Net()
    s = HTTPResponseReader('u', method='POST', body='b', headers={'a': 'b'})
    s.open()
    s.close()
    s.open()
    sa.check(len(net.requests) == 2, 'opening again does not send a request')
    r = net.requests[1]
    sa.check(r.full_url == 'u' and r.get_method() == 'POST' and r.data == b'b'
             and r.headers == {'a': 'b'}, 'the second request is not the configured one')
    x = s.read()
    sa.check(x is None or x[1] is net.chunk, 'the second response is not read')
    s.close()
    sa.check(net.responses[0].closed and net.responses[1].closed, 'closing does not release the response')
    s.close()
    sa.check(net.released == 2, 'closing again releases again')


def prove_reopened_after_the_end():
    opts, args = read_args()
    net = Net(args)
    s = opened(net, **opts)
    net.at_end = True
    sa.check(s.read() is None, 'the end of the response is an item')
    sa.check(s.read() is None, 'the end of the response is an item')
    if sa.flag('closed'):
        s.close()
    s.open()
    net.at_end = False
    x = s.read()
    if len(net.chunk) == 0:
        sa.check(x is None, 'the end of the response is an item')
    else:
        sa.check(x is not None and x[1] is net.chunk, 'the second response is not read')


def prove_failed_open():
    net = Net()
    s = HTTPResponseReader('u')
    net.fail = True
    kind, v = attempt(s.open)
    sa.check(kind == 'error' and isinstance(v, sa.UserError), 'the error of the request is hidden')
    s.close()
    sa.check(net.released == 0, 'closing a source that is not open releases something')
    net.fail = False
    s.open()
    s.close()
    sa.check(net.released == 1, 'closing does not release the response')


def prove_context():
    net = Net()
    s = HTTPResponseReader('u')
    try:
        with s as x:
            sa.check(x is s, 'entering a source does not give the source')
            if sa.flag('an error in the block'):
                raise sa.user_error('block')
    except sa.UserError:
        sa.reach('an error in the block')
    sa.check(net.released == 1, 'leaving the context does not release the response')
    s.close()
    sa.check(net.released == 1, 'closing again releases again')


def prove_streamed():
    """the source read by a stream"""
    net = Net()
    s = HTTPResponseReader('u', response_read_args=())
    c = Clock(stops=False)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    sa.check(len(net.requests) == 1, 'opening does not send one request')
    r = sb.mk_reader()
    sa.check(r.source_reader_info['url'] == 'u', 'the info of the source is not that of the request')
    net.at_end = True
    c.stops = True
    c.run()
    sa.check(net.released == 1, 'the end of the stream does not release the response')
    sa.check(r.read(ignore_no_item_found=True) is None, 'the end of the response is an item')
