"""Download with retries (sporco.util.netgetdata).  The network is replaced by
a scripted URL opener: every complete behaviour of the specification (spec/Net)
is played against the code."""
import json
import os

CFG = ('SPECIFICATION Spec\nCONSTANT MaxTry = %d\nINVARIANTS Bounded '
       'OnlyTimeoutsRetried Result Emit\nPROPERTY Termination\n'
       'CHECK_DEADLOCK FALSE\n')


def models(tier):
    return []


def generators(tier, seed):
    return [{'module': 'NetMC', 'workers': 1,
             'cfg': CFG % (4 if tier == 'quick' else 6)}]


def harness(rec):
    import io
    import socket
    import urllib.request as rq
    import urllib.error as er
    from sporco import util
    with open(os.environ['VERIF_SCN']) as f:
        scn = [s['s'] for s in json.load(f)]

    class Script(rq.BaseHandler):
        def default_open(self, req):
            if not self.todo:
                o = 'ok'
            else:
                o = self.todo.pop(0)
            self.n += 1
            rec.ev('try', o=o, url=req.full_url == self.url,
                   timeout=req.timeout == self.timeout)
            self.exc = None
            if o == 'connect timeout':
                self.exc = er.URLError(socket.timeout('timed out'))
            elif o == 'response timeout':
                self.exc = socket.timeout('timed out')
            elif o == 'url error':
                self.exc = er.URLError('no host given')
            elif o == 'refused':
                self.exc = er.URLError(ConnectionRefusedError(111, 'refused'))
            elif o == 'reset':
                self.exc = ConnectionResetError(104, 'reset')
            elif o == 'http error':
                self.exc = er.HTTPError(req.full_url, 404, 'Not Found', {},
                                        io.BytesIO(b'no'))
            if self.exc is not None:
                raise self.exc
            body = self.body = b'%d:' % self.n + self.data
            outer = self

            class Rsp(io.BytesIO):
                def read(self, *a):
                    if o == 'read timeout':
                        outer.exc = socket.timeout('timed out')
                        raise outer.exc
                    if o == 'read reset':
                        outer.exc = ConnectionResetError(104, 'reset')
                        raise outer.exc
                    return io.BytesIO.read(self, *a)
            r = Rsp(body)
            r.code, r.msg, r.status = 200, 'OK', 200
            r.info = lambda: {}
            r.headers = {}
            return r

    h = Script()
    op = rq.OpenerDirector()
    op.add_handler(h)
    rq.install_opener(op)
    for k, c in enumerate(scn):
        for v in range(3):
            url = 'http://127.0.0.1:9/f%d?x=%d' % (k, v)
            kw = {}
            if v != 1 or c['maxtry'] != 3:
                kw['maxtry'] = c['maxtry']
            tmo = 10
            if v == 0:
                tmo = kw['timeout'] = 1 + k % 40
            h.todo, h.n, h.url, h.timeout = list(c['h']), 0, url, tmo
            h.data = bytes((k * j + v) % 256 for j in range(5 * v))
            rec.trace('net-%d-%d' % (k, v), judge='NetTrace',
                      maxtry=c['maxtry'])
            try:
                out = util.netgetdata(url, **kw)
                rec.ev('ret', content=isinstance(out, io.BytesIO) and
                       out.tell() == 0 and out.read() == h.body)
            except Exception as e:
                rec.ev('raise', kind='URLError' if isinstance(
                    e, er.URLError) else type(e).__name__)
