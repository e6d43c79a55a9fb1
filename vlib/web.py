"""A web server on the loopback interface, with files from memory. Each case gets its own directory on it, as downloads
are cached by URL"""
import http.server
import itertools
import os
import threading

os.environ['NO_PROXY'] = os.environ['no_proxy'] = '127.0.0.1,localhost'

FILES = {}
REQUESTS = []
_n = itertools.count()
_server = []


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        path = self.path.split('?')[0]
        REQUESTS.append(self.path)
        body = FILES.get(self.path, FILES.get(path))
        self.send_response(200 if body is not None else 404)
        body = body if body is not None else b'Not found'
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        if self.command == 'GET':
            self.wfile.write(body)

    do_HEAD = do_GET

    def log_message(self, *args):
        pass


class Site:
    """The files of one case"""
    def __init__(self):
        if not _server:
            s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
            s.daemon_threads = True
            threading.Thread(target=s.serve_forever, daemon=True).start()
            _server.append(s)
        self.dir = '/case%d/' % next(_n)
        self.base = 'http://127.0.0.1:%d%s' % (_server[0].server_port, self.dir)

    def write(self, name, content):
        FILES[self.dir + name] = content if isinstance(content, bytes) else content.encode('utf8')
        return self.base + name

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for k in [k for k in FILES if k.startswith(self.dir)]:
            del FILES[k]
        del REQUESTS[:]
