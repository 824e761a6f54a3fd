"""XRPC over HTTP: the real lexrpc server on a Flask test client."""
import json
import threading
import traceback

_app = None


def stubs():
    """lexrpc.flask_server's websocket dependencies aren't installed here; only its
    HTTP side is used."""
    import importlib.util
    import sys
    import types
    for name, attrs in {'flask_sock': ('Sock',), 'iterators': ('TimeoutIterator',),
                        'simple_websocket': ('ConnectionClosed',),
                        'wsproto': (), 'wsproto.utilities': ('ProtocolError',)}.items():
        try:
            if name in sys.modules or importlib.util.find_spec(name):
                continue
        except ModuleNotFoundError:
            pass
        mod = types.ModuleType(name)
        for a in attrs:
            base = Exception if a in ('ConnectionClosed', 'ProtocolError') else object
            setattr(mod, a, type(a, (base,), {
                '__init__': lambda self, *a, **k: None,
                'route': lambda self, *a, **k: lambda fn: fn}))
        sys.modules[name] = mod


def app():
    global _app
    if _app is None:
        stubs()
        from flask import Flask
        from lexrpc.flask_server import init_flask
        from arroba import server, xrpc_repo, xrpc_server, xrpc_sync  # noqa
        _app = Flask('vp', static_folder=None)
        _app.config['PROPAGATE_EXCEPTIONS'] = False
        init_flask(server.server, _app)
        from flask import got_request_exception
        got_request_exception.connect(_on_exc, _app)
    return _app


_last_exc = threading.local()


def _on_exc(sender, exception, **kw):
    _last_exc.tb = ''.join(traceback.format_exception(exception)[-4:])


class Resp:
    def __init__(self, r):
        self.tb, _last_exc.tb = getattr(_last_exc, 'tb', ''), ''
        self.status = r.status_code
        self.data = r.get_data()
        self.headers = dict(r.headers)
        self.json = None
        if self.data and r.headers.get('Content-Type', '').startswith('application/json'):
            self.json = json.loads(self.data)

    @property
    def error(self):
        return self.json.get('error') if isinstance(self.json, dict) else None

    def __repr__(self):
        return f'<{self.status} {self.tb[-800:] or self.data[:300]!r}>'


def get(nsid, headers=None, **params):
    args = []
    for k, v in params.items():
        if v is None:
            continue
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            args.append((k, str(x).lower() if isinstance(x, bool) else str(x)))
    with app().test_client() as c:
        return Resp(c.get(f'/xrpc/{nsid}', query_string=args, headers=headers or {}))


def post(nsid, body=None, data=None, headers=None, token=None, ctype=None):
    """body: JSON-able; data: raw bytes."""
    headers = dict(headers or {})
    if token is not None:
        headers['Authorization'] = f'Bearer {token}'
    if data is None:
        data = json.dumps(body if body is not None else {}).encode()
        ctype = ctype or 'application/json'
    with app().test_client() as c:
        return Resp(c.post(f'/xrpc/{nsid}', data=data, headers=headers, content_type=ctype))
