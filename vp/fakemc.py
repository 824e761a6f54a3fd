"""In-process memcached with pymemcache's client interface, a pluggable clock,
flush/evict, and a hook at every operation for scheduling and faults."""
import threading


class Server:
    def __init__(self, clock=None):
        import time
        self.clock = clock or time.time
        self.lock = threading.RLock()
        self.data = {}    # key -> [bytes, expires or None, cas id]
        self.cas_id = 0
        self.hook = None  # hook(phase, op, key, result or None)
        self.log = []     # (op, key, args, result)

    def flush(self):
        with self.lock:
            self.data.clear()

    def evict(self, key):
        with self.lock:
            self.data.pop(key, None)

    def _live(self, key):
        item = self.data.get(key)
        if item and item[1] is not None and self.clock() >= item[1]:
            del self.data[key]
            return None
        return item

    def _expires(self, expire):
        if expire == 0:
            return None
        if expire < 0:
            return float('-inf')
        if expire > 30 * 24 * 3600:
            return float(expire)
        return self.clock() + expire

    def do(self, op, key, fn):
        if self.hook:
            self.hook('before', op, key, None)
        with self.lock:
            res = fn()
            self.log.append((op, key, res))
        if self.hook:
            self.hook('after', op, key, res)
        return res

    def client(self, default_noreply=False):
        return Client(self, default_noreply)


class Client:
    def __init__(self, server, default_noreply=False):
        self.server = server
        self.default_noreply = default_noreply

    @staticmethod
    def _key(key):
        if isinstance(key, str):
            key = key.encode('ascii')
        if len(key) > 250 or any(c <= 32 for c in key):
            raise ValueError(f'bad memcache key {key}')
        return key

    @staticmethod
    def _val(val):
        return val if isinstance(val, bytes) else str(val).encode()

    @staticmethod
    def _int(val, what='expire'):
        if not isinstance(val, int) or isinstance(val, bool):
            raise ValueError(f'{what} must be integer, got {val!r}')

    def _store(self, op, key, value, expire, noreply, cond):
        self._int(expire)
        key, value, s = self._key(key), self._val(value), self.server

        def fn():
            if not cond(s._live(key)):
                return False
            s.cas_id += 1
            s.data[key] = [value, s._expires(expire), s.cas_id]
            return True
        ok = s.do(op, key, fn)
        noreply = self.default_noreply if noreply is None else noreply
        return True if noreply else ok

    def add(self, key, value, expire=0, noreply=None, flags=None):
        return self._store('add', key, value, expire, noreply, lambda i: i is None)

    def set(self, key, value, expire=0, noreply=None, flags=None):
        return self._store('set', key, value, expire, noreply, lambda i: True)

    def replace(self, key, value, expire=0, noreply=None, flags=None):
        return self._store('replace', key, value, expire, noreply, lambda i: i is not None)

    def cas(self, key, value, cas, expire=0, noreply=False, flags=None):
        k, res = self._key(key), {}

        def cond(item):
            res['found'] = item is not None
            return item is not None and item[2] == int(cas)
        ok = self._store('cas', key, value, expire, False, cond)
        return ok if res['found'] else None

    def get(self, key, default=None):
        key, s = self._key(key), self.server

        def fn():
            item = s._live(key)
            return item[0] if item else None
        val = s.do('get', key, fn)
        return default if val is None else val

    def gets(self, key, default=None, cas_default=None):
        key, s = self._key(key), self.server

        def fn():
            item = s._live(key)
            return (item[0], str(item[2]).encode()) if item else None
        val = s.do('gets', key, fn)
        return (default, cas_default) if val is None else val

    def get_many(self, keys):
        return {k: v for k in keys if (v := self.get(k)) is not None}

    get_multi = get_many

    def delete(self, key, noreply=None):
        key, s = self._key(key), self.server

        def fn():
            found = s._live(key) is not None
            s.data.pop(key, None)
            return found
        ok = s.do('delete', key, fn)
        noreply = self.default_noreply if noreply is None else noreply
        return True if noreply else ok

    def _arith(self, op, key, delta, noreply):
        self._int(delta, 'value')
        key, s = self._key(key), self.server

        def fn():
            item = s._live(key)
            if item is None:
                return None
            val = int(item[0])
            val = val + delta if op == 'incr' else max(0, val - delta)
            s.cas_id += 1
            s.data[key] = [str(val).encode(), item[1], s.cas_id]
            return val
        res = s.do(op, key, fn)
        return None if noreply else res

    def incr(self, key, value, noreply=False):
        return self._arith('incr', key, value, noreply)

    def decr(self, key, value, noreply=False):
        return self._arith('decr', key, value, noreply)

    def touch(self, key, expire=0, noreply=None):
        key, s = self._key(key), self.server

        def fn():
            item = s._live(key)
            if item:
                item[1] = s._expires(expire)
            return item is not None
        return s.do('touch', key, fn)

    def flush_all(self, delay=0, noreply=None):
        self.server.flush()
        return True

    def close(self):
        pass

    quit = disconnect_all = close
