"""Process set-up. Import this before anything from arroba, webutil or google.

Every harness process: puts /repo first on sys.path, silences logs, fixes the
environment the library reads at import time, and (optionally) replaces the
``time`` module's clocks with a virtual one that only moves when told to.
"""
import logging
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

ENV = {
    'TZ': 'UTC',
    'DATASTORE_EMULATOR_HOST': 'localhost:8089',
    'CLOUDSDK_CORE_PROJECT': 'app',
    'DATASTORE_DATASET': 'app',
    'GOOGLE_CLOUD_PROJECT': 'app',
    'ENCRYPTED_PROPERTY_KEY': 'Xk2vP5mY8bR1cT4wZ7qL0nJ3hF6gD9sA2eU5iO8pK1M=',
    'PDS_HOST': 'pds.example',
    'PLC_HOST': 'plc.example',
    'REPO_TOKEN': 'towkin-1',
    'REPO_PASSWORD': 'sooper-sekret',
    'LOCAL_SERVER': 'true',
}


def setup(**extra):
    """Sets the environment and silences logging. Call before importing arroba."""
    for k in ('SUPPORTED_COLLECTIONS', 'DISABLE_GETREPO', 'GETREPO_TOKEN',
              'APPVIEW_HOST', 'APPVIEW_JWT', 'BLOB_MAX_BYTES'):
        os.environ.pop(k, None)
    os.environ.update(ENV)
    os.environ.update({k: str(v) for k, v in extra.items() if v is not None})
    import time
    if hasattr(time, 'tzset'):
        time.tzset()
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import webutil.appengine_config  # noqa: its import turns logging up
    logging.disable(logging.CRITICAL)


class VirtualClock:
    """Replaces time.time/time_ns/sleep. Real monotonic clocks are left alone."""

    def __init__(self, start=1_760_000_000.0):
        import threading
        self.now = start
        self.lock = threading.Lock()
        self.slept = []
        self.on_sleep = None

    def install(self):
        import time
        self.real_sleep = time.sleep
        self.real_time = time.time
        time.time = self.time
        time.time_ns = self.time_ns
        time.sleep = self.sleep
        return self

    def time(self):
        return self.now

    def time_ns(self):
        return int(self.now * 1e6) * 1000

    def advance(self, secs):
        with self.lock:
            self.now += secs

    def sleep(self, secs):
        if self.on_sleep:
            self.on_sleep(secs)
        else:
            self.real_sleep(min(secs, 0.001))
