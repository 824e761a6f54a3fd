"""pytest plugin: runs arroba's own Datastore tests against vp.fakeds, to validate the fake.

  cd /repo && PYTHONPATH=/verif:/verif/tools python -m pytest -p fakeds_plugin arroba/tests
"""
import os, sys
os.environ.setdefault('ENCRYPTED_PROPERTY_KEY', 'Xk2vP5mY8bR1cT4wZ7qL0nJ3hF6gD9sA2eU5iO8pK1M=')
from vp import fakeds
from webutil.appengine_config import ndb_client
client, store = fakeds.install(ndb_client)
import requests
_post = requests.post
def post(url, *a, **kw):
    if url.endswith('/reset'):
        store.reset()
        return
    return _post(url, *a, **kw)
requests.post = post
