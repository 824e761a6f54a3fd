"""Helpers for demonstrations: environment, in-memory and fake-Datastore worlds."""
import logging, os, warnings
for k, v in {'TZ': 'UTC', 'DATASTORE_EMULATOR_HOST': 'localhost:8089', 'CLOUDSDK_CORE_PROJECT': 'app', 'DATASTORE_DATASET': 'app',
             'GOOGLE_CLOUD_PROJECT': 'app', 'ENCRYPTED_PROPERTY_KEY': 'Xk2vP5mY8bR1cT4wZ7qL0nJ3hF6gD9sA2eU5iO8pK1M=',
             'PDS_HOST': 'pds.example', 'PLC_HOST': 'plc.example', 'REPO_TOKEN': 'towkin-1', 'REPO_PASSWORD': 'sekret'}.items():
    os.environ[k] = v
for k in ('SUPPORTED_COLLECTIONS', 'DISABLE_GETREPO', 'GETREPO_TOKEN', 'BLOB_MAX_BYTES'):
    os.environ.pop(k, None)
warnings.simplefilter('ignore')
import webutil.appengine_config
logging.disable(logging.CRITICAL)
from arroba import server, util
from arroba.storage import Action, MemoryStorage, SUBSCRIBE_REPOS_NSID
from arroba.repo import Repo, Write

KEY = util.new_key(seed=0x5ca1ab1e)


def did(i=0):
    return 'did:plc:' + 'abcdefghijklmnopqrstuvwx'[i:] + 'abcdefghijklmnopqrstuvwx'[:i]


def memory():
    server.storage = MemoryStorage()
    return server.storage


def datastore(sequences=None):
    import fakeds
    from arroba.datastore_storage import DatastoreStorage
    client, store = fakeds.install()
    server.storage = DatastoreStorage(ndb_client=client, sequences=sequences)
    return server.storage, client, store


def new_repo(storage, i=0, **kw):
    return Repo.create(storage, did(i), handle=f'h{i}.example.com', signing_key=KEY, rotation_key=KEY, **kw)


def create(path, **rec):
    return Write(Action.CREATE, *path.split('/'), {'$type': 'com.example.x', **rec})


def delete(path):
    return Write(Action.DELETE, *path.split('/'))

