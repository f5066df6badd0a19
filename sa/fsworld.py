"""Stand-in for the file system: every operation is a point at which something may fail, crash, or run in between."""
import pickle
import posixpath

from .values import *
from .lib import NFn
from .world import client, Clock, As, attempt

FILEBASED = '''
import io
import os
import pickle
import time
import zlib

DEFAULT_TIMEOUT = object()


class FileBasedCache(object):
    """What is relied on of Django's backend: the reader, the name of the file, and the time of expiry."""
    cache_suffix = '.djcache'

    def __init__(self, dir, params):
        self._dir = dir
        self.default_timeout = params.get('TIMEOUT', 300)
        self.key_prefix = ''
        self.version = 1

    def make_key(self, key, version=None):
        if version is None:
            version = self.version
        return made_key(key, version)

    def validate_key(self, key):
        pass

    def get_backend_timeout(self, timeout=DEFAULT_TIMEOUT):
        if timeout is DEFAULT_TIMEOUT:
            timeout = self.default_timeout
        elif timeout == 0:
            timeout = -1
        return None if timeout is None else time.time() + timeout

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        if self.has_key(key, version):
            return False
        self.set(key, value, timeout, version)
        return True

    def get(self, key, default=None, version=None):
        fname = self._key_to_file(key, version)
        if os.path.exists(fname):
            with io.open(fname, 'rb') as f:
                if not self._is_expired(f):
                    return pickle.loads(zlib.decompress(f.read()))
        return default

    def has_key(self, key, version=None):
        fname = self._key_to_file(key, version)
        if os.path.exists(fname):
            with io.open(fname, 'rb') as f:
                return not self._is_expired(f)
        return False

    def delete(self, key, version=None):
        self._delete(self._key_to_file(key, version))

    def _delete(self, fname):
        if os.path.exists(fname):
            os.remove(fname)

    def _createdir(self):
        if not os.path.exists(self._dir):
            os.makedirs(self._dir)

    def _key_to_file(self, key, version=None):
        key = self.make_key(key, version=version)
        self.validate_key(key)
        return os.path.join(self._dir, file_name(key) + self.cache_suffix)

    def _cull(self):
        if cache_is_full():
            self.clear()

    def clear(self):
        if os.path.exists(self._dir):
            for fname in self._list_cache_files():
                self._delete(fname)

    def _is_expired(self, f):
        exp = pickle.load(f)
        if exp is not None and exp < time.time():
            f.close()
            self._delete(f.name)
            return True
        return False

    def _list_cache_files(self):
        return [os.path.join(self._dir, f) for f in os.listdir(self._dir) if f.endswith(self.cache_suffix)]
'''


class Inode(object):
    def __init__(self):
        self.data, self.dirty, self.torn = [], False, False

    def visible(self):
        """What a reader can find: of unfinished writes only a part."""
        return self.data[:-1] if self.dirty or self.torn else list(self.data)


class FS(object):
    def __init__(self, I):
        self.I = I
        self.paths, self.dirs, self.fds = {}, set(['/cache', '/tmp']), {}
        self.names = 0
        self.ops = []
        self.depth = 0            # operations of readers and of others are not counted
        self.fail = ()            # numbers of the operations that fail
        self.failed = []
        self.hook = None          # called before every counted operation with its number
        self.full, self.unpicklable = False, None
        self.after = None         # called after every counted operation
        self.install()

    # one step

    def step(self, name, what, effect, partial=None):
        I = self.I
        if self.depth:
            return effect()
        n = len(self.ops)
        self.ops.append((name, what, I.loc()))
        if self.hook is not None:
            self.depth += 1
            try:
                self.hook(n)
            finally:
                self.depth -= 1
        if n in self.fail:
            self.failed.append((name, I.loc()))
            if partial is not None:
                partial()
            self.look()
            I.throw(OSError(28, 'No space left on device'))
        r = effect()
        self.look()
        return r

    def look(self):
        if self.after is not None:
            self.depth += 1
            try:
                self.after()
            finally:
                self.depth -= 1

    def fileerror(self, no, text, path):
        self.I.throw(OSError(no, text, path if isinstance(path, str) else show(path)))

    def device(self, path):
        return '/cache' if isinstance(path, T) and 'cache' in show(path) or isinstance(path, str) and path.startswith('/cache') else 'other'

    # operations

    def exists(self, path):
        return self.step('exists', path, lambda: path in self.paths or path in self.dirs)

    def isfile(self, path):
        return self.step('exists', path, lambda: path in self.paths)

    def isdir(self, path):
        return self.step('exists', path, lambda: path in self.dirs)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        def effect():
            if path in self.dirs and not exist_ok:
                self.fileerror(17, 'File exists', path)
            self.dirs.add(path)
        return self.step('makedirs', path, effect)

    def listdir(self, path='.'):
        def effect():
            if path not in self.dirs:
                self.fileerror(2, 'No such file or directory', path)
            return [posixpath.basename(p) for p in self.paths if isinstance(p, str) and posixpath.dirname(p) == path]
        return self.step('listdir', path, effect)

    def create(self, path, truncate=True, excl=False):
        if excl and path in self.paths:
            self.fileerror(17, 'File exists', path)
        d = self.dirname(path)
        if d not in self.dirs:
            self.fileerror(2, 'No such file or directory', path)
        if path not in self.paths:
            self.paths[path] = Inode()
        elif truncate:
            self.paths[path].data = []
            self.paths[path].dirty = self.paths[path].torn = False
        return self.paths[path]

    def dirname(self, path):
        return self.I.call(self.I.lib.models['os.path.dirname'], [path], {})

    def unique(self, dir, prefix, suffix):
        self.names += 1
        d = '/tmp' if dir is None else dir
        return fmt(d, '/', prefix or 'tmp', 'unique%d' % self.names, suffix or '')

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        def effect():
            path = self.unique(dir, prefix, suffix)
            inode = self.create(path)
            return self.newfd(inode, path), path
        return self.step('mkstemp', dir, effect)

    def mktemp(self, suffix=None, prefix=None, dir=None):
        return self.unique(dir, prefix, suffix)

    def named(self, mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
        def effect():
            path = self.unique(dir, prefix, suffix)
            return FileModel(self, self.create(path), path, mode, delete)
        return self.step('mkstemp', dir, effect)

    def newfd(self, inode, path):
        fd = 3 + len(self.fds)
        self.fds[fd] = (inode, path)
        return fd

    def open(self, path, mode='r', buffering=-1, *a, **k):
        def effect():
            if isinstance(path, int):
                if path not in self.fds:
                    self.fileerror(9, 'Bad file descriptor', path)
                inode, name = self.fds[path]
                return FileModel(self, inode, name, mode, fd=path, buffered=buffering != 0)
            if 'r' in mode and '+' not in mode:
                if path not in self.paths:
                    self.fileerror(2, 'No such file or directory', path)
                return FileModel(self, self.paths[path], path, mode)
            return FileModel(self, self.create(path, 'w' in mode, 'x' in mode), path, mode, buffered=buffering != 0)
        return self.step('open', path, effect)

    def os_open(self, path, flags, mode=0o777, **k):
        import os
        return self.step('open', path, lambda: self.newfd(self.create(path, bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL)), path))

    def os_write(self, fd, data):
        inode = self.fds[fd][0]

        def torn():
            inode.data.append(data)
            inode.torn = True
        self.step('write', fd, lambda: inode.data.append(data), torn)
        return 1

    def os_close(self, fd):
        return self.step('close', fd, lambda: self.fds.pop(fd, None) and None)

    def fsync(self, fd):
        return self.step('fsync', fd, lambda: None)

    def rename(self, a, b):
        def effect():
            if a not in self.paths:
                self.fileerror(2, 'No such file or directory', a)
            if self.device(a) != self.device(b):
                self.fileerror(18, 'Invalid cross-device link', a)
            if self.dirname(b) not in self.dirs:
                self.fileerror(2, 'No such file or directory', b)
            self.paths[b] = self.paths.pop(a)
        return self.step('rename', (a, b), effect)

    def link(self, a, b, **k):
        def effect():
            if a not in self.paths:
                self.fileerror(2, 'No such file or directory', a)
            if b in self.paths:
                self.fileerror(17, 'File exists', b)
            if self.device(a) != self.device(b):
                self.fileerror(18, 'Invalid cross-device link', a)
            self.paths[b] = self.paths[a]
        return self.step('link', (a, b), effect)

    def remove(self, path):
        def effect():
            if path not in self.paths:
                self.fileerror(2, 'No such file or directory', path)
            del self.paths[path]
        return self.step('remove', path, effect)

    def copyfile(self, a, b, *x, **k):
        def start():
            if a not in self.paths:
                self.fileerror(2, 'No such file or directory', a)
            inode = self.create(b)
            inode.torn = True
            return inode
        inode = self.step('copy', (a, b), start)

        def end():
            inode.data = list(self.paths[a].visible())
            inode.torn = self.paths[a].torn
        self.step('copy', (a, b), end)
        return b

    def move(self, a, b, *x, **k):
        if self.device(a) == self.device(b):
            self.rename(a, b)
        else:
            self.copyfile(a, b)
            self.remove(a)
        return b

    def file_move_safe(self, old, new, chunk_size=65536, allow_overwrite=False):
        if not allow_overwrite and self.exists(new):
            self.fileerror(17, 'File exists', new)
        self.move(old, new)

    def dumps(self, o, *a, **k):
        if self.unpicklable is not None and any(x is self.unpicklable for x in (o if isinstance(o, (list, tuple)) else [o])):
            self.I.throw(pickle.PicklingError('value cannot be pickled'))
        return self.I.lib.dumps(o)

    def load(self, f):
        if isinstance(f, FileModel):
            x = f.next_chunk()
            if x is None:
                self.I.throw(EOFError('Ran out of input'))
            return self.I.lib.loads(x)
        raise AnalysisError('pickle.load of %s' % show(f))

    def decompress(self, x, *a):
        if isinstance(x, T) and x.op == 'zlib':
            return x.args[0]
        self.I.throw(ValueError('Error -3 while decompressing data'))

    def install(self):
        e = self.I.ext
        for n in ('exists', 'isfile', 'isdir'):
            e['os.path.' + n] = NFn(n, getattr(self, n))
        e['os.path.lexists'] = e['os.path.exists']
        for n in ('makedirs', 'listdir', 'fsync', 'rename', 'link', 'remove'):
            e['os.' + n] = NFn(n, getattr(self, n))
        e['os.fdatasync'], e['os.mkdir'] = e['os.fsync'], e['os.makedirs']
        e['os.replace'] = e['os.renames'] = e['os.rename']
        e['os.unlink'] = e['os.remove']
        e['os.chmod'] = e['os.utime'] = NFn('chmod', lambda *a, **k: None)
        e['os.umask'] = NFn('umask', lambda m: 0o22)
        e['os.fdopen'] = e['io.open'] = e['builtins.open'] = e['codecs.open'] = NFn('open', self.open)
        self.I.lib.b['open'] = e['io.open']
        for n in ('open', 'write', 'close'):
            e['os.' + n] = NFn(n, getattr(self, 'os_' + n))
        for n in ('mkstemp', 'mktemp'):
            e['tempfile.' + n] = NFn(n, getattr(self, n))
        e['tempfile.NamedTemporaryFile'] = NFn('NamedTemporaryFile', self.named)
        e['tempfile.gettempdir'] = NFn('gettempdir', lambda: '/tmp')
        for n in ('move', 'copyfile'):
            e['shutil.' + n] = NFn(n, getattr(self, n))
        e['shutil.copy'] = e['shutil.copy2'] = e['shutil.copyfile']
        e['django.core.files.move.file_move_safe'] = NFn('file_move_safe', self.file_move_safe)
        e['pickle.load'] = NFn('load', self.load)
        e['zlib.decompress'] = NFn('decompress', self.decompress)
        e['io.BytesIO'] = NFn('BytesIO', lambda data=b'': Buffer(data))
        e['pickle.dumps'] = NFn('dumps', self.dumps)
        e['pickle.dump'] = NFn('dump', lambda o, f, *a, **k: self.I.call_method(f, 'write', [self.dumps(o)]))
        ns = client(self.I, FILEBASED, 'django_filebased')
        table = {}

        def number(kind, k):
            self.I.hashable(k)
            return '%s%d' % (kind, table.setdefault((kind, k), len(table)))
        ns['cache_is_full'] = NFn('cache_is_full', lambda: self.full)
        ns['made_key'] = NFn('made_key', lambda k, v: number('made', (k, v)))
        ns['file_name'] = NFn('file_name', lambda k: number('file', k))
        e['django.core.cache.backends.filebased.FileBasedCache'] = ns['FileBasedCache']
        e['django.core.cache.backends.filebased.pickle'] = ns['pickle']
        e['django.core.cache.backends.base.DEFAULT_TIMEOUT'] = e['django.core.cache.backends.filebased.DEFAULT_TIMEOUT'] = ns['DEFAULT_TIMEOUT']


def chunks(data):
    return [x for x in (data.args if isinstance(data, T) and data.op == 'fmt' else (data,)) if x != b'' and x != '']


class Buffer(Model):
    """io.BytesIO"""
    def __init__(self, data):
        self._data = chunks(data)

    def write(self, data):
        self._data.extend(chunks(data))
        return 1

    def getvalue(self):
        return fmt(b'', *self._data)

    getbuffer = getvalue

    def seek(self, *a):
        return 0

    def read(self):
        return self.getvalue()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FileModel(Model):
    def __init__(self, fs, inode, name, mode, delete=False, fd=None, buffered=True):
        self._fs, self._inode, self._mode, self._delete, self._fd, self._buffered = fs, inode, mode, delete, fd, buffered
        self.__dict__['name'] = name
        self.__dict__['closed'] = False
        self._rest = inode.visible() if 'r' in mode or '+' in mode else []

    def write(self, data):
        if self.closed:
            self._fs.I.throw(ValueError('I/O operation on closed file'))
        i = self._inode

        def effect():
            i.data.extend(chunks(data))
            i.dirty = i.dirty or self._buffered

        def torn():
            i.data.extend(chunks(data))
            i.torn = True
        self._fs.step('write', self.name, effect, torn)
        return 1

    def writelines(self, lines):
        for x in self._fs.I.each(lines):
            self.write(x)

    def _flushed(self):
        self._inode.dirty = False

    def _torn(self):
        if self._inode.dirty:
            self._inode.torn = True

    def flush(self):
        self._fs.step('flush', self.name, self._flushed, self._torn)

    def close(self):
        if self.closed:
            return
        self.__dict__['closed'] = True
        if 'r' in self._mode and '+' not in self._mode:
            return
        self._fs.step('close', self.name, self._flushed, self._torn)
        if self._delete:
            self._fs.remove(self.name)

    def fileno(self):
        if self._fd is None:
            self._fd = self._fs.newfd(self._inode, self.name)
        return self._fd

    def next_chunk(self):
        return self._rest.pop(0) if self._rest else None

    def read(self, *a):
        r, self._rest = self._rest, []
        return fmt(b'', *r) if len(r) != 1 else r[0]

    def seek(self, *a):
        return 0

    def tell(self):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False
