"""watches the file system operations of the code under test (through the interpreter's audit
events, which are raised before each operation) and makes chosen ones fail"""
import os
import sys

EVENTS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.rmdir', 'tempfile.mkstemp', 'shutil.move', 'shutil.copyfile')


class Watch:
    """`on(event, args)` is called before every file system operation; it may raise"""
    current = None
    busy = False

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        Watch.current = self
        return self

    def __exit__(self, *a):
        Watch.current = None


def _hook(event, args):
    w = Watch.current
    if w is None or Watch.busy or event not in EVENTS:
        return
    Watch.busy = True
    try:
        w.on(event, args)
    finally:
        Watch.busy = False


sys.addaudithook(_hook)


def fds():
    """open descriptors of this process: number -> what it refers to"""
    out = {}
    Watch.busy, old = True, Watch.busy
    try:
        for x in os.listdir('/proc/self/fd'):
            try:
                out[int(x)] = os.readlink('/proc/self/fd/' + x)
            except OSError:
                pass
    finally:
        Watch.busy = old
    return {k: v for k, v in out.items() if not v.startswith('/proc/')}


def content(path):
    """bytes of a file, None if there is none"""
    Watch.busy, old = True, Watch.busy
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None
    except IsADirectoryError:
        return 'dir'
    finally:
        Watch.busy = old


def listing(path):
    Watch.busy, old = True, Watch.busy
    try:
        return sorted(os.path.relpath(os.path.join(r, f), path) for r, _, fs in os.walk(path) for f in fs)
    finally:
        Watch.busy = old
