"""Makes `import la` load the sources of /repo's working tree.

The modules are compiled from the .py files at import time (never from .pyc
files), and la.cflabel is the extension built from la/src in a scratch
directory, so nothing stale is ever tested and nothing is written to /repo.
"""
import imp
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('LA_REPO', '/repo')


class SourceImporter(object):

    def __init__(self, so=None):
        self.so = so            # path of cflabel.so, None: no extension

    def _path(self, fullname):
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def find_module(self, fullname, path=None):
        if fullname != 'la' and not fullname.startswith('la.'):
            return None
        if fullname == 'la.cflabel':
            return self
        if self._path(fullname)[0] is None:
            return None         # Implicit relative imports such as la.numpy
        return self

    def load_module(self, fullname):
        if fullname in sys.modules:
            return sys.modules[fullname]
        if fullname == 'la.cflabel':
            if self.so is None:
                raise ImportError('la.cflabel is switched off')
            return imp.load_dynamic(fullname, self.so)
        path, ispkg = self._path(fullname)
        if path is None:
            raise ImportError(fullname)
        with open(path) as fid:
            source = fid.read()
        code = compile(source + '\n', path, 'exec', dont_inherit=True)
        mod = imp.new_module(fullname)
        mod.__file__ = path
        mod.__loader__ = self
        if ispkg:
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = fullname
        else:
            mod.__package__ = fullname.rpartition('.')[0]
        sys.modules[fullname] = mod
        try:
            exec(code, mod.__dict__)
        except:
            del sys.modules[fullname]
            raise
        return mod


def install(so=None):
    sys.meta_path.insert(0, SourceImporter(so))


def build_ext(scratch, source='pyx', cflags=(), ldflags=(), cc='gcc',
              name='cflabel'):
    """Builds cflabel.so from /repo/la/src/cflabel.pyx (or .c); its path."""
    d = os.path.join(scratch, name)
    os.makedirs(d)
    src = os.path.join(REPO, 'la', 'src', 'cflabel.' + source)
    cfile = os.path.join(d, 'cflabel.c')
    log = open(os.path.join(d, 'log'), 'w')
    if source == 'pyx':
        shutil.copy(src, os.path.join(d, 'cflabel.pyx'))
        subprocess.check_call([sys.executable, '-m', 'cython', 'cflabel.pyx',
                               '-o', 'cflabel.c'], cwd=d, stdout=log,
                              stderr=log)
    else:
        shutil.copy(src, cfile)
    so = os.path.join(d, 'cflabel.so')
    inc = os.environ.get('C_INCLUDE_PATH', '').split(':')
    cmd = [cc, '-shared', '-fPIC', '-fno-strict-aliasing', '-fwrapv', '-O1',
           '-w'] + list(cflags)
    cmd += ['-I' + i for i in inc if i]
    cmd += ['cflabel.c', '-o', so] + list(ldflags)
    subprocess.check_call(cmd, cwd=d, stdout=log, stderr=log)
    return so
