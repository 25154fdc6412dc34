"""Make `brainstorm` importable from /repo's current working tree.

An in-place .so is never trusted: the Cython extension is built from a scratch
copy of the current sources, cached by their digest under /verif/.cache, and
loaded through a meta-path finder, so nothing is written under /repo.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     '.cache')


def _sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'brainstorm')):
        for f in files:
            if f.endswith('.pyx') or f.endswith('.pxd'):
                out.append(os.path.join(root, f))
    rel = sorted(os.path.relpath(p, REPO) for p in out)
    return ['setup.py'] + rel


def _digest():
    h = hashlib.sha256()
    for p in _sources():
        with open(os.path.join(REPO, p), 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def locate_extension(log=None):
    """Path of a _cpuop .so that matches the current sources (or None)."""
    dig = _digest()
    os.makedirs(CACHE, exist_ok=True)
    cached = os.path.join(CACHE, '_cpuop-%s.so' % dig[:32])
    if os.path.exists(cached):
        return cached
    tmp = tempfile.mkdtemp(prefix='verif-ext-')
    try:
        for p in os.listdir(REPO):
            if p in ('.git', 'build', 'docs', 'data', 'examples'):
                continue
            src, dst = os.path.join(REPO, p), os.path.join(tmp, p)
            if os.path.isdir(src):
                shutil.copytree(src, dst, ignore=shutil.ignore_patterns(
                    '*.so', '*.c', '__pycache__', 'tests'))
            else:
                shutil.copy(src, dst)
        env = dict(os.environ, HOME='/root', PIP_NO_INDEX='1',
                   CFLAGS='-O1 -g0', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'],
                           cwd=tmp, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        so = glob.glob(os.path.join(tmp, 'brainstorm', 'handlers',
                                    '_cpuop.*.so'))
        if not so:
            sys.stderr.write(r.stdout.decode('utf8', 'replace')[-4000:])
            return None
        part = cached + '.%d' % os.getpid()
        shutil.copy(so[0], part)
        os.replace(part, cached)
        return cached
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def install(so_path):
    """Called in worker processes before importing brainstorm."""
    import importlib.abc
    import importlib.machinery
    import importlib.util

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path, target=None):
            if name == 'brainstorm.handlers._cpuop':
                loader = importlib.machinery.ExtensionFileLoader(name, so_path)
                return importlib.util.spec_from_file_location(
                    name, so_path, loader=loader)
            return None

    sys.meta_path.insert(0, Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
