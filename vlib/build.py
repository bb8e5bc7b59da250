"""Builds the code under test from /repo's current working tree.

The `quantas` package of /repo is mirrored (sources only) into a private
directory keyed by the content of the sources, its Cython extensions are
compiled there with the flags of the project's own setup.py, and the checks
import the package from that mirror.  /repo itself is never written to.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.environ.get('VERIF_CACHE', '/tmp/quantas-verif-build')


class BuildError(Exception):
    pass


def _sources():
    out = []
    top = os.path.join(REPO, 'quantas')
    for root, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for name in sorted(files):
            if name.endswith(('.so', '.pyc', '.c')):
                continue
            path = os.path.join(root, name)
            out.append((os.path.relpath(path, REPO), path))
    return out


def tree_hash(srcs):
    h = hashlib.sha256()
    for rel, path in srcs:
        h.update(rel.encode() + b'\0')
        with open(path, 'rb') as f:
            data = f.read()
        h.update(str(len(data)).encode() + b'\0' + data)
    return h.hexdigest()[:20]


def _compile(args):
    dest, rel = args
    mod = rel[:-4]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, '-c', 'import sys;from Cython.Compiler.Main import main;'
                        'sys.argv[0]="cython";from Cython.Compiler.Main import setuptools_main as m;m()',
                        rel], cwd=dest, env=env, capture_output=True, text=True)
    c_file = os.path.join(dest, mod + '.c')
    if r.returncode or not os.path.exists(c_file):
        raise BuildError('cython failed on %s:\n%s%s' % (rel, r.stdout[-3000:], r.stderr[-3000:]))
    so = os.path.join(dest, mod + sysconfig_suffix())
    cmd = ['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-fno-strict-aliasing', '-DNDEBUG', '-w',
           '-fopenmp', '-I' + py_include(), c_file, '-o', so, '-lm']
    r = subprocess.run(cmd, cwd=dest, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('gcc failed on %s:\n%s' % (rel, r.stderr[-3000:]))
    os.unlink(c_file)


def sysconfig_suffix():
    return sysconfig.get_config_var('EXT_SUFFIX')


def py_include():
    return sysconfig.get_paths()['include']


def build(verbose=False):
    """Return the directory to put on sys.path."""
    srcs = _sources()
    if not srcs:
        raise BuildError('no sources under ' + REPO)
    key = tree_hash(srcs)
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, key)
    lock = open(os.path.join(CACHE, key + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dest, 'OK')):
            return dest
        # keep the cache small: drop older builds that nobody holds
        _prune(keep=key)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        pyx = []
        for rel, path in srcs:
            target = os.path.join(dest, rel)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            shutil.copyfile(path, target)
            if rel.endswith('.pyx'):
                pyx.append(rel)
        with ThreadPoolExecutor(max_workers=max(1, len(pyx))) as ex:
            list(ex.map(_compile, [(dest, rel) for rel in pyx]))
        with open(os.path.join(dest, 'OK'), 'w') as f:
            f.write('ok\n')
        return dest
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _prune(keep, maximum=6):
    try:
        dirs = [d for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d)) and d != keep]
        dirs.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in dirs[:-maximum] if len(dirs) > maximum else []:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    except OSError:
        pass


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(), '%.1fs' % (time.time() - t))
