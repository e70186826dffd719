"""Builds blmath's C extension from /repo's current source into a scratch folder, and imports it from there.

When the interpreter runs with the address sanitizer preloaded (run.py does so for C28), the extension is instrumented.
"""
import glob
import importlib.util
import os
import subprocess
import sys
import tempfile

from . import env

NAME = 'blmath.numerics.linalg.cholmod'


def libasan():
    try:
        p = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True, timeout=60).stdout.strip()
    except (OSError, subprocess.SubprocessError):
        return None
    return p if os.path.isabs(p) and os.path.exists(p) else None


def asan_active():
    return 'libasan' in os.environ.get('LD_PRELOAD', '')


def build(out):
    e = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS')}
    if asan_active():
        e['CFLAGS'] = '-fsanitize=address -g -fno-omit-frame-pointer'
        e['LDFLAGS'] = '-fsanitize=address'
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--force', '--build-lib', os.path.join(out, 'lib'), '--build-temp', os.path.join(out, 'tmp')],
                       cwd=env.REPO, env=e, capture_output=True, text=True, timeout=300)
    found = glob.glob(os.path.join(out, 'lib', 'blmath', 'numerics', 'linalg', 'cholmod*.so'))
    if r.returncode or not found:
        raise RuntimeError('the extension does not build: %s' % (r.stdout + r.stderr)[-2000:])
    return found[0]


def prepare(scratch):
    """Before the workers are forked."""
    if NAME in sys.modules:
        return
    d = scratch or tempfile.mkdtemp(prefix='vf_cholmod_')
    path = build(os.path.join(d, 'cholmod'))
    import blmath.numerics.linalg as package
    spec = importlib.util.spec_from_file_location(NAME, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[NAME] = mod
    package.cholmod = mod
