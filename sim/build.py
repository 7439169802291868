"""Builds /repo's current working tree into /verif/.build and assembles an importable package from it.

Run with any python3.  Prints nothing on success; exits 3 with cargo's output on failure.
The package is /verif/.build/pkg/pydantic_core: the repository's own .py files and the fresh shared library.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_OUT', os.path.join(VERIF, '.build'))
SO = '_pydantic_core.cpython-312-x86_64-linux-gnu.so'


def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ)
        for k in ('CI', 'RUSTFLAGS', 'PYTHON', 'PYTHONPATH', 'PYTHONHOME', 'CARGO_BUILD_TARGET', 'LD_PRELOAD'):
            env.pop(k, None)
        env.update(
            HOME='/root',
            LANG='C.UTF-8',
            LC_ALL='C.UTF-8',
            VIRTUAL_ENV='/opt/vp/venv',
            PATH='/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
            RUSTUP_TOOLCHAIN='stable',
            RUSTC_WRAPPER='',
            CARGO_NET_OFFLINE='true',
            CARGO_TERM_COLOR='never',
            CARGO_INCREMENTAL='1',
            CARGO_PROFILE_DEV_DEBUG='line-tables-only',
            CARGO_PROFILE_DEV_OPT_LEVEL='1',
            PYO3_PYTHON='/opt/vp/venv/bin/python',
            PYTHONHASHSEED='0',
            PYTHONDONTWRITEBYTECODE='1',
            CARGO_TARGET_DIR=os.path.join(OUT, 'target'),
        )
        # cargo trusts time stamps; a copy of the tree may carry old ones, so content decides
        digest = _tree_digest()
        stamp = os.path.join(OUT, 'source.sha256')
        if not os.path.exists(stamp) or open(stamp).read() != digest:
            for d in glob.glob(os.path.join(OUT, 'target', 'debug', '.fingerprint', 'pydantic-core-*')):
                shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(stamp):
                os.unlink(stamp)
        r = subprocess.run(
            ['cargo', 'build', '--offline', '--lib', '--features', 'extension-module'],
            cwd=REPO,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        if r.returncode:
            sys.stderr.write(r.stdout.decode('utf-8', 'replace')[-6000:])
            return None
        open(stamp, 'w').write(digest)
        pkg = os.path.join(OUT, 'pkg', 'pydantic_core')
        os.makedirs(pkg, exist_ok=True)
        want = set()
        for f in glob.glob(os.path.join(REPO, 'python', 'pydantic_core', '*')):
            name = os.path.basename(f)
            if name.endswith(('.py', '.pyi', '.typed')):
                want.add(name)
                _copy(f, os.path.join(pkg, name))
        _copy(os.path.join(OUT, 'target', 'debug', 'lib_pydantic_core.so'), os.path.join(pkg, SO))
        want.add(SO)
        for f in os.listdir(pkg):
            if f not in want and not f.startswith('__pycache__'):
                os.unlink(os.path.join(pkg, f))
        shim_src = os.path.join(VERIF, 'sim', 'shim', 'shim.c')
        shim = os.path.join(OUT, 'shim.so')
        tag = hashlib.sha256(open(shim_src, 'rb').read()).hexdigest()
        tagf = shim + '.tag'
        if not os.path.exists(shim) or not os.path.exists(tagf) or open(tagf).read() != tag:
            r = subprocess.run(
                ['gcc', '-O1', '-shared', '-fPIC', '-o', shim + '.tmp', shim_src, '-ldl', '-lpthread'],
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
            )
            if r.returncode:
                sys.stderr.write(r.stdout.decode('utf-8', 'replace')[-6000:])
                return None
            os.replace(shim + '.tmp', shim)
            open(tagf, 'w').write(tag)
        return os.path.join(OUT, 'pkg')


def _tree_digest():
    h = hashlib.sha256()
    roots = ['src', '.cargo', 'Cargo.toml', 'Cargo.lock', 'build.rs', 'generate_self_schema.py', 'python/pydantic_core']
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, _, names in os.walk(p):
            files += [os.path.join(d, n) for n in names if n.endswith(('.rs', '.toml', '.py', '.lock'))]
    for f in sorted(files):
        if f.endswith('self_schema.py'):
            continue
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def _copy(src, dst):
    if os.path.exists(dst):
        a, b = os.stat(src), os.stat(dst)
        if a.st_size == b.st_size and a.st_mtime_ns == b.st_mtime_ns:
            return
    shutil.copy2(src, dst + '.tmp')
    os.replace(dst + '.tmp', dst)


if __name__ == '__main__':
    sys.exit(0 if build() else 3)
