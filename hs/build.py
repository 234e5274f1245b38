"""Builds the simulator library and the hush binary (from /repo's current working tree)."""
import os, subprocess, shutil, fcntl, sys, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HUSHSIM_REPO', '/repo')   # only overridden by hand, for experiments
B = os.environ.get('HUSHSIM_BUILD', os.path.join(ROOT, '.build'))
SIM = os.path.join(B, 'sim.so')
HUSH = os.path.join(B, 'target', 'debug', 'hush')

class BuildError(Exception): pass

def _env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'LD_PRELOAD', 'CARGO_BUILD_TARGET', 'FOO_HSH', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_TARGET_DIR'] = os.path.join(B, 'target')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '1'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '/usr/bin:/bin') + ':/root/.cargo/bin'
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    return e

def build(verbose=False):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(ROOT, 'sim', 'sim.cc')
        flags = ['-std=c++17', '-O2', '-fPIC', '-shared', '-static-libstdc++', '-static-libgcc', '-w', '-fvisibility=hidden', '-fno-delete-null-pointer-checks']
        h = hashlib.sha256(open(src, 'rb').read() + repr(flags).encode()).hexdigest()
        stamp = os.path.join(B, 'sim.stamp')
        if not (os.path.exists(SIM) and os.path.exists(stamp) and open(stamp).read() == h):
            tmp = SIM + '.tmp'
            r = subprocess.run(['g++'] + flags + ['-o', tmp, src, '-ldl', '-lpthread'], capture_output=True, text=True)
            if r.returncode: raise BuildError('sim.cc: ' + r.stderr[-3000:])
            os.replace(tmp, SIM)
            open(stamp, 'w').write(h)
        # src/runtime/lib is enumerated by a macro cargo does not track: always call rustc again
        fp = os.path.join(B, 'target', 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('hush-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bin', 'hush'], cwd=REPO, env=_env(), capture_output=True, text=True)
        if r.returncode: raise BuildError('hush: ' + r.stderr[-3000:])
        if verbose: sys.stderr.write(r.stderr[-300:])
    return HUSH, SIM

if __name__ == '__main__':
    print(build(True))
