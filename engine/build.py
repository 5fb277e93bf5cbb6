"""Builds the harness crate (and the crate under test, and std) to one LLVM IR module."""
import os, subprocess, fcntl, glob, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
TOOLCHAIN = 'stable'
TARGET = 'riscv64gc-unknown-linux-gnu'
# IR target: 64-bit little-endian, hardware doubles, no SIMD; only used to obtain IR


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Exception('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def llvm(tool):
    sr = subprocess.check_output(['rustc', '--print', 'sysroot'], env=env(), text=True).strip()
    return os.path.join(sr, 'lib/rustlib/x86_64-unknown-linux-gnu/bin', tool)


class Lock:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, self.name + '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_ir(out, entries):
    """compile /repo + harness + std to bitcode, link, keep what `entries` reach"""
    t0 = time.time()
    with Lock('ir'):
        td = os.path.join(BUILD, 'ir')
        flags = ('--cfg llsym --cfg moledyn_verif --emit=llvm-bc,link -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp '
                 '-Cpanic=abort -Coverflow-checks=on -Cdebuginfo=1 -Copt-level=2 -Cembed-bitcode=no --cap-lints=allow')
        e = env(RUSTC_BOOTSTRAP='1', RUSTFLAGS=flags, CARGO_TARGET_DIR=td, CARGO_PROFILE_RELEASE_PANIC='abort', CARGO_INCREMENTAL='0')
        sh(['cargo', 'build', '--lib', '--release', '-Zbuild-std=std,panic_abort', '--target', TARGET], cwd=HARNESS, env=e)
        deps = os.path.join(td, TARGET, 'release', 'deps')
        # newest .bc per crate
        best = {}
        for f in glob.glob(deps + '/*.bc'):
            m = re.match(r'(.*)-([0-9a-f]{16})\.bc$', os.path.basename(f))
            if not m:
                continue
            c = m.group(1)
            if c in ('proc_macro', 'gimli', 'object', 'miniz_oxide', 'addr2line', 'rustc_demangle', 'panic_unwind', 'unwind', 'adler2', 'rustc_literal_escaper', 'std_detect', 'zerocopy', 'getopts', 'test'):
                continue
            # libc / cfg_if are built twice (for std and for the crates): keep both
            key = c if c not in ('libc', 'cfg_if', 'memchr', 'hashbrown') else os.path.basename(f)
            if key not in best or os.path.getmtime(f) > os.path.getmtime(best[key]):
                best[key] = f
        bcs = sorted(best.values())
        allbc = out + '.all.bc'
        sh([llvm('llvm-link'), '-o', allbc] + bcs)
    dbc = out + '.d.bc'
    sh([llvm('opt'), '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(entries), allbc, '-o', dbc])
    sh([llvm('llvm-dis'), dbc, '-o', out])
    os.remove(allbc)
    os.remove(dbc)
    return time.time() - t0


def build_native():
    """replay binaries for the real code: dev profile and release profile"""
    with Lock('native'):
        td = os.path.join(BUILD, 'native')
        e = env(CARGO_TARGET_DIR=td, RUSTFLAGS='--cfg moledyn_verif --cap-lints=allow')
        sh(['cargo', 'build', '--bin', 'replay'], cwd=HARNESS, env=e)
        sh(['cargo', 'build', '--bin', 'replay', '--release'], cwd=HARNESS, env=e)
    return os.path.join(td, 'debug', 'replay'), os.path.join(td, 'release', 'replay')
