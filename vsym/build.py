"""Builds /repo's crate and harness shards to LLVM IR (and to native code for replay)."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get('VSYM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VSYM_BUILD', os.path.join(VERIF, '.build'))
TOOLCHAIN = 'nightly-2023-07-30'

# name -> (target features, profile)
CONFIGS = {
    'base': ('', 'rel'),
    'dev': ('', 'dev'),
    'ssse3': ('+ssse3', 'rel'),
    'sse41': ('+sse4.1', 'rel'),
    'sse42': ('+sse4.2', 'rel'),
    'avx': ('+avx', 'rel'),
    'avx2': ('+avx2', 'rel'),
    'avx2fma': ('+avx2,+fma', 'rel'),
}


def cpu_has(cfg):
    try:
        have = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except (OSError, AttributeError):
        return False
    return all(f.strip('+').replace('.', '_') in have for f in CONFIGS[cfg][0].split(',') if f)


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO_') and k not in
         ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER')}
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def flags(cfg):
    feats, prof = CONFIGS[cfg]
    fl = ['-Zshare-generics=no', '-Cdebuginfo=0', '-Ccodegen-units=1', '-Cpanic=abort']
    on = 'yes' if prof == 'dev' else 'no'
    fl += ['-Coverflow-checks=' + on, '-Cdebug-assertions=' + on]
    if feats:
        fl.append('-Ctarget-feature=' + feats)
    return fl


def run(cmd, e, cwd, what, timeout=900):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-6000:]))
    return p.stdout


def base_crate(extra_deps=()):
    """tiny crate that only pulls in packed_simd (and examples) as path dependencies"""
    d = os.path.join(BUILD, 'basecrate' + ('-' + '-'.join(sorted(n for n, _ in extra_deps)) if extra_deps else ''))
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write('')
    t = '[package]\nname = "vsymbase"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
    t += 'packed_simd = { path = "%s", features = ["into_bits"] }\n' % REPO
    for n, p in extra_deps:
        t += '%s = { path = "%s" }\n' % (n, p)
    t += '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n'
    t += '[profile.release]\nopt-level = 3\n[workspace]\n'
    open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
    lock = os.path.join(VERIF, 'vsym', 'base.lock')
    if os.path.exists(lock) and not extra_deps:
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    return d


class Lib:
    """packed_simd compiled for one configuration"""

    def __init__(self, cfg, deps, lls, externs):
        self.cfg = cfg
        self.deps = deps
        self.lls = lls
        self.externs = externs


def build_lib(cfg, extra_deps=()):
    d = base_crate(extra_deps)
    tgt = os.path.join(BUILD, 't-%s%s' % (cfg, '-x' if extra_deps else ''))
    e = env()
    e['CARGO_TARGET_DIR'] = tgt
    e['RUSTFLAGS'] = ' '.join(flags(cfg) + ['--emit=llvm-ir'])
    deps = os.path.join(tgt, 'debug', 'deps')
    names = ['packed_simd', 'num_traits', 'libm', 'cfg_if'] + [n.replace('-', '_') for n, _ in extra_deps]
    out = run(['cargo', 'build', '--offline', '--message-format=json-render-diagnostics'], e, d,
              'building packed_simd [%s]' % cfg)
    # exact artefacts of this build
    rlibs = {}
    for l in out.splitlines():
        if l.startswith('{'):
            j = json.loads(l)
            if j.get('reason') == 'compiler-artifact' and 'lib' in ''.join(j['target']['kind']):
                n = j['target']['name'].replace('-', '_')
                for f in j['filenames']:
                    if f.endswith('.rlib'):
                        rlibs[n] = f
    if 'packed_simd' not in rlibs:
        raise BuildError('no packed_simd artefact')
    lls = []
    for n in names:
        if n in rlibs:
            s = os.path.basename(rlibs[n])[3:-5]
            ll = os.path.join(os.path.dirname(rlibs[n]), s + '.ll')
            if os.path.exists(ll):
                lls.append(ll)
    if not any('packed_simd' in os.path.basename(x) for x in lls):
        raise BuildError('no packed_simd IR')
    return Lib(cfg, deps, lls, rlibs)


PRELUDE = '''#![feature(core_intrinsics, stmt_expr_attributes)]
#![allow(internal_features, non_snake_case, unused, non_upper_case_globals, deprecated)]
#![allow(clippy::all)]
use packed_simd::*;
'''


def start_ir(lib, tag, src, externs=('packed_simd',)):
    """start rustc for one shard -> (Popen, ll path, src path)"""
    d = os.path.join(BUILD, 'sh-%s' % lib.cfg)
    os.makedirs(d, exist_ok=True)
    rs = os.path.join(d, tag + '.rs')
    ll = os.path.join(d, tag + '.ll')
    open(rs, 'w').write(src)
    if os.path.exists(ll):
        os.remove(ll)
    cmd = ['rustc', '--edition=2021', '--crate-type=lib', '--crate-name', tag, '--emit=llvm-ir=' + ll,
           '-Copt-level=0', '-L', 'dependency=' + lib.deps] + flags(lib.cfg)
    for x in externs:
        cmd += ['--extern', '%s=%s' % (x, lib.externs[x])]
    cmd.append(rs)
    p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    return p, ll, rs


def finish_ir(job):
    p, ll, rs = job
    out, _ = p.communicate(timeout=900)
    if p.returncode:
        raise BuildError('harness shard %s does not compile:\n%s' % (rs, out[-6000:]))
    return ll


def build_native(cfg, tag, src, profile, extra_deps=(), extra_features=None):
    """cdylib with the given source, real codegen -> path"""
    d = os.path.join(BUILD, 'rp-%s-%s-%s' % (tag, cfg, profile))
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write(src)
    t = '[package]\nname = "vsymreplay"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type=["cdylib"]\n[dependencies]\n'
    t += 'packed_simd = { path = "%s", features = ["into_bits"] }\n' % REPO
    for n, p in extra_deps:
        t += '%s = { path = "%s" }\n' % (n, p)
    t += '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\npanic="abort"\n'
    t += '[profile.release]\nopt-level = 3\npanic="abort"\n[workspace]\n'
    open(os.path.join(d, 'Cargo.toml'), 'w').write(t)
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'rt-%s' % cfg)
    feats = CONFIGS[cfg][0]
    if feats:
        e['RUSTFLAGS'] = '-Ctarget-feature=' + feats
    cmd = ['cargo', 'build', '--offline'] + (['--release'] if profile == 'release' else [])
    run(cmd, e, d, 'replay build [%s %s]' % (cfg, profile))
    so = os.path.join(e['CARGO_TARGET_DIR'], 'debug' if profile == 'dev' else 'release', 'libvsymreplay.so')
    dst = os.path.join(d, 'libreplay.so')
    shutil.copy(so, dst)
    return dst
