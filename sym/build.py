"""Compile the harness crate together with /repo's current sources to LLVM IR."""
import os, re, subprocess, glob, shutil, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYM_REPO', '/repo')
LLVM = '/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin'


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(map(str, cmd)), p.stdout[-6000:]))
    return p.stdout


def env():
    e = {}
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            e[k.decode()] = v.decode()
    e.pop('CARGO_PROFILE_DEV_DEBUG', None)
    e['CARGO_INCREMENTAL'] = '0'
    e['RUSTFLAGS'] = ('--cfg latke_verif --cfg chacha20_force_soft --cfg curve25519_dalek_backend="serial" '
                      '-C save-temps -C embed-bitcode=yes')
    return e


def work_dir():
    d = os.environ.get('SYM_WORK') or os.path.join(HERE, 'work')
    os.makedirs(d, exist_ok=True)
    return d


def build_harness(name='harness', flags=()):
    """returns (path of whole-program bitcode, path of native binary)"""
    src = os.path.join(HERE, name)
    tgt = os.path.join(work_dir(), 'target-' + name)
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock) and not os.path.exists(os.path.join(src, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(src, 'Cargo.lock'))
    for f in glob.glob(os.path.join(tgt, 'debug', 'deps', 'latke_sym*')):
        try:
            os.unlink(f)
        except OSError:
            pass
    e = env()
    e['RUSTFLAGS'] = ' '.join([e['RUSTFLAGS']] + list(flags))
    sh(['cargo', 'build', '--offline', '--target-dir', tgt], env=e, cwd=src)
    bcs = glob.glob(os.path.join(tgt, 'debug', 'deps', 'latke_sym-*.lto.input.bc'))
    if len(bcs) != 1:
        raise BuildError('expected one LTO input, found %r' % bcs)
    return bcs[0], os.path.join(tgt, 'debug', 'latke-sym')


CLANG = 'clang-18'
# functions of fips202.h the C code calls, replaced by stand-ins of the scenario crate
XOF = ['%s_inc_%s' % (k, f) for k in ('shake128', 'shake256') for f in ('init', 'absorb', 'finalize', 'squeeze', 'ctx_release')] + ['shake256', 'shake128']
PQ = os.path.join(REPO, 'pqcrypto')
AVX = ['-mavx2', '-mbmi2', '-mbmi', '-mpopcnt']


def c_units():
    """(source, flags, is part of the symbolic program)"""
    inc = ['-I', PQ + '/pqcrypto-internals/include', '-I', PQ + '/pqclean/common']
    stub = ['-D%s=stub_%s' % (f, f) for f in XOF]
    out = []
    for k in (2, 3, 5):
        d = PQ + '/pqclean/crypto_sign/dilithium%d/clean' % k
        for f in sorted(glob.glob(d + '/*.c')):
            out.append((f, inc + ['-I', d] + stub, 'd%d_clean_' % k))
    out.append((PQ + '/pqcrypto-internals/cfiles/fips202.c', inc, 'fips_'))
    return out


def build_dil():
    """the C code, natively and as bitcode, and the scenario crate linked with it"""
    d = os.path.join(work_dir(), 'cobj')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    from concurrent.futures import ThreadPoolExecutor
    bcs, objs, jobs = [], [], []
    for f, fl, pre in c_units():
        b = os.path.join(d, pre + os.path.basename(f))
        jobs.append([CLANG, '-c', '-O1', '-w'] + fl + [f, '-o', b + '.o'])
        jobs.append([CLANG, '-c', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-w'] + fl + [f, '-o', b + '.bc'])
        objs.append(b + '.o')
        bcs.append(b + '.bc')
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    lib = os.path.join(d, 'libsymc.a')
    sh([LLVM + '/llvm-ar', 'rcs', lib] + objs)
    bc, exe = build_harness('dil', ['-L', 'native=' + d, '-l', 'static=symc'])
    prog = os.path.join(d, 'prog.bc')
    sh([LLVM + '/llvm-link', '--suppress-warnings', bc] + bcs + ['-o', prog])
    return prog, exe


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, check=True)
    return dict(zip(names, p.stdout.split('\n')))


def extract(bc, scenarios, out, models, extra_roots=()):
    """whole-program bitcode -> textual IR with only what `scenarios` reach, modelled functions
    turned into declarations.  models: callable(demangled, mangled, line) -> bool"""
    roots = list(scenarios) + list(extra_roots)
    a = out + '.a.ll'
    sh([LLVM + '/opt', '--passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(roots), '-S', bc, '-o', a])
    txt = open(a).read()
    names = re.findall(r'^define [^@\n]*@("[^"]+"|[\w.$]+)\(', txt, re.M)
    dm = demangle([n.strip('"') for n in names])
    modelled = {}

    def repl(m):
        n = m.group(2).strip('"')
        d = dm[n]
        if models(d, n):
            modelled[n] = d
            hdr = m.group(0)
            i = hdr.index('@')
            # keep the prototype only
            body_at = hdr.rindex('{')
            h = hdr[:body_at]
            h = re.sub(r'^define ', 'declare ', h)
            h = re.sub(r'declare ((?:(?:internal|private|hidden|dso_local|linkonce_odr|weak_odr|weak|linkonce|available_externally|unnamed_addr|local_unnamed_addr|protected)\s+)*)', 'declare ', h)
            h = re.sub(r'\s(personality|comdat|section|align|prologue|prefix)\b.*$', '', h) if False else h
            h = re.sub(r' personality .*$', '', h.rstrip())
            h = re.sub(r' comdat(\([^)]*\))?', '', h)
            h = re.sub(r' ![\w.]+ !\d+', '', h)
            h = re.sub(r' unnamed_addr| local_unnamed_addr', '', h)
            return h + '\n'
        return m.group(0)

    txt = re.sub(r'^define [^\n]*?@("[^"]+"|[\w.$]+)\([^\n]*\{\n.*?^\}\n', lambda m: _fix(m, repl), txt, flags=re.M | re.S)
    b = out + '.b.ll'
    open(b, 'w').write(txt)
    sh([LLVM + '/opt', '-O1', '--vectorize-loops=false', '--vectorize-slp=false', '--strip-debug', '-S', b, '-o', out])
    os.unlink(a)
    os.unlink(b)
    return modelled


class _M:
    def __init__(self, hdr, name): self.h, self.n = hdr, name
    def group(self, i): return self.h if i == 0 else self.n


def _fix(m, repl):
    full = m.group(0)
    hdr = full[:full.index('\n')]
    r = repl(_M(hdr, m.group(1)))
    if r == hdr:
        return full
    return r


if __name__ == '__main__':
    t = time.time()
    bc, exe = build_harness()
    print(bc, exe, time.time() - t)
