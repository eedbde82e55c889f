#!/usr/bin/env python3
"""Builds the library (from /repo's working tree, several configurations) and the harness.
Prints the directory of the library objects and the harness executable.
Results are cached under /verif/build, keyed by the content of everything compiled."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
B = os.environ.get('VP_BUILD', os.path.join(V, 'build'))
CC, CXX = 'clang', 'clang++'
# name: coils, din, inreg, hreg, queue, timeout, repeat (None: as configured in the repository)
CONFIGS = {
    'def': {},
    'asym': dict(COILS=37, DIN=61, INREG=11, HREG=23, QUEUE=2, TIMEOUT=50, REPEAT=1),
    'big': dict(COILS=2100, DIN=2050, INREG=130, HREG=127, QUEUE=7, TIMEOUT=20, REPEAT=2),
    'tiny': dict(COILS=1, DIN=9, INREG=2, HREG=3, QUEUE=1, TIMEOUT=5, REPEAT=0),
    'wide': dict(COILS=256, DIN=255, INREG=300, HREG=257, QUEUE=255, TIMEOUT=70000, REPEAT=255),
    # as asym, but unoptimised: interruptions may land between any two memory accesses of the source
    'o0': dict(COILS=37, DIN=61, INREG=11, HREG=23, QUEUE=2, TIMEOUT=50, REPEAT=1),
    'huge': dict(COILS=65535, DIN=65534, INREG=65533, HREG=65535, QUEUE=3, TIMEOUT=20, REPEAT=3),
}
MAC = dict(COILS='MAIN_APP_COILS_QTY', DIN='MAIN_APP_DISCRET_INPUTS_QTY', INREG='MAIN_APP_INPUT_REG_QTY', HREG='MAIN_APP_HOLDING_REG_QTY',
           QUEUE='MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS', TIMEOUT='MODBUS_MASTER_RESP_TIME_OUT_MS', REPEAT='MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR')
SAN = ['-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
LIBF = ['-std=gnu11', '-w', '-O1', '-fPIC', '-fno-sanitize=function', '-fsanitize-coverage=trace-pc-guard,trace-cmp,no-prune,trace-loads,trace-stores'] + SAN
HARF = ['-std=c++17', '-O1', '-Wall', '-Wno-unused-function'] + SAN

def srcs():
    c = sorted(glob.glob(SRC + '/**/*.c', recursive=True))
    dirs = sorted({d for d, _, _ in os.walk(SRC)})
    heads = sorted(f for e in ('h', 'inc', 'def') for f in glob.glob(SRC + '/**/*.' + e, recursive=True))
    return c, dirs, heads

def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, REPO if f.startswith(REPO) else V).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout[-6000:] + '\n')
        raise SystemExit(4)

def build_lib(out, name, c, dirs):
    d = os.path.join(out, 'o_' + name)
    os.makedirs(d, exist_ok=True)
    with open(d + '/cfg.h', 'w') as f:
        f.write('#include "modbus_config.h"\n')
        for k, v in CONFIGS[name].items():
            f.write(f'#undef {MAC[k]}\n#define {MAC[k]} {v}\n')
    with open(d + '/cfg_export.c', 'w') as f:
        f.write('#include "modbus_config.h"\nconst unsigned vp_cfg[7] = {%s};\n' % ', '.join(MAC[k] for k in ('COILS', 'DIN', 'INREG', 'HREG', 'QUEUE', 'TIMEOUT', 'REPEAT')))
    inc = ['-I' + x for x in dirs]
    objs = []
    for i, f in enumerate(c + [d + '/cfg_export.c']):
        o = f'{d}/{i}.o'
        run([CC] + LIBF + (['-O0'] if name == 'o0' else []) + inc + ['-include', d + '/cfg.h', '-c', f, '-o', o])
        objs.append(o)
    run([CC, '-shared', '-g', '-fsanitize=address,undefined', '-o', f'{out}/libmodbus_{name}.so'] + objs)
    shutil.rmtree(d)

def build_harness(out, dirs):
    hs = sorted(glob.glob(V + '/harness/*.cpp'))
    inc = ['-I' + x for x in dirs]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: run([CXX] + HARF + inc + ['-c', f, '-o', out + '/' + os.path.basename(f) + '.o']), hs))
    run([CXX, '-rdynamic', '-fsanitize=address,undefined', '-o', out + '/harness'] + [out + '/' + os.path.basename(f) + '.o' for f in hs] + ['-ldl'])
    for f in hs:
        os.unlink(out + '/' + os.path.basename(f) + '.o')

def cached(kind, key, fn):
    out = os.path.join(B, f'{kind}-{key}')
    if os.path.exists(out + '/done'):
        os.utime(out)
        return out
    tmp = out + f'.tmp{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        fn(tmp)
    except SystemExit:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    open(tmp + '/done', 'w').close()
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    old = sorted((x for x in glob.glob(B + f'/{kind}-*') if not '.tmp' in x), key=os.path.getmtime)
    for x in old[:-6]:
        shutil.rmtree(x, ignore_errors=True)
    return out

def main():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        c, dirs, heads = srcs()
        def libs(out):
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda n: build_lib(out, n, c, dirs), CONFIGS))
        me = open(os.path.abspath(__file__), 'rb').read()
        lib = cached('lib', digest(c + heads, (CONFIGS, LIBF, me)), libs)
        har = cached('har', digest(sorted(glob.glob(V + '/harness/*')) + heads, (HARF, me)), lambda out: build_harness(out, dirs))
    print(lib)
    print(har + '/harness')
main()
