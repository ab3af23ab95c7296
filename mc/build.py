"""Builds the library from /repo's current working tree and a driver from /verif."""
import os, re, shutil, subprocess, sys, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MJS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
# the driver of C14 stands between the library and the C library's file functions
WRAP = ['fopen', 'fwrite', 'fread', 'fclose', 'fflush', 'fseek', 'ftell', 'open', 'close', 'read', 'write', 'mmap', 'fstat', 'stat', 'unlink', 'remove', 'rename', 'fopen64', 'open64', 'mmap64', 'fstat64', 'stat64']
LINK = {'c14': ['-Wl,--wrap=' + w for w in WRAP]}
# objects which are not part of the library: {driver: [(source, flags)]}
EXTRA = {'c20': [('mjs_main.c', ['-DMJS_MAIN', '-Dmain=mjs_prog_main'])]}
PROG = ['-DMJS_MAIN', '-Dmain=mjs_prog_main']
# variants which are built from other files: {(driver, variant): [(source, flags)]}, paths from the repository or absolute
def other(driver, variant):
    if driver != 'c22':
        return None
    api = VERIF + '/mc/c22_api.c'
    if variant == 'src':
        return [('src/' + x, incs()) for x in sources()] + [('src/mjs_main.c', PROG + incs()), (api, incs())]
    d = gen_dir() if variant.startswith('gen') else REPO
    i = ['-I' + d]
    if variant in ('amal', 'gen'):
        return [(d + '/mjs.c', PROG + i), (api, ['-DAPI_AMAL'] + i)]
    i += ['-I' + REPO + '/src', '-I' + REPO + '/src/frozen']
    return [(d + '/mjs_no_common.c', PROG + i), (api, ['-DAPI_AMAL'] + i)] + [('src/' + x, i) for x in sources() if x.startswith(('common/', 'frozen/'))]


def gen_dir():
    return os.path.join(BUILD, 'c22', 'gen')


def generate():
    """What the rules of the repository make of src, in a copy."""
    d = gen_dir()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('src', 'tools'):
        shutil.copytree(os.path.join(REPO, x), os.path.join(d, x), symlinks=True)
    shutil.copy(os.path.join(REPO, 'Makefile'), d)
    sh(['make', '-s', '-B', '-C', d, 'mjs.h', 'mjs.c', 'mjs_no_common.c'])
    return all(open(os.path.join(d, x), 'rb').read() == open(os.path.join(REPO, x), 'rb').read() for x in ('mjs.h', 'mjs.c', 'mjs_no_common.c'))


DEFS = ['-D_GNU_SOURCE', '-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DCS_MMAP', '-DMJS_MODULE_LINES', '-DMJS_VERIF']


def incs():
    s = REPO + '/src'
    return ['-I' + s, '-I' + REPO, '-I' + s + '/frozen', '-I' + VERIF + '/mc']


def sources():
    t = open(REPO + '/src/mjs_sources.mk').read().replace('\\\n', ' ')
    r = []
    for name in ('COMMON_SOURCES', 'MJS_SOURCES'):
        m = re.search(r'^%s\s*[:+]?=(.*)$' % name, t, re.M)
        if m:
            r += m.group(1).split()
    if not r:
        r = [os.path.relpath(p, REPO + '/src') for p in
             glob.glob(REPO + '/src/mjs_*.c') + glob.glob(REPO + '/src/ffi/*.c') + glob.glob(REPO + '/src/frozen/frozen.c')]
        r += ['common/cs_dbg.c', 'common/cs_file.c', 'common/cs_varint.c', 'common/mbuf.c', 'common/mg_str.c', 'common/str_util.c']
    return [x for x in r if not x.endswith('mjs_main.c')]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace'))
        raise SystemExit('build failed')


def build(driver, variants):
    """variants: {name: [flags]}; returns {name: path of the driver binary}."""
    out = os.path.join(BUILD, driver)
    os.makedirs(out, exist_ok=True)
    san = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1']
    jobs, objs = [], {}
    for v, flags in variants.items():
        objs[v] = []
        for s, more in other(driver, v) or [('src/' + s, f) for s, f in [(s, []) for s in sources()] + EXTRA.get(driver, [])]:
            o = os.path.join(out, v + '_' + s.replace('/', '_') + '.o')
            objs[v].append(o)
            jobs.append(['clang', '-O1', '-std=c99', '-w', '-c', os.path.join(REPO, s), '-o', o] + san + DEFS + flags + (more if other(driver, v) else more + incs()))
    drv = os.path.join(out, 'driver.o')
    jobs.insert(0, ['clang++', '-std=c++17', '-O2', '-g1', '-Wall', '-Wno-unused-function', '-c', VERIF + '/mc/' + driver + '.cpp', '-o', drv] + DEFS + incs())
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    bins = {}

    def link(v):
        bins[v] = os.path.join(out, 'driver_' + v)
        sh(['clang++', '-rdynamic'] + san + [drv] + objs[v] + LINK.get(driver, []) + ['-ldl', '-lm', '-lpthread', '-o', bins[v]])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, variants))
    return bins


# C24: the configurations {name: (compiler and flags, defines to leave out)}
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1']
CONFIGS = {
    'base': (['clang', '-O1'] + ASAN, []),
    'm32': (['clang', '-m32', '-O1'] + ASAN, []),
    'uchar': (['clang', '-O1', '-funsigned-char'] + ASAN, []),
    'm32gcc': (['gcc', '-m32', '-O2', '-msse2', '-mfpmath=sse', '-funsigned-char', '-DMJS_INIT_OFFSET_SIZE=4'], []),
    'gccO3': (['gcc', '-O3', '-DNDEBUG'], []),
    'O0': (['clang', '-O0', '-DMJS_INIT_OFFSET_SIZE=0'] + ASAN, []),
    'agc': (['clang', '-O1', '-DMJS_AGGRESSIVE_GC=1'] + ASAN, []),
    'stats': (['clang', '-O2', '-DMJS_MEMORY_STATS=1', '-DMJS_INIT_OFFSET_SIZE=2'] + ASAN, ['-DCS_MMAP']),
}


def runners():
    """Builds mc/c24_run.c with the library in each configuration; {name: path}."""
    out = os.path.join(BUILD, 'c24')
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], {}
    for v, (cc, less) in CONFIGS.items():
        objs[v] = []
        for s in ['src/' + x for x in sources()] + [VERIF + '/mc/c24_run.c', VERIF + '/mc/c22_api.c']:
            o = os.path.join(out, 'r_' + v + '_' + s.replace('/', '_') + '.o')
            objs[v].append(o)
            jobs.append(cc + ['-std=gnu99', '-w', '-D_FILE_OFFSET_BITS=64', '-c', os.path.join(REPO, s), '-o', o] + [x for x in DEFS if x not in less] + incs())
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
        r = {v: os.path.join(out, 'run_' + v) for v in CONFIGS}
        list(ex.map(lambda v: sh(CONFIGS[v][0] + objs[v] + ['-rdynamic', '-ldl', '-lm', '-lpthread', '-o', r[v]]), CONFIGS))
    return r


if __name__ == '__main__':
    # setup: checks that the library and a driver can be built
    build('c03', {'main': []})
    print('ok')
