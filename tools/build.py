"""Builds the simulators from /repo's working tree and /verif/sim, reusing objects whose inputs have not changed."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OUT = os.path.join(VERIF, '.build')
JOBS = os.cpu_count() or 4

COMMON = ['-DLIBSUB_VERSION="devel"', '-DLIBSUB_POSIX', '-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DBOOST_NO_CXX11_SCOPED_ENUMS',
          '-Wno-deprecated-declarations', '-w', '-g1', '-pthread', '-fno-omit-frame-pointer']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow,float-divide-by-zero,vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
LIBS = ['-lboost_filesystem', '-lboost_locale', '-lboost_regex', '-licui18n', '-licuuc', '-licudata', '-ldl', '-lpthread']

FLAVOURS = {
    # everything but threads: AddressSanitizer and UndefinedBehaviorSanitizer on both the library and the harness
    'A': {
        'repo': SAN, 'sim': SAN, 'link': SAN,
        'sources': ['main.cc', 'props.cc', 'outcome.cc', 'seam.cc', 'value.cc', 'models.cc', 'models_srt.cc', 'models_ssa.cc', 'models_stltext.cc', 'models_stlbin.cc'],
    },
    # threads: the library's memory accesses call our own scheduler and race detector
    'B': {
        'repo': ['-O1', '-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE', '-fno-builtin'],
        'sim': ['-O1', '-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE', '-DSIM_THREADS'], 'link': [],
        'sources': ['main.cc', 'props.cc', 'tsan.cc', 'outcome.cc', 'seam.cc', 'value.cc', 'models.cc', 'models_srt.cc', 'models_ssa.cc', 'models_stltext.cc', 'models_stlbin.cc'],
    },
}
WRAPS = ['-Wl,--wrap=fopen64', '-Wl,--wrap=fopen']
WRAPS_B = ['-Wl,--wrap=' + n for n in ('memcpy memmove memset memcmp memchr strlen strcpy strncpy strcat strcmp strncmp atoi fgets fread vsnprintf snprintf sprintf strtok '
                                       'setlocale localtime gmtime asctime ctime chdir umask setenv unsetenv getenv').split()]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:24]


def repo_sources():
    s = [p for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))) if os.path.basename(p) != 'version.cc']
    # a file that the repository's own build does not name is not part of the library
    try:
        named = read(os.path.join(REPO, 'src', 'wscript')).decode('utf-8', 'replace')
        s = [p for p in s if os.path.basename(p) in named.split()] or s
    except OSError:
        pass
    return s


class BuildError(Exception):
    pass


def compile_one(cmd, obj):
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode('utf-8', 'replace')[-4000:])
    os.replace(tmp, obj)


def build(flavour):
    """@return path of the program"""
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True)
    f = FLAVOURS[flavour]
    repo_headers = b''.join(read(p) for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(os.path.join(REPO, 'src', '*.hpp'))) if os.path.basename(p) != 'version.h')
    sim_headers = b''.join(read(p) for p in sorted(glob.glob(os.path.join(VERIF, 'sim', '*.h')) + glob.glob(os.path.join(VERIF, 'sim', '*.inc'))))
    inc = ['-I' + os.path.join(REPO, 'src')]
    jobs = []
    objs = []
    def add(src, flags, headers):
        key = digest(flavour, ' '.join(flags), headers, read(src), os.path.basename(src))
        obj = os.path.join(OUT, 'obj', key + '.o')
        objs.append(obj)
        if os.path.exists(obj):
            os.utime(obj)
        else:
            jobs.append((['g++'] + flags + ['-c', src], obj))
    for s in repo_sources():
        add(s, ['-std=c++11'] + COMMON + f['repo'] + inc, repo_headers)
    if True:
        add(os.path.join(REPO, 'tools', 'dumpsubs.cc'), ['-std=c++11', '-Dmain=dumpsubs_main'] + COMMON + f['repo'] + inc, repo_headers)
    for s in f['sources']:
        add(os.path.join(VERIF, 'sim', s), ['-std=c++17'] + COMMON + f['sim'] + inc, repo_headers + sim_headers)
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for x in [ex.submit(compile_one, *j) for j in jobs]:
                x.result()
    exe = os.path.join(OUT, 'bin', 'sim%s-%s' % (flavour, digest(*objs, *LIBS)))
    if not os.path.exists(exe):
        wraps = WRAPS + (WRAPS_B if flavour == 'B' else [])
        compile_one(['g++', '-pthread', '-rdynamic'] + f['link'] + wraps + objs + LIBS, exe)
    else:
        os.utime(exe)
    prune()
    return exe


def prune():
    now = time.time()
    for d in ('obj', 'bin'):
        for p in glob.glob(os.path.join(OUT, d, '*')):
            try:
                if now - os.stat(p).st_mtime > 6 * 3600:
                    os.unlink(p)
            except OSError:
                pass


LOCALES = {'de_DE': 'UTF-8', 'fr_FR': 'UTF-8', 'hi_IN': 'UTF-8', 'tr_TR': 'UTF-8'}


def locales():
    """@return directory with compiled locales; those that cannot be made are missing"""
    d = os.path.join(OUT, 'locales')
    os.makedirs(d, exist_ok=True)
    for n, c in LOCALES.items():
        p = os.path.join(d, n + '.UTF-8')
        if not os.path.isdir(p):
            try:
                subprocess.run(['localedef', '--no-archive', '-c', '-i', n, '-f', c, p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass
    return d


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


if __name__ == '__main__':
    with Lock():
        for fl in sys.argv[1:] or ['A', 'B']:
            print(build(fl))
        print(locales())
