"""Builds the extractor, runs it over the current tree and returns raw facts."""
import glob, hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get('IFEM_ROOT', '/repo').rstrip('/')

LLVM = '/usr/lib/llvm-18'
DEFS = ['-DDUNE_ISTL_VERSION_MAJOR=2', '-DDUNE_ISTL_VERSION_MINOR=9', '-DDUNE_ISTL_VERSION_REVISION=0',
        '-DHAS_CEREAL=1', '-DHAS_HDF5=1', '-DHAS_ISTL=1', '-DHAS_SUPERLU=1', '-DHAS_UMFPACK=1',
        '-DHAVE_NULLPTR=1', '-DHAVE_SUITESPARSE_UMFPACK=1', '-DHAVE_SUPERLU=1', '-DHAVE_UMFPACK=1',
        '-DISTL_VERSION="2.9.0"', '-DPROFILE_LEVEL=3', '-DReal=double', '-DSUPERLU_INT_TYPE=int',
        '-DSUPERLU_MIN_VERSION_4_3=1', '-DSUPERLU_MIN_VERSION_5=1', '-DSUPERLU_NTYPE=1',
        '-DSUPERLU_POST_2005_VERSION=1', '-DUSE_CBLAS=1', '-DUSE_OPENMP=1', '-DepsZ=1.0e-12', '-DNDEBUG']
SRC_DIRS = ['3rdparty/expreval', 'Apps/Utils', 'src', 'src/ASM', 'src/Eig', 'src/LinAlg', 'src/SIM', 'src/Utility']
HDR_DIRS = ['src/ASM', 'src/Eig', 'src/LinAlg', 'src/SIM', 'src/Utility', 'Apps/Utils', '3rdparty/expreval']
HDR_SKIP = ('PETSc', 'Catch2Support', 'MultiPatchModelGen')


class AnalysisError(Exception):
    """The analysis itself is broken (not a property violation)."""


def _h(b):
    return hashlib.sha256(b).hexdigest()


def _filehash(p, memo={}):
    try:
        st = os.stat(p)
        key = (p, st.st_mtime_ns, st.st_size)
        if key not in memo:
            with open(p, 'rb') as f:
                memo[key] = _h(f.read())
        return memo[key]
    except OSError:
        return 'missing'


def build_extractor():
    src = os.path.join(HERE, 'extract.cpp')
    tag = _filehash(src)[:16]
    for d in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'ifem-verif-build-%d' % os.getuid())):
        exe = os.path.join(d, 'extract-' + tag)
        if os.path.exists(exe):
            return exe
    for d in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'ifem-verif-build-%d' % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            if os.access(d, os.W_OK):
                break
        except OSError:
            continue
    exe = os.path.join(d, 'extract-' + tag)
    tmp = exe + '.%d' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError('cannot build the extractor: ' + p.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def tu_list():
    skip = set()
    with open(os.path.join(VERIF, 'cfg', 'skip_tus.txt')) as f:
        for l in f:
            l = l.split('#')[0].strip()
            if l:
                skip.add(l)
    tus = []
    for d in SRC_DIRS:
        for ext in ('*.C', '*.cpp'):
            for f in sorted(glob.glob(os.path.join(ROOT, d, ext))):
                r = os.path.relpath(f, ROOT)
                if r not in skip:
                    tus.append(r)
    return tus


def header_list():
    hs = []
    for d in HDR_DIRS:
        for f in sorted(glob.glob(os.path.join(ROOT, d, '*.h'))):
            if not any(s in os.path.basename(f) for s in HDR_SKIP):
                hs.append(f)
    return hs


def extract(only=None, verbose=False):
    """Returns a list of raw TU fact dicts. only: predicate on TU path (None = all)."""
    t0 = time.time()
    exe = build_extractor()
    work = tempfile.mkdtemp(prefix='ifem-facts-')
    try:
        gen = os.path.join(work, 'gen')
        os.makedirs(gen)
        try:
            with open(os.path.join(ROOT, 'src', 'IFEM.h.in')) as f:
                txt = f.read()
        except OSError as e:
            raise AnalysisError('src/IFEM.h.in is missing: %s' % e)
        with open(os.path.join(gen, 'IFEM.h'), 'w') as f:
            f.write(txt.replace('@IFEM_VERSION_STRING@', '0'))
        allh = os.path.join(gen, 'all_headers.C')
        with open(allh, 'w') as f:
            f.write('#include "IFEM.h"\n')
            for h in header_list():
                f.write('#include "%s"\n' % h)
        inc = ['-I' + os.path.join(HERE, 'include'), '-I' + gen] + \
              ['-I%s/%s' % (ROOT, d) for d in ('3rdparty', 'src/ASM', 'src/LinAlg', 'src/SIM', 'src/Utility', 'src/Eig',
                                               '3rdparty/autodiff', '3rdparty/expreval')] + \
              ['-isystem', '/usr/include/superlu', '-isystem', '/usr/include/hdf5/serial',
               '-isystem', '/usr/include/suitesparse', '-w']
        flags = ['-std=gnu++20', '-fopenmp'] + DEFS + inc
        flagkey = _h(json.dumps([DEFS, os.path.basename(exe)]).encode())[:16]
        cache = os.path.join(VERIF, '.cache')
        try:
            os.makedirs(cache, exist_ok=True)
            if not os.access(cache, os.W_OK):
                cache = None
        except OSError:
            cache = None
        jobs = [(f, os.path.join(ROOT, f), []) for f in tu_list() if only is None or only(f)]
        jobs.append(('<headers>', allh, ['-H']))

        def depkey(deps, name):
            s = flagkey + name
            for d in deps:
                s += d + _filehash(os.path.join(ROOT, d))
            if name == '<headers>':
                s += '\n'.join(os.path.relpath(h, ROOT) for h in header_list())
            return _h(s.encode())

        def run(job):
            name, path, extra = job
            cf = None
            if cache:
                cf = os.path.join(cache, _h((name + flagkey).encode())[:24])
                try:
                    with open(cf + '.idx') as f:
                        idx = json.load(f)
                    for deps, key in idx:
                        if depkey(deps, name) == key:
                            with open('%s.%s.json' % (cf, key[:24])) as f:
                                return json.load(f)
                except (OSError, ValueError):
                    pass
            out = os.path.join(work, _h(name.encode())[:24] + '.json')
            p = subprocess.run([exe, ROOT + '/', out] + extra + [path, '--'] + flags, capture_output=True, text=True)
            if p.returncode:
                raise AnalysisError('cannot parse %s: %s' % (name, p.stderr[:1500]))
            with open(out) as f:
                txt = f.read()
            o = json.loads(txt)
            o['tu'] = name
            if cf:
                deps = sorted(set(o['deps'] + ([name] if name[0] != '<' else [])))
                key = depkey(deps, name)
                try:
                    try:
                        with open(cf + '.idx') as f:
                            idx = json.load(f)
                    except (OSError, ValueError):
                        idx = []
                    idx = ([[deps, key]] + [e for e in idx if e[1] != key])
                    for e in idx[4:]:
                        try:
                            os.remove('%s.%s.json' % (cf, e[1][:24]))
                        except OSError:
                            pass
                    idx = idx[:4]
                    o2 = '%s.%s.json' % (cf, key[:24])
                    with open(o2 + '.t%d' % os.getpid(), 'w') as f:
                        json.dump(o, f)
                    os.rename(o2 + '.t%d' % os.getpid(), o2)
                    with open(cf + '.idx.t%d' % os.getpid(), 'w') as f:
                        json.dump(idx, f)
                    os.rename(cf + '.idx.t%d' % os.getpid(), cf + '.idx')
                except OSError:
                    pass
            os.remove(out)
            return o

        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(run, jobs))
        if verbose:
            print('extracted %d units in %.1fs' % (len(res), time.time() - t0), file=sys.stderr)
        return res
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:] == ['build']:
        print(build_extractor())
        sys.exit(0)
    r = extract(verbose=True)
    print(sum(len(x['functions']) for x in r), 'functions')
