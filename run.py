#!/usr/bin/env python3
"""Builds a property's harness from /repo's working tree and runs it.

  run.py setup                  build everything once
  run.py check ID [quick|thorough]
  run.py replay FILE            re-run a replay file
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++'
# Sanitizers: memory errors and undefined behaviour end the case. Checks that
# flag harmless idioms (null with length 0, vtable layout) are left out.
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment,nonnull-attribute,pointer-overflow',
       '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
# Memory that is never set holds large values, not zeros: see malloc_fill_byte.
BASE = ['-g1', '-O1', '-std=gnu++17', '-include', 'numeric', '-Wno-everything', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']
COV = ['-fsanitize=fuzzer-no-link']
ITKINC = ['-isystem', '/usr/include/ITK-5.3', '-isystem', '/usr/include/hdf5/serial',
          '-isystem', '/usr/include/gdcm-3.0']
ITKLIBS = ['-lITKIOMeta-5.3', '-lITKMetaIO-5.3', '-lITKIONRRD-5.3', '-lITKNrrdIO-5.3', '-lITKIOPNG-5.3',
           '-lITKIOImageBase-5.3', '-lITKTransform-5.3', '-lITKSmoothing-5.3', '-lITKCommon-5.3', '-litkdouble-conversion-5.3', '-litksys-5.3',
           '-litkvnl_algo-5.3', '-litkvnl-5.3', '-litkv3p_netlib-5.3', '-litkvcl-5.3', '-lITKVNLInstantiation-5.3']

ITK_PROPS = {'C21', 'C22', 'C23', 'C24', 'C27', 'C28', 'C30', 'C31', 'C36', 'C37'}
SYS_PROPS = {'C20'}
TSAN = 'halt_on_error=1:exitcode=99:report_signal_unsafe=0'
# the thread sanitizer instead of the others
TSAN_PROPS = {'C38'}
# calls replaced by the harness
WRAP = {'C39': ['malloc', 'XML_ParserCreate', 'XML_GetBuffer']}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() + b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def core_headers():
    return tree('FileUtilities/*.h', 'FileUtilities/*.h.in', 'FileUtilities/*.txx', 'TestingFramework/*.h',
                'TestingFramework/*.h.in', 'TestingFramework/*.txx', 'TestingFramework/*.hxx')


def core_sources():
    c = tree('FileUtilities/*.cpp', 'FileUtilities/*.cxx', 'TestingFramework/*.cpp', 'TestingFramework/*.cxx')
    return [x for x in c if not re.search(r'\bint\s+main\s*\(', open(x, errors='replace').read())]


def itk_headers():
    return tree('itktf/*.h', 'itktf/*.txx', 'itktf/*.in', 'itktf/*.hxx')


def itk_sources():
    c = tree('itktf/*.cxx', 'itktf/*.cpp')
    return [x for x in c if not re.search(r'\bint\s+main\s*\(', open(x, errors='replace').read())]


def generated(key):
    """Configured headers, in a directory of their own."""
    g = os.path.join(BUILD, 'gen2-' + key)
    if not os.path.isdir(g):
        t = tempfile.mkdtemp(dir=BUILD)
        for sub, pat in (('FileUtilities', 'FileUtilities/*.h.in'), ('TestingFramework', 'TestingFramework/*.h.in'), ('', 'itktf/*.h.in')):
            os.makedirs(os.path.join(t, sub), exist_ok=True)
            for f in tree(pat):
                s = open(f).read()
                s = re.sub(r'^#cmakedefine\s+(\w+).*$', r'/* #undef \1 */', s, flags=re.M)
                cm = os.path.join(os.path.dirname(f), 'CMakeLists.txt')
                m = re.search(r'PROJECT\s*\(\s*(\w+)', open(cm).read(), re.I) if os.path.exists(cm) else None
                s = s.replace('@PROJECT_NAME@', m.group(1) if m else 'X')
                s = re.sub(r'@(\w+)@', lambda m: 'itkdata' if m.group(1) == 'ITK_REGRESSION_DATA_BASELINE' else '.' if m.group(1).startswith('ITK_') else '0', s)
                s = re.sub(r'\$\{(\w+)\}', lambda m: '', s)
                open(os.path.join(t, sub, os.path.basename(f)[:-3]), 'w').write(s)
        try:
            os.rename(t, g)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return g


def helper():
    h = os.path.join(VERIF, 'tools/emit.c')
    return os.path.join(BUILD, 'emit-' + digest(read(h)))


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + ['-c', src, '-o', tmp])
    if r.returncode:
        return '%s\n%s' % (src, r.stdout[-6000:])
    os.rename(tmp, obj)
    return None


def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(ids)


def _build(ids):
    hdr = core_headers()
    hkey = digest([(os.path.relpath(f, REPO), read(f)) for f in hdr])
    ihdr = itk_headers()
    ihkey = digest(hkey, [(os.path.relpath(f, REPO), read(f)) for f in ihdr])
    gen = generated(ihkey)
    inc = ['-I', REPO, '-I', gen, '-I', os.path.join(gen, 'TestingFramework'), '-I', os.path.join(gen, 'FileUtilities')]
    engine = os.path.join(VERIF, 'engine')
    ekey = digest([(os.path.basename(f), read(f)) for f in sorted(glob.glob(engine + '/*.h'))])
    jobs, objs = [], {}

    def add(src, flags, key, name=None):
        k = digest(src if src.startswith(VERIF) else os.path.relpath(src, REPO), read(src), flags[:], key)
        o = os.path.join(BUILD, '%s-%s.o' % (name or os.path.basename(src).replace('.', '_'), k))
        if not any(j[1] == o for j in jobs):
            jobs.append((src, o, flags))
        return o

    core = [add(s, BASE + SAN + COV + inc, hkey) for s in core_sources()]
    eng = add(os.path.join(engine, 'pbt.cpp'), ['-g1', '-O2', '-std=gnu++17', '-fsanitize=address', '-Wno-everything'], ekey)
    need_itk = any(i in ITK_PROPS for i in ids)
    itk = []
    if need_itk:
        itk = [add(s, BASE + SAN + ['-I', os.path.join(REPO, 'itktf')] + inc + ITKINC, ihkey) for s in itk_sources()]
    links = {}
    if any(i in SYS_PROPS for i in ids):
        h = os.path.join(VERIF, 'tools/emit.c')
        o = helper()
        if not os.path.exists(o):
            r = sh(['gcc', '-O1', '-w', '-static', h, '-o', o + '.tmp'])
            if r.returncode:
                raise BuildError(r.stdout)
            os.rename(o + '.tmp', o)
        os.utime(o)
    for i in ids:
        src = os.path.join(VERIF, 'props', i.lower() + '.cpp')
        if i in TSAN_PROPS:
            ts = BASE + ['-fsanitize=thread', '-fno-omit-frame-pointer', '-I', engine] + inc
            links[i] = ([add(src, ts, digest(ekey, hkey)), add(os.path.join(engine, 'pbt.cpp'), ts, ekey)] + [add(f, ts, hkey) for f in core_sources()], [])
            continue
        fl = BASE + ['-fsanitize=address', '-fno-omit-frame-pointer', '-I', engine] + inc
        extra_o, libs = [], []
        if i in ITK_PROPS:
            fl = fl + ['-I', os.path.join(REPO, 'itktf')] + ITKINC
            extra_o = list(itk)
            libs = ITKLIBS
        if i == 'C27':
            extra_o.append(add(os.path.join(REPO, 'itktf/itktfImageCompare.cxx'), BASE + SAN + ['-Dmain=itktfImageCompare_main', '-I', os.path.join(REPO, 'itktf')] + inc + ITKINC, ihkey))
        if i in SYS_PROPS:
            extra_o.append(add(os.path.join(REPO, 'TestingFramework/tfPipeToXML.cxx'), BASE + SAN + ['-Dmain=tfPipeToXML_main'] + inc + ITKINC, hkey))
            libs = ['-litksys-5.3']
        o = add(src, fl, digest(ekey, ihkey if i in ITK_PROPS else hkey))
        links[i] = ([o, eng] + extra_o + core, libs)
    # big translation units first
    jobs.sort(key=lambda j: ('/itktf/' not in j[0], -os.path.getsize(j[0])))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError('\n'.join(errs))
    bins = {}

    def link(i):
        o, libs = links[i]
        b = os.path.join(BUILD, '%s-%s' % (i.lower(), digest(o, libs)))
        if not os.path.exists(b):
            t = b + '.tmp'
            san = ['-fsanitize=thread', '-g1'] + o if i in TSAN_PROPS else ['-fsanitize=address,undefined', '-g1'] + o + ['-Wl,-u,LLVMFuzzerRunDriver',
                    '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a']
            r = sh([CXX] + san + ['-Wl,--wrap=' + w for w in WRAP.get(i, [])] + libs +
                   ['-lexpat', '-lpthread', '-ldl', '-o', t])
            if r.returncode:
                raise BuildError(i + '\n' + r.stdout[-6000:])
            os.rename(t, b)
        os.utime(b)
        bins[i] = b
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, ids))
    # drop what has not been used for long
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    if sum(os.path.getsize(f) for f in files if os.path.isfile(f)) > 3 << 30:
        for f in sorted((f for f in files if os.path.isfile(f)), key=os.path.getmtime)[:len(files) // 2]:
            if time.time() - os.path.getmtime(f) > 1800:
                os.unlink(f)
    return bins


def known_findings():
    """id -> (property, text) of 'finding:' lines."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        b = build([pid])[pid]
    except BuildError as x:
        print('BUILD ERROR\n%s' % x)
        return 2
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='cxml-%s-' % pid)
    os.chmod(scratch, 0o755)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    part = os.path.join(scratch, 'part.json')
    kf = {k: v for k, v in known_findings().items() if v[0] == pid}
    e = dict(os.environ)
    e.update(PBT_SCRATCH=scratch, VERIF_TIER=tier, VERIF_SEED=str(seed), PBT_EVIDENCE=part, PBT_KNOWN=' '.join(kf),
             PBT_REPLAY_OUT=os.path.join(rdir, '%s-%s-%d.txt' % (pid, tier, seed)), LC_ALL='C', TZ='UTC', PBT_HELPER=helper(),
             ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2048:malloc_fill_byte=126:max_malloc_fill_size=16384:hard_rss_limit_mb=3000:'
                          'detect_stack_use_after_return=0:handle_abort=0:detect_container_overflow=%d:print_legend=0:symbolize=1' % (pid not in ITK_PROPS and pid not in SYS_PROPS),
             UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS=TSAN, PBT_TRIES='8' if pid in TSAN_PROPS else '1')
    for k, (p, text) in kf.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, text, k))
    try:
        r = subprocess.run([b], env=e, stdin=subprocess.DEVNULL)
        rc = r.returncode
        d = json.load(open(part)) if os.path.exists(part) else None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if d is None:
        print('the harness ended without a result (status %d)' % rc)
        return 2
    cov = {k: d[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples', 'nontrivial_evaluations', 'random_evaluations',
                             'coverage_guided_evaluations', 'discarded', 'known_finding_hits', 'unreproduced', 'labels', 'inconclusive')}
    cov['build_s'] = round(build_s, 1)
    out = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': d['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc == 1 else 0}
    if d['violation']:
        cov['violation'] = d['violation'][:3000]
    json.dump(out, open(ev, 'w'), indent=1)
    return rc if rc in (0, 1) else 2


def all_ids():
    return sorted(os.path.basename(f)[:-4].upper() for f in glob.glob(os.path.join(VERIF, 'props', 'c[0-9][0-9].cpp')))


def main(a):
    if a[:1] == ['setup']:
        try:
            build(all_ids())
        except BuildError as x:
            print(x)
            return 1
        return 0
    if a[:1] == ['check']:
        return check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if a[:1] == ['replay']:
        f = os.path.abspath(a[1])
        pid = read(f).decode(errors='replace').split()[1]
        b = build([pid])[pid]
        scratch = tempfile.mkdtemp(prefix='cxml-%s-' % pid)
        os.chmod(scratch, 0o755)
        try:
            return subprocess.run([b, '--replay', f], env=dict(os.environ, PBT_SCRATCH=scratch, LC_ALL='C', TZ='UTC', PBT_HELPER=helper(),
                    PBT_KNOWN=' '.join(k for k, v in known_findings().items() if v[0] == pid),
                    ASAN_OPTIONS='detect_leaks=0:exitcode=99:handle_abort=0:max_allocation_size_mb=2048:malloc_fill_byte=126:max_malloc_fill_size=16384:hard_rss_limit_mb=3000', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TSAN_OPTIONS=TSAN, PBT_TRIES='8' if pid in TSAN_PROPS else '1')).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
