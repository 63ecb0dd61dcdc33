"""Builds harnesses from /repo's current working tree. Objects are cached by content under build/."""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')

DEFS = ['-DRCUTILS_BUILDING_DLL', '-DRCUTILS_ENABLE_FAULT_INJECTION', '-D_GNU_SOURCE']
UBSAN = ('-fsanitize=undefined -fno-sanitize=shift-base,alignment,nonnull-attribute,returns-nonnull-attribute,'
         'pointer-overflow,vptr,null -fno-sanitize-recover=all').split()
REPO_FLAGS = {
    # memory-safety build: sequential harnesses
    'asan': ['-std=c11', '-g', '-O1', '-fno-omit-frame-pointer', '-fPIC', '-w', '-U_FORTIFY_SOURCE',
             '-fsanitize=address'] + UBSAN,
    # every memory access of the library is a scheduling point (own runtime, src/tsanrt.cpp)
    'sched': ['-std=c11', '-g', '-O1', '-fPIC', '-w', '-fsanitize=thread',
              '-fno-builtin', '-U_FORTIFY_SOURCE'],
}
CXX_FLAGS = {
    'asan': ['-std=c++17', '-g1', '-O1', '-Wall', '-Wextra', '-Wno-missing-field-initializers',
             '-Wno-unused-parameter', '-fsanitize=address'],
    'sched': ['-std=c++17', '-g1', '-O1', '-Wall', '-Wextra', '-Wno-missing-field-initializers',
              '-Wno-unused-parameter'],
}


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-8000:]))
    return p.stdout


def repo_sources():
    """The library's own source list, read from its CMakeLists.txt."""
    text = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\(\s*rcutils_sources\s+(.*?)\)', text, re.S)
    if not m:
        raise BuildError('no rcutils_sources in CMakeLists.txt')
    out = []
    for w in re.sub(r'#.*', '', m.group(1)).split():
        w = w.replace('${time_impl_c}', 'src/time_unix.c')
        if w.endswith('.c') and os.path.exists(os.path.join(REPO, w)):
            out.append(w)
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:24]


def file_bytes(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_digest():
    files = sorted(glob.glob(os.path.join(REPO, 'include', '**', '*'), recursive=True) +
                   glob.glob(os.path.join(REPO, 'src', '**', '*.h'), recursive=True) +
                   glob.glob(os.path.join(REPO, 'resource', '*')) +
                   glob.glob(os.path.join(REPO, 'rcutils', '**', '*.py'), recursive=True))
    return sha(*[x for f in files if os.path.isfile(f) for x in (f, file_bytes(f))])


def gen_headers(tag):
    d = os.path.join(BUILD, 'gen-' + tag)
    out = os.path.join(d, 'rcutils', 'logging_macros.h')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        run(['/usr/bin/python3', '-B', '-c',
             "import em,sys; em.invoke(['-o', sys.argv[1], '-D', 'rcutils_module_path=\"%s\"' % sys.argv[2], "
             "sys.argv[2] + '/resource/logging_macros.h.em'])", tmp, REPO])
        os.rename(tmp, out)
    return d


# With snapshot=True the writable data of the library (and of harness sources named *_rig*) is collected in
# the sections rcudata and rcubss, so that a harness can restore its initial state between executions.
SNAP = ['objcopy', '--rename-section', '.data=rcudata', '--rename-section', '.data.rel=rcudata',
        '--rename-section', '.data.rel.local=rcudata', '--rename-section', '.bss=rcubss']


def build(name, sources, config='asan', link=(), extra=(), repo_extra=(), exclude=(), snapshot=False):
    """Returns the path of the harness executable."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    hd = headers_digest()
    gen = gen_headers(hd)
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + gen, '-I' + os.path.join(REPO, 'src')]
    jobs = []
    objs = []
    for s in repo_sources():
        if s in exclude:
            continue
        path = os.path.join(REPO, s)
        flags = REPO_FLAGS[config] + DEFS + list(repo_extra)
        o = os.path.join(BUILD, 'obj', os.path.basename(s)[:-2] + '-' +
                         sha(s, file_bytes(path), hd, ' '.join(flags + SNAP if snapshot else flags)) + '.o')
        objs.append(o)
        jobs.append((o, ['gcc', '-c', path, '-o', '@'] + flags + inc, snapshot))
    sd = sha(*[x for f in sorted(glob.glob(os.path.join(SRC, '*.h')) + glob.glob(os.path.join(SRC, '*.hpp')) +
                                 glob.glob(os.path.join(SRC, '*.inc')))
               for x in (f, file_bytes(f))])
    for s in sources:
        path = os.path.join(SRC, s)
        isc = s.endswith('.c')
        flags = ((REPO_FLAGS[config] if isc else CXX_FLAGS[config]) + ['-D_GNU_SOURCE', '-DRCUTILS_ENABLE_FAULT_INJECTION'] +
                 list(extra))
        if s == 'tsanrt.cpp':
            flags = ['-std=c++17', '-g1', '-O2', '-Wall', '-D_GNU_SOURCE']
        o = os.path.join(BUILD, 'obj', os.path.splitext(s)[0] + '-' +
                         sha(s, file_bytes(path), hd, sd, ' '.join(flags)) + '.o')
        objs.append(o)
        jobs.append((o, ['gcc' if isc else 'g++', '-c', path, '-o', '@'] + flags + inc + ['-I' + SRC],
                     snapshot and '_rig' in s))
    # longest first
    jobs.sort(key=lambda j: 0 if j[1][0] == 'g++' else 1)

    def one(j):
        o, cmd, snap = j
        if os.path.exists(o):
            return
        tmp = o + '.%d' % os.getpid()
        run([tmp if c == '@' else c for c in cmd])
        if snap:
            run(SNAP + [tmp])
        os.rename(tmp, o)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    exe = os.path.join(BUILD, '%s-%s' % (name, sha(*objs, ' '.join(link))))
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        cmd = ['g++', '-o', tmp] + objs
        if config == 'asan':
            cmd += ['-fsanitize=address,undefined']
        run(cmd + list(link) + ['-ldl', '-lpthread'])
        os.rename(tmp, exe)
    return exe
