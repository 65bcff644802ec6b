"""Content-addressed build of /repo's sources and the harnesses under a sanitizer.

Every object is keyed by the hash of its source, of all headers it could see and
of the command line, so a changed working tree is always rebuilt and an unchanged
one never is. Output goes to /verif/build (git-ignored)."""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

DEFS = ['-DENABLE_CURL', '-DENABLE_XML', '-DENABLE_YAML', '-DHAVE_LONG_LONG=1']
FLAVORS = {
    'asan': dict(cc='clang', cxx='clang++',
                 flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                        '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']),
    'tsan': dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread']),
    'fuzz': dict(cc='clang', cxx='clang++',
                 flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,fuzzer-no-link',
                        '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']),
    'plain': dict(cc='gcc', cxx='g++', flags=['-O2', '-g1']),
}
LIBS = ['-lxml2', '-lyaml', '-lcurl', '-lexpat', '-lpthread']


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            if '_build' in root or '.git' in root.split(os.sep):
                continue
            for fn in sorted(files):
                if fn.endswith(('.h', '.hh', '.hpp', '.inc', '.def', '.ipp', '.tcc')):
                    p = os.path.join(root, fn)
                    h.update(os.path.relpath(p, d).encode() + b'\0' + _read(p) + b'\0')
    return h.hexdigest()


def repo_sources():
    out = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, 'src'))):
        for fn in sorted(files):
            if fn.startswith('MsgPack') or fn in ('varsh.cc',):
                continue
            if fn.endswith(('.cc', '.cpp', '.cxx', '.c')):
                out.append(os.path.join(root, fn))
    for root, _, files in sorted(os.walk(os.path.join(REPO, 'lib'))):
        out += [os.path.join(root, fn) for fn in sorted(files) if fn.endswith(('.c', '.cc', '.cpp'))]
    return out


def _incs():
    inc = os.path.join(BUILD, 'include')
    return ['-I' + os.path.join(REPO, 'include'), '-I' + inc, '-I/usr/include/libxml2', '-I' + os.path.join(REPO, 'lib/json')]


def _config_h():
    """The configuration header the repository's build generates here (C++11 shared_ptr)."""
    p = os.path.join(BUILD, 'include/Variant/Config.h')
    text = _read(os.path.join(REPO, 'Config.h.in')).decode()
    out = []
    for line in text.splitlines():
        if line.startswith('#cmakedefine'):
            name = line.split()[1]
            line = '#define %s 1' % name if name == 'HAVE_CXX11_SHAREDPTR' else '/* #undef %s */' % name
        out.append(line)
    text = '\n'.join(out) + '\n'
    if not os.path.exists(p) or _read(p).decode() != text:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')[-6000:]))


def _compile(src, flavor, key, extra):
    fl = FLAVORS[flavor]
    is_c = src.endswith('.c')
    comp = fl['cc'] if is_c else fl['cxx']
    cmd = [comp] + ([] if is_c else ['-std=gnu++17']) + fl['flags'] + DEFS + _incs() + extra + ['-w']
    k = _hash(key, _read(src), ' '.join(cmd), os.path.basename(src))
    obj = os.path.join(BUILD, flavor, 'obj', '%s-%s.o' % (os.path.basename(src), k))
    if not os.path.exists(obj):
        tmp = obj + '.tmp%d' % os.getpid()
        _run(cmd + ['-c', src, '-o', tmp])
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def _prune(flavor):
    """Keep the object store small: drop objects unused for long when there are many."""
    d = os.path.join(BUILD, flavor, 'obj')
    files = [os.path.join(d, f) for f in os.listdir(d)]
    if len(files) > 400:
        files.sort(key=os.path.getmtime)
        for f in files[:len(files) - 250]:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(flavor, program, sources, link=(), cflags=(), with_varsh=False):
    """Returns the path of the linked program."""
    os.makedirs(os.path.join(BUILD, flavor, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, flavor, 'bin'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _config_h()
        repo_h = _headers_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'lib')])
        har_h = _headers_hash([os.path.join(VERIF, 'harness')]) + repo_h
        jobs = [(s, repo_h, []) for s in repo_sources()]
        for s in sources:
            p = s if os.path.isabs(s) else os.path.join(VERIF, 'harness', s)
            if p.startswith(REPO + os.sep):
                jobs.append((p, repo_h, ['-I' + os.path.join(REPO, 'src')] + list(cflags)))
            else:
                jobs.append((p, har_h, ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src')] + list(cflags)))
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda j: _compile(j[0], flavor, j[1], j[2]), jobs))
        fl = FLAVORS[flavor]
        key = _hash(' '.join(objs), ' '.join(link), ' '.join(fl['flags']))
        out = os.path.join(BUILD, flavor, 'bin', '%s-%s' % (program, key))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, flavor, 'bin', program + '-*')):
                os.unlink(old)
            tmp = out + '.tmp'
            _run([fl['cxx']] + fl['flags'] + objs + list(link) + LIBS + ['-o', tmp])
            os.rename(tmp, out)
        _prune(flavor)
        return out


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:]))
