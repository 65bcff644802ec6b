#!/usr/bin/env python3
"""Runs the check of one property: builds its programs from /repo's working tree,
runs their cases in parallel, sorts out what happened, writes the evidence file.

  vrun.py <property> quick|thorough     exit 0: held   1: violation   other: could not decide
  vrun.py --replay <file>               runs one recorded case again, verbosely
"""
import concurrent.futures, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
HDR = 8 * 8
NCOUNT = 384
COUNTER = 64
DESC = 16384
MAX_RESTARTS = 12
STALL_S = 240


class HarnessError(Exception):
    pass


def sanitizer_env():
    e = dict(os.environ)
    sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''
    common = 'symbolize=1' + (':external_symbolizer_path=' + sym if sym else '')
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=1:'
                         'strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:max_allocation_size_mb=2048:'
                         'hard_rss_limit_mb=3000:detect_odr_violation=0:quarantine_size_mb=64:' + common)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99:' + common
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:' + common
    for k in ('VERIF_ENV_A', 'VERIF_ENV_B'):
        e.pop(k, None)
    e['LC_ALL'] = 'C'
    e['TZ'] = 'UTC'
    return e


def read_stats(path):
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except OSError:
        return None
    if len(data) < HDR:
        return None
    magic, current, running, done, nhash, ncount, finished, desc_len = struct.unpack_from('<8Q', data, 0)
    if magic != 0x56484d41:
        return None
    counters = {}
    off = HDR
    for i in range(min(ncount, NCOUNT)):
        name = data[off + i * COUNTER:off + i * COUNTER + 56].split(b'\0')[0].decode('utf8', 'replace')
        counters[name] = struct.unpack_from('<Q', data, off + i * COUNTER + 56)[0]
    off += NCOUNT * COUNTER
    desc = data[off:off + min(desc_len, DESC)]
    off += DESC
    n = min(nhash, (len(data) - off) // 8)
    hashes = set(struct.unpack_from('<%dQ' % n, data, off))
    return dict(current=current, running=running, done=done, counters=counters, finished=finished,
                desc=desc.decode('utf8', 'replace'), hashes=hashes)


def crash_key(text, rc):
    """Classifies a process that ended by itself: (key, summary)."""
    top = ''
    m = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)', text)
    if m:
        kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: (.*)', text)
        if m:
            msg = re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))
            msg = re.sub(r"-?[0-9.]+(e[+-]?[0-9]+)?", 'N', msg)
            kind = 'ubsan:' + msg[:70].strip().replace(' ', '-')
        else:
            m = re.search(r'WARNING: ThreadSanitizer: ([A-Za-z -]+)', text)
            if m:
                kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
            elif 'Assertion' in text and 'failed' in text:
                kind = 'assert'
            elif 'terminate called' in text or 'libc++abi: terminating' in text:
                kind = 'terminate'
            else:
                kind = 'exit:%s' % rc
    if kind == 'asan:ABRT':
        kind = 'assert' if 'Assertion' in text else ('terminate' if 'terminate called' in text else 'abort')
    for line in text.splitlines():
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.*?) (\S+:\d+|\(.*)', line)
        if m and '/repo/' in line:
            top = re.sub(r'\(.*', '', m.group(1)).strip()
            top = re.sub(r'<.*>', '', top)
            break
    s = re.search(r'(SUMMARY: .*|Assertion.*|terminate called.*|runtime error: .*)', text)
    return kind + (':' + top if top else ''), (s.group(1) if s else 'process ended with status %s' % rc)


def is_resource(text):
    return bool(re.search(r'AddressSanitizer: (out-of-memory|allocation-size-too-big|hard rss limit)|hard rss limit exhausted|failed to allocate|'
                          r'ThreadSanitizer: out-of-memory|Cannot allocate memory', text))


class Shard(object):
    """One process's worth of cases, restarted after whatever ends it."""

    def __init__(self, prog, seed, lo, hi, tier, work, tag, extra):
        self.prog, self.seed, self.lo, self.hi, self.tier = prog, seed, lo, hi, tier
        self.work, self.tag, self.extra = work, tag, extra
        self.done = 0
        self.counters, self.hashes = {}, set()
        self.samples, self.viol, self.inconclusive = [], [], []
        self.restarts = 0

    def exec1(self, lo, hi, replay=False, factor=1, probe=None):
        """Returns (rc, stats, log entries, stderr, stalled)."""
        base = os.path.join(self.work, '%s-%d-%d' % (self.tag, lo, threading.get_ident() % 100000))
        scratch = base + '.d'
        os.makedirs(scratch, exist_ok=True)
        for suffix in ('.stats', '.log'):
            if os.path.exists(base + suffix):
                os.unlink(base + suffix)
        cmd = [self.prog, '--seed', str(self.seed), '--from', str(lo), '--to', str(hi), '--stats', base + '.stats',
               '--log', base + '.log', '--scratch', scratch, '--tier', self.tier] + self.extra
        if replay:
            cmd += ['--replay', '1']
        if probe:
            cmd += ['--probe', probe]
        stalled = False
        with open(base + '.err', 'wb') as err:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=sanitizer_env(), cwd=scratch, start_new_session=True)
            last, since = None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    try:
                        with open(base + '.stats', 'rb') as f:
                            cur = f.read(64)
                    except OSError:
                        cur = b''
                    if cur != last:
                        last, since = cur, time.time()
                    if time.time() - since > STALL_S * factor:
                        stalled = True
                        os.killpg(p.pid, 9)
                        rc = p.wait()
                        break
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        with open(base + '.err', 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0 if n < 60000 else n - 60000)
            text = f.read().decode('utf8', 'replace')
        st = read_stats(base + '.stats')
        entries = []
        try:
            with open(base + '.log', 'rb') as f:
                for line in f:
                    try:
                        entries.append(json.loads(line.decode('latin1')))
                    except ValueError:
                        pass
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        for suffix in ('.stats', '.log', '.err'):
            try:
                os.unlink(base + suffix)
            except OSError:
                pass
        return rc, st, entries, text, stalled

    def add(self, st, entries):
        if st:
            self.done += st['done']
            for k, v in st['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            self.hashes |= st['hashes']
        for e in entries:
            if 'sample' in e:
                self.samples.append(e['sample'])
            elif 'violation' in e:
                self.viol.append((e['violation'], e['case'], e['msg']))

    def run(self):
        lo = self.lo
        while lo < self.hi:
            rc, st, entries, text, stalled = self.exec1(lo, self.hi)
            self.add(st, entries)
            if rc == 0 and st and st['finished']:
                return
            if rc in (90, 91, 92, 93, 94) or st is None:
                raise HarnessError('%s ended with %s: %s' % (os.path.basename(self.prog), rc, text[-3000:]))
            case = st['current']
            desc = st['desc']
            if rc == 77 or stalled:
                # May be a slow machine: ask again, alone, with the case's full allowance.
                rc2, st2, e2, text2, stalled2 = self.exec1(case, case + 1, factor=2)
                if rc2 == 77 or stalled2:
                    self.viol.append(('hang', case, 'does not finish | ' + desc))
                else:
                    self.inconclusive.append('case %d ran out of its CPU allowance once' % case)
                    self.add(st2, e2)
                    if rc2 not in (0,):
                        k, s = crash_key(text2, rc2)
                        self.viol.append((k, case, s + ' | ' + desc + '\n' + text2[-6000:]))
            elif is_resource(text) or (rc == -9 and not stalled):
                self.inconclusive.append('case %d ran out of memory: %s' % (case, desc[:200]))
            else:
                k, s = crash_key(text, rc)
                self.viol.append((k, case, s + ' | ' + desc + '\n' + text[-6000:]))
            lo = case + 1
            self.restarts += 1
            if self.restarts > MAX_RESTARTS:
                self.inconclusive.append('stopped at case %d after %d restarts' % (lo, self.restarts))
                return


def load_known():
    """known: property=V08 key=<key> <what fails>     fixed: property=V08 <commit> <what failed>"""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def run_program(prop, spec, tier, seed, work, idx):
    prog = vbuild.build(spec.get('flavor', 'asan'), spec['name'], spec['sources'], link=spec.get('link', ()), cflags=spec.get('cflags', ()))
    n = spec['cases'][0 if tier == 'quick' else 1]
    extra = list(spec.get('args', []))
    if 'prepare' in spec:
        extra += spec['prepare'](tier, seed, n, work)
    shards_n = spec.get('shards', os.cpu_count() or 4)
    block = max(1, (n + shards_n * spec.get('split', 4) - 1) // (shards_n * spec.get('split', 4)))
    shards = [Shard(prog, seed, lo, min(n, lo + block), tier, work, '%s.%d' % (spec['name'], idx), extra) for lo in range(0, n, block)]
    probe_names = []
    if not spec.get('noprobes'):
        out = subprocess.run([prog, '--list-probes'] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sanitizer_env())
        if out.returncode != 0:
            raise HarnessError('%s --list-probes: %s' % (prog, out.stderr.decode('utf8', 'replace')[-2000:]))
        probe_names = out.stdout.decode().split()

    def one_probe(name):
        sh = Shard(prog, seed, 0, 1, tier, work, '%s.p%s' % (spec['name'], name), extra)
        rc, st, entries, text, stalled = sh.exec1(0, 1, probe=name)
        if rc in (90, 91, 92, 93, 94) or (st is None and rc == 0):
            raise HarnessError('probe %s: %s' % (name, text[-2000:]))
        sh.add(st, entries)
        if rc == 77 or stalled:
            rc, st, entries, text, stalled = sh.exec1(0, 1, probe=name, factor=2)
            if rc == 77 or stalled:
                sh.viol.append(('hang', 0, 'does not finish'))
        elif rc != 0:
            if is_resource(text):
                k, s = 'resource', 'ran out of memory'
            else:
                k, s = crash_key(text, rc)
                k = k.split(':')[0] if k.startswith(('assert', 'terminate', 'abort')) else ':'.join(k.split(':')[:2])
            sh.viol.append((k, 0, s + '\n' + text[-6000:]))
        sh.viol = [('probe:%s:%s' % (name, k), name, m) for k, _, m in sh.viol]
        return sh

    with concurrent.futures.ThreadPoolExecutor(max_workers=shards_n) as ex:
        fs = [ex.submit(s.run) for s in shards]
        ps = [ex.submit(one_probe, p) for p in probe_names]
        for f in fs:
            f.result()
        pr = [p.result() for p in ps]
    return prog, shards, pr, n


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    check = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    known = load_known()
    work = tempfile.mkdtemp(prefix='vrun-%s-' % prop, dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
    counters, hashes, samples, viol, inconclusive = {}, set(), [], [], []
    evaluations = planned = probes = 0
    per = {}
    try:
        for idx, spec in enumerate(check['programs']):
            prog, shards, pr, n = run_program(prop, spec, tier, seed, work, idx)
            planned += n
            got = []
            for s in shards:
                evaluations += s.done
                for k, v in s.counters.items():
                    k = spec['name'] + '/' + k if len(check['programs']) > 1 else k
                    counters[k] = counters.get(k, 0) + v
                hashes |= set((idx, h) for h in s.hashes)
                got += s.samples[:2]
                inconclusive += s.inconclusive
                viol += [(spec, k, c, m) for k, c, m in s.viol]
            for p in pr:
                probes += 1
                viol += [(spec, k, c, m) for k, c, m in p.viol]
            samples += got[:6]
            per[spec['name']] = sum(s.done for s in shards)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    seen_known, fresh = {}, {}
    for spec, key, case, msg in viol:
        if (prop, key) in known:
            seen_known[key] = known[(prop, key)]
        else:
            fresh.setdefault(key, []).append((spec, case, msg))
    for key, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    evidence = dict(property=prop, tier=tier, seed=seed, level=check.get('level', 'exploration'),
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=check['rule'], samples=samples[:8],
                                  observed={k: counters[k] for k in sorted(counters)}, programs=per, fixed_input_probes=probes,
                                  inconclusive_cases=len(inconclusive)),
                    assumptions=check.get('assumptions', []), violations=sum(len(v) for v in fresh.values()),
                    known_findings_seen=sorted(seen_known), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    if fresh:
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for key, items in sorted(fresh.items()):
            spec, case, msg = items[0]
            path = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, program=spec['name'], seed=seed, case=case, tier=tier, key=key, message=msg,
                               occurrences=len(items)), f, indent=1)
            print('%s: %s (%d cases, first: case %s seed %d)' % (prop, key, len(items), case, seed))
            print('    ' + msg[:1200].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for i in inconclusive[:5]:
        print('inconclusive: ' + i)
    need = check.get('require', {})
    missing = [k for k, v in need.items() if counters.get(k, 0) < v]
    if evaluations < planned * 0.9 or not hashes or missing:
        print('%s: not enough was observed to decide: %d of %d cases, %d distinct; missing %s' % (prop, evaluations, planned, len(hashes), missing))
        return 3
    print('%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1fs' % (prop, tier, seed, evaluations, len(hashes), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    spec = [s for s in CHECKS[r['property']]['programs'] if s['name'] == r['program']][0]
    prog = vbuild.build(spec.get('flavor', 'asan'), spec['name'], spec['sources'], link=spec.get('link', ()), cflags=spec.get('cflags', ()))
    work = tempfile.mkdtemp(prefix='vreplay-')
    try:
        extra = list(spec.get('args', []))
        if 'prepare' in spec:
            extra += spec['prepare'](r['tier'], r['seed'], spec['cases'][0 if r['tier'] == 'quick' else 1], work)
        sh = Shard(prog, r['seed'], 0, 1, r['tier'], work, 'replay', extra)
        if isinstance(r['case'], int):
            rc, st, entries, text, stalled = sh.exec1(r['case'], r['case'] + 1, replay=True)
        else:
            rc, st, entries, text, stalled = sh.exec1(0, 1, replay=True, probe=r['case'])
        sys.stdout.write(text)
        for e in entries:
            print(json.dumps(e))
        return 1 if rc != 0 or stalled or any('violation' in e for e in entries) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except (HarnessError, vbuild.BuildError) as e:
        print('ERROR: %s' % e)
        sys.exit(2)
