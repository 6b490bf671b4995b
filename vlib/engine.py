"""Runs TLC on the specifications, builds the conformance driver against /repo, replays the behaviours."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('PSD_REPO', '/repo')   # development only: planted bugs are tried in scratch copies
JAVA = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss256m']
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GO = '/opt/veriftools/go1.27.3/bin/go'


class Broken(Exception):
    pass


class Job:
    """One TLC run: a module, a base cfg, constants to override and, for simulation, how many behaviours."""

    def __init__(self, module, cfg, consts=None, sim=None, depth=200, shards=1, cases=True, workers=1, heap='3g',
                 expect=None, args=(), race=False, driver=None, platform=None, prop=None):
        self.module, self.cfg, self.consts, self.sim, self.depth = module, cfg, consts or {}, sim, depth
        self.race, self.driver = race, driver
        self.platform = platform        # None: this machine; '386', 'wasm' (run by node), 'script' (GopherJS's half in JavaScript)
        self.prop = prop                # the property whose comparison the driver makes, if not the check's own
        self.shards, self.cases, self.workers, self.heap, self.args = shards, cases, workers, heap, list(args)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0')
    e.setdefault('HOME', '/root')
    e.setdefault('GOPATH', '/root/go')
    e['PATH'] = os.path.dirname(GO) + ':' + e.get('PATH', '/usr/bin:/bin')
    return e


WASM = [os.path.join(os.path.dirname(os.path.dirname(GO)), 'lib', 'wasm', 'wasm_exec_node.js')]


def build(driver, scratch, race=False, pkg=None, platform=None):
    mod = open(os.path.join(VERIF, 'harness', 'go.mod')).read()
    mod = mod.replace('=> /repo', '=> ' + REPO).replace('=> ../stubs', '=> ' + os.path.join(VERIF, 'stubs'))
    tag = ('-race' if race else '') + ('-' + platform if platform else '')
    # /repo has no committed go.mod: the build supplies one.  It may be absent here.
    over = {os.path.join(REPO, 'go.mod'): os.path.join(VERIF, 'harness', 'repo.mod')}
    e = env()
    if platform == '386':
        e['GOARCH'] = '386'
    elif platform == 'wasm':
        e.update(GOOS='js', GOARCH='wasm')
    elif platform == 'script':
        # what GopherJS would compile, with its js package standing in for the calls into compress.inc.js
        mod += '\nrequire github.com/gopherjs/gopherjs v0.0.0\n\nreplace github.com/gopherjs/gopherjs => %s\n' % os.path.join(VERIF, 'stubs', 'gopherjs')
        js_files(over, scratch)
    mf = os.path.join(scratch, 'build%s.mod' % tag)
    open(mf, 'w').write(mod)
    shutil.copy(os.path.join(VERIF, 'harness', 'go.sum'), mf[:-4] + '.sum')
    ov = os.path.join(scratch, 'overlay%s.json' % tag)
    json.dump({'Replace': over}, open(ov, 'w'))
    out = os.path.join(scratch, driver + tag)
    if race:
        e['CGO_ENABLED'] = '1'
    r = subprocess.run([GO, 'build', '-trimpath', '-modfile', mf, '-overlay', ov] + (['-race'] if race else []) + ['-o', out, pkg or './cmd/' + driver],
                       cwd=os.path.join(VERIF, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('cannot build %s:\n%s' % (driver, r.stdout[-4000:]))
    return out


def js_files(over, scratch):
    """selects the files of package psd as for GOOS=js with an architecture other than wasm"""
    for n in sorted(os.listdir(REPO)):
        if not n.endswith('.go') or n.endswith('_test.go'):
            continue
        p = os.path.join(REPO, n)
        text = open(p).read()
        m = re.search(r'(?m)^//go:build (.*)$', text.split('\npackage ')[0])
        name = n[:-3].split('_')[1:]
        other = [x for x in name if x in ('wasm', 'linux', 'windows', 'darwin', 'amd64', 'arm64', '386')]
        ok = not other
        if m and ok:
            x = re.sub(r'\w+(\.\d+)?', lambda t: str(t.group(0) in ('js', 'ecmascript', 'gopherjs', 'go1') or t.group(0).startswith('go1.')), m.group(1))
            ok = eval(x.replace('!', ' not ').replace('&&', ' and ').replace('||', ' or '), {'__builtins__': {}})
        special = 'js' in name or m
        if not special:
            continue
        over[p] = ''
        if ok:
            q = os.path.join(scratch, 'js-' + n)
            open(q, 'w').write(re.sub(r'(?m)^//go:build .*$|^// \+build .*$', '//', text))
            over[os.path.join(REPO, n[:-3].replace('_', '') + 'picked.go')] = q


def make_cfg(job, scratch, name):
    text = open(os.path.join(VERIF, 'spec', job.cfg)).read()
    for k, v in job.consts.items():
        text, n = re.subn(r'(?m)^(.*\b%s\s*=\s*).*$' % re.escape(k), lambda m: m.group(1) + v, text)
        if n != 1:
            raise Broken('constant %s not found once in %s' % (k, job.cfg))
    p = os.path.join(scratch, name + '.cfg')
    open(p, 'w').write(text)
    return p


procs = set()
plock = threading.Lock()


def run_tlc(job, shard, seed, scratch, specdir):
    name = '%s-%d-%s' % (job.module, shard, hashlib.md5(json.dumps([job.cfg, job.consts, job.sim] + ([job.platform, job.prop] if job.platform else [])).encode()).hexdigest()[:6])
    cfg = make_cfg(job, scratch, name)
    meta = os.path.join(scratch, 'meta-' + name)
    cmd = JAVA + ['-Djava.io.tmpdir=' + scratch, '-Xmx' + job.heap, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(job.workers), '-config', cfg]
    if job.sim:
        cmd += ['-simulate', 'num=%d' % job.sim, '-depth', str(job.depth), '-seed', str(seed * 1000 + shard + 1 + {'386': 100, 'wasm': 200, 'script': 300}.get(job.platform, 0))]
    cmd += job.args + [job.module + '.tla']
    out = os.path.join(scratch, name + '.cases')
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=specdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with plock:
        procs.add(p)
    n, tail, res = 0, [], {'states': 0, 'generated': 0, 'traces': 0}
    with open(out, 'wb') as f:
        for line in p.stdout:
            if line.startswith(b'"@@'):
                try:
                    s = json.loads(line)[2:]
                except ValueError:
                    p.kill()
                    raise Broken('unreadable behaviour from TLC (%s): %r' % (name, line[:200]))
                f.write(s.encode() + b'\n')
                n += 1
            else:
                s = line.decode('utf-8', 'replace').rstrip()
                m = re.search(r'([\d,]+) states generated(?:.*?, ([\d,]+) distinct states found)?', s)
                if m:
                    res['generated'] = int(m.group(1).replace(',', ''))
                    if m.group(2):
                        res['states'] = int(m.group(2).replace(',', ''))
                m = re.search(r'number of states generated: ([\d,]+)', s)
                if m:
                    res['generated'] = int(m.group(1).replace(',', ''))
                tail.append(s)
                if len(tail) > 400:
                    del tail[:200]
    rc = p.wait()
    with plock:
        procs.discard(p)
    shutil.rmtree(meta, ignore_errors=True)
    text = '\n'.join(tail)
    if rc != 0 or 'Error:' in text:
        keep = [l for l in tail if not l.startswith(('Semantic processing', 'Parsing', 'Linting'))]
        raise Broken('TLC failed on %s (exit %d):\n%s' % (name, rc, '\n'.join(keep[-80:])))
    if job.cases and n == 0:
        raise Broken('TLC emitted no behaviour for %s' % name)
    res.update(cases=n, path=out, job=job, shard=shard, wall=time.time() - t0, name=name)
    return res


def limit(nbytes):
    def f():
        if nbytes:
            resource.setrlimit(resource.RLIMIT_AS, (nbytes, nbytes))
    return f


def case_line(path, idx):
    with open(path, 'rb') as f:
        for i, l in enumerate(f):
            if i == idx:
                return l.decode()
    raise Broken('no case %d in %s' % (idx, path))


class Replay:
    """Runs a driver over one case file; returns violations [(idx, msg)] and counts."""

    def __init__(self, exe, prop, cases, seed, scratch, quick, mem=0, envx=None, timeout=None, tseed=None, platform=None):
        self.platform, self.timeout = platform, timeout or 600
        self.exe, self.prop, self.cases, self.seed, self.scratch = exe, prop, cases, seed, scratch
        self.quick, self.mem, self.envx, self.tseed = quick, mem, envx or {}, tseed
        self.prog = cases + '.progress'

    def once(self, frm=0, only=-1):
        cmd = [self.exe, '-prop', self.prop, '-cases', self.cases, '-progress', self.prog, '-seed', str(self.seed),
               '-from', str(frm), '-only', str(only), '-quick=%s' % ('true' if self.quick else 'false')]
        if self.tseed is not None:
            cmd += ['-tseed', str(self.tseed)]
        e = env()
        mem = self.mem
        if self.platform == 'wasm':
            # node's engine reserves far more addresses than it uses, and a loop in it cannot be interrupted from inside
            cmd = ['timeout', '-k', '5', str(self.timeout if only < 0 else 90), 'node', '--stack-size=8192'] + WASM + cmd
            e, mem = {k: e[k] for k in ('HOME', 'PATH')}, 0
        elif self.platform == 'script':
            e.update(PSD_JS_FILE=os.path.join(REPO, 'compress.inc.js'), PSD_JS_RUNNER=os.path.join(VERIF, 'stubs', 'gopherjs', 'run.js'))
            mem = 0
        e['GOTRACEBACK'] = 'all'
        e['GORACE'] = 'halt_on_error=1 exitcode=66'
        e.update(self.envx)
        errp = self.cases + '.stderr'
        with open(errp, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=e, preexec_fn=limit(mem), cwd=self.scratch)
            with plock:
                procs.add(p)
            out, _ = p.communicate()
            with plock:
                procs.discard(p)
        err = open(errp, 'rb').read().decode('utf-8', 'replace')
        viol, stat = [], {}
        for l in out.decode('utf-8', 'replace').splitlines():
            if l.startswith('VIOL '):
                _, i, m = l.split(' ', 2)
                viol.append((int(i), json.loads(m)))
            elif l.startswith('STAT '):
                stat = json.loads(l[5:])
        return p.returncode, viol, stat, err

    def run(self):
        viol, stats, frm = [], {}, 0
        for _ in range(60):
            rc, v, stat, err = self.once(frm)
            viol += v
            for k, n in stat.items():
                stats[k] = stats.get(k, 0) + n
            if rc == 0:
                break
            idx = int.from_bytes(open(self.prog, 'rb').read(8), 'little') if os.path.exists(self.prog) else 0
            if rc in (3, 98):
                raise Broken('driver failed on case %d of %s:\n%s' % (idx, self.cases, err[-4000:]))
            if rc in (97, 124):
                rc2, v2, _, err2 = self.once(0, idx)
                if rc2 in (97, 124):
                    viol.append((idx, 'the call did not return: ' + goroutines(err2)))
            elif 'out of memory' in err or 'cannot allocate memory' in err:
                stats['too_big'] = stats.get('too_big', 0) + 1     # not a modest declared size
            elif in_library(err):
                viol.append((idx, 'the process died: ' + goroutines(err)))
            else:
                raise Broken('driver died (%d) on case %d of %s:\n%s' % (rc, idx, self.cases, err[-4000:]))
            stats['cases'] = stats.get('cases', 0) + idx - frm + 1
            frm = idx + 1
            if len(viol) >= 5:
                break
        return viol, stats


def in_library(err):
    """the first goroutine dumped after a panic/fatal error is the one that failed"""
    m = re.search(r'(?s)(panic:|fatal error:|DATA RACE).*', err)
    if not m:
        return False
    g = m.group(0).split('\n\n')
    return any('github.com/oov/psd' in x for x in g[:3])


def goroutines(err):
    m = re.search(r'(panic: .*|fatal error: .*)', err)
    head = m.group(1)[:200] if m else ''
    frames = re.findall(r'(github\.com/oov/psd[^\s(]*(?:\([^)\s]*\)[^\s(]*)?)\(', err)
    seen = []
    for f in frames:
        if f not in seen:
            seen.append(f)
    return (head + ' in ' + ', '.join(seen[:4])).strip()


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def known(prop, msg, case):
    h = hashlib.sha256(case.strip().encode()).hexdigest()
    for f in findings():
        if f.get('status') == 'known' and f['property'] == prop and re.search(f['match'], msg) and f.get('case', h) == h:
            return f
    return None


def write_replay(prop, driver, idx, seed, case, msgs, quick, module, race, platform=None, as_=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((case + str(seed)).encode()).hexdigest()[:12]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    json.dump({'property': prop, 'driver': driver, 'tseed': seed * 1000003 + idx, 'module': module, 'quick': quick, 'race': race, 'platform': platform, 'as': as_,
               'messages': msgs, 'case': json.loads(case)}, open(p, 'w'))
    return p


def shorten(x, n=160):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        if len(x) > 24:
            return [shorten(v, n) for v in x[:24]] + ['... %d in all' % len(x)]
        return [shorten(v, n) for v in x]
    if isinstance(x, str) and len(x) > n:
        return x[:n] + '...'
    return x


def cleanup(*_):
    with plock:
        for p in list(procs):
            try:
                p.kill()
            except OSError:
                pass


def main(argv):
    import checks
    if not argv or argv[0] not in checks.CHECKS:
        log(__doc__)
        return 2
    prop = argv[0]
    chk = checks.CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix='psdcheck-')

    def onsig(s, f):
        cleanup()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, onsig)
    signal.signal(signal.SIGINT, onsig)
    try:
        if len(argv) >= 3 and argv[1] == '--replay':
            return replay(prop, chk, argv[2], scratch)
        return run(prop, chk, scratch)
    except Broken as e:
        log('CHECK BROKEN:', e)
        return 2
    finally:
        cleanup()
        shutil.rmtree(scratch, ignore_errors=True)


def tools(chk, scratch):
    """commands of the repository that a driver runs: environment variable -> package"""
    os.chmod(scratch, 0o711)       # they run as an unprivileged user
    return {k: build(os.path.basename(p), scratch, pkg=p) for k, p in chk.get('tools', {}).items()}


def replay(prop, chk, path, scratch):
    rp = json.load(open(path))
    exe = build(rp['driver'], scratch, race=rp.get('race', False), platform=rp.get('platform'))
    envx = tools(chk, scratch)
    cases = os.path.join(scratch, 'one.cases')
    open(cases, 'w').write(json.dumps(rp['case']) + '\n')
    v, _ = Replay(exe, rp.get('as') or prop, cases, 1, scratch, rp['quick'], chk.get('mem', 0), envx, tseed=rp['tseed'], platform=rp.get('platform')).run()
    for _, m in v:
        print('  ' + m)
    if v:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('no violation on this behaviour')
    return 0


def run(prop, chk, scratch):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    quick = tier == 'quick'
    jobs = chk['jobs'](quick)
    specdir = os.path.join(scratch, 'spec')
    shutil.copytree(os.path.join(VERIF, 'spec'), specdir, ignore=shutil.ignore_patterns('states', '*_TTrace_*'))
    work = [(j, s) for j in jobs for s in range(j.shards)]
    # long shards first
    results, broken = [], []
    ncpu = max(2, os.cpu_count() or 2)
    with cf.ThreadPoolExecutor(ncpu) as ex, cf.ThreadPoolExecutor(1) as bx:
        drv = lambda j: (j.driver or chk['driver'], j.race, j.platform or '')
        bf = {d: bx.submit(build, d[0], scratch, d[1], None, d[2] or None) for d in sorted({drv(j) for j in jobs if j.cases})}
        tf = bx.submit(tools, chk, scratch)

        def shard(js):
            j, s = js
            r = run_tlc(j, s, seed, scratch, specdir)
            if j.cases:
                exe, envx = bf[drv(j)].result(), tf.result()
                r['viol'], r['stat'] = Replay(exe, j.prop or prop, r['path'], seed, scratch, quick, chk.get('mem', 0), envx, platform=j.platform).run()
                r['sample'] = shorten(json.loads(case_line(r['path'], min(1, r['cases'] - 1)))) if r['cases'] else None
                r['vcases'] = {i: case_line(r['path'], i) for i in {i for i, _ in r['viol']}}
                os.unlink(r['path'])
            else:
                r['viol'], r['stat'], r['vcases'], r['sample'] = [], {}, {}, None
            return r
        futs = [ex.submit(shard, w) for w in work]
        for f in cf.as_completed(futs):
            try:
                results.append(f.result())
            except Broken as e:
                broken.append(str(e))
            except cf.CancelledError:
                pass
            if sum(len(r['viol']) for r in results) >= 40 or broken:
                for g in futs:
                    g.cancel()
    order = {(id(j), s): k for k, (j, s) in enumerate(work)}
    results.sort(key=lambda r: order[(id(r['job']), r['shard'])])
    stat, viols, knowns = {}, [], {}
    for r in results:
        for k, n in r['stat'].items():
            stat[k] = stat.get(k, 0) + n
        by = {}
        for i, m in r['viol']:
            by.setdefault(i, []).append(m)
        for i, ms in sorted(by.items()):
            bad = []
            for m in ms:
                f = known(prop, m, r['vcases'][i])
                if f:
                    knowns[f['what']] = f
                else:
                    bad.append(m)
            if bad:
                viols.append((r, i, bad))
    for what in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for r, i, ms in viols[:5]:
        p = write_replay(prop, r['job'].driver or chk['driver'], i, seed, r['vcases'][i], ms, quick, r['name'], r['job'].race, r['job'].platform, r['job'].prop)
        for m in ms[:5]:
            print('  ' + m[:600])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    wall = time.time() - t0
    write_evidence(prop, chk, tier, seed, results, stat, viols, wall)
    log('%s %s: %d behaviours, %s, %d violations, %.1f s' % (prop, tier, stat.get('cases', 0), json.dumps(stat), len(viols), wall))
    if viols:
        return 1
    if broken:
        raise Broken('\n'.join(broken[:3]))
    low = chk.get('need', {})
    for k, n in low.items():
        if stat.get(k, 0) < n:
            raise Broken('only %d %s were exercised, at least %d expected' % (stat.get(k, 0), k, n))
    return 0


def write_evidence(prop, chk, tier, seed, results, stat, viols, wall):
    cov = {}
    samples = [{'module': r['job'].module, 'constants': r['job'].consts, 'behaviour': r['sample']} for r in results if r.get('sample')]
    seen, pick = set(), []
    for s in samples:
        k = (s['module'], json.dumps(s['constants']))
        if k not in seen:
            seen.add(k)
            pick.append(s)
    runs = []
    for r in results:
        runs.append({'module': r['job'].module, 'mode': 'simulate' if r['job'].sim else 'exhaustive', 'constants': r['job'].consts,
                     'shard': r['shard'], 'platform': r['job'].platform, 'states_generated': r['generated'], 'distinct_states': r['states'] or None,
                     'behaviours': r['cases'], 'wall_s': round(r['wall'], 2)})
    cov['tlc_runs'] = runs
    cov['observations'] = {k: n for k, n in sorted(stat.items()) if k not in ('cases', 'distinct')}
    cov['samples'] = pick[:4]
    # an exhaustive run reports its distinct states; a simulation has no seen-set, every visited state counts as generated
    cov['states'] = sum(r['states'] or r['generated'] for r in results)
    cov['transitions'] = sum(r['generated'] for r in results)
    cov['traces_validated_against_impl'] = stat.get('cases', 0)
    cov['evaluations'] = stat.get('cases', 0)
    cov['distinct_nontrivial'] = stat.get('distinct', 0)
    cov['rule'] = chk['rule']
    cov['exhaustive'] = bool(results) and all(not r['job'].sim for r in results)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': chk['level'], 'coverage': cov,
               'assumptions': chk.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viols)},
              open(os.path.join(d, prop + '.json'), 'w'), indent=1)
