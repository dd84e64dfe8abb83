#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- build the harness of one property from /repo's working tree, enumerate, report.
check.py --replay FILE          -- re-run one recorded case alone.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import fcntl, glob, hashlib, importlib.util, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)  # development only: build, evidence and replays elsewhere
BUILD = os.path.join(OUT, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
LIBROOTS = ['SEUtils', 'SEFramework', 'SEImplementation', 'SEMain', 'ModelFitting']
INC = ' '.join('-I' + p for p in [VERIF + '/kit', VERIF + '/shim', VERIF + '/checks'] + [REPO + '/' + r for r in LIBROOTS])
BASE = '-std=c++17 -w -pthread -D_GLIBCXX_ASSERTIONS -fno-strict-aliasing'
# Sources that need libraries absent here.
SKIP = re.compile(r'(Onnx|LevmarEngine|MLSegmentation|/PythonInterpreter|/ObjectInfo|/ModelFittingConfig|/PythonModule|/program/|Plugin\.cpp$)')


def sh(*a, **k):
    return subprocess.run(*a, **k)


class BuildError(Exception):
    pass


def expand(pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, p), recursive=True))
        if not g and not any(c in p for c in '*?['):
            continue  # moved: the fallback at link time finds what is missing
        out += [x for x in g if x.endswith('.cpp')]
    return sorted(dict.fromkeys(out))


# With a Python interpreter embedded these can be built too (static plugins are asked for by name).
SKIP_PYTHON = re.compile(r'(Onnx|LevmarEngine|MLSegmentation|/PythonModule|/program/|Plugin\.cpp$)')


def all_lib_sources(skip=SKIP):
    r = []
    for root in LIBROOTS:
        for d, _, fs in os.walk(os.path.join(REPO, root, 'src', 'lib')):
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith('.cpp') and not skip.search(p):
                    r.append(p)
    return sorted(r)


def objname(bdir, src, flags):
    h = hashlib.sha1((src + '\0' + flags).encode()).hexdigest()[:10]
    return os.path.join(bdir, os.path.basename(src) + '.' + h + '.o')


def build(spec, log):
    """spec: name, harness[], sources[], flags, hflags, ldflags, cc. Returns the executable."""
    bdir = os.path.join(BUILD, 'obj')
    os.makedirs(bdir, exist_ok=True)
    cc = spec.get('cc', 'g++')
    opt = spec.get('opt', '-O1')
    sflags = ' '.join([BASE, opt, INC, spec.get('flags', '')])
    hflags = ' '.join([BASE, spec.get('hopt', opt), INC, spec.get('flags', ''), spec.get('hflags', '')])
    kflags = ' '.join([BASE, '-O1', INC, spec.get('kflags', '')])
    exe = os.path.join(BUILD, spec['name'])
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)

    def attempt(extra):
        lines = ['builddir = ' + os.path.join(BUILD, 'nb-' + spec['name']),
                 'rule cxx', '  command = %s -MMD -MF $out.d $flags -c $in -o $out' % cc, '  depfile = $out.d', '  deps = gcc',
                 '  description = CXX $in',
                 'rule ar', '  command = rm -f $out && ar crs $out $in',
                 'rule link', '  command = %s -pthread $in -o $out $libs' % cc]
        objs = []
        seen = set()

        def add(src, flags):
            o = objname(bdir, src, cc + flags)
            if o not in seen:
                seen.add(o)
                lines.append('build %s: cxx %s\n  flags = %s' % (o, src, flags))
            return o
        for h in spec['harness']:
            objs.append(add(os.path.join(VERIF, 'checks', h), hflags))
        for k in spec.get('kit', ['vkmain.cpp']):
            objs.append(add(os.path.join(VERIF, 'kit', k), kflags))
        libobjs = [add(s, sflags) for s in (all_lib_sources(SKIP_PYTHON if spec.get('python') else SKIP) if spec.get('sources') == 'ALL' else expand(spec.get('sources', [])))]
        for s in expand(spec.get('whole', [])):
            objs.append(add(s, sflags))
        extra_objs = [add(s, sflags) for s in extra]
        libs = []
        if libobjs:
            a = exe + '.a'
            lines.append('build %s: ar %s' % (a, ' '.join(dict.fromkeys(libobjs))))
            libs.append(a)
        if extra_objs:
            a = exe + '.extra.a'
            lines.append('build %s: ar %s' % (a, ' '.join(dict.fromkeys(o for o in extra_objs if o not in libobjs))))
            libs.append(a)
        ld = ('-Wl,--start-group ' + ' '.join(libs) + ' -Wl,--end-group ') if libs else ''
        lines.append('build %s: link %s | %s\n  libs = %s %s' % (exe, ' '.join(objs), ' '.join(libs), ld, spec.get('ldflags', '')))
        lines.append('default ' + exe)
        nf = os.path.join(BUILD, spec['name'] + '.ninja')
        open(nf, 'w').write('\n'.join(lines) + '\n')
        return sh(['ninja', '-f', nf, '-j', str(JOBS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        p = attempt([])
        if p.returncode and 'undefined reference' in p.stdout:
            # Code moved between files: take everything that can be compiled here and let the linker choose.
            print('note: link needed sources beyond the listed ones; building all of them', file=sys.stderr)
            have = set(all_lib_sources(SKIP_PYTHON if spec.get('python') else SKIP) if spec.get('sources') == 'ALL' else expand(spec.get('sources', []))) | set(expand(spec.get('whole', [])))
            p = attempt([s for s in all_lib_sources(SKIP_PYTHON if spec.get('python') else SKIP) if s not in have])
        log.write(p.stdout)
        if p.returncode:
            raise BuildError(p.stdout[-6000:])
    finally:
        lock.close()
    return exe


def load_known():
    """known: property=<id> key=<key> <what fails> -- only these suppress; 'fixed:' lines are a record and suppress nothing."""
    k = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                k.setdefault(m.group(1), {})[m.group(2)] = {'what': m.group(3).strip()}
    return k


def run_exe(exe, args, env=None, timeout=None):
    p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         start_new_session=True)
    return p


def describe_exit(rc):
    if rc < 0:
        try:
            return 'killed by ' + signal.Signals(-rc).name
        except ValueError:
            return 'killed by signal %d' % -rc
    return 'exit status %d' % rc


def explore(prop, tier, prog, work, deadline):
    """Run all shards of one program; returns dict of raw results."""
    exe = prog['exe']
    n = prog.get('shards', JOBS)
    env = dict(os.environ)
    env.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=6000:allocator_may_return_null=0',
                'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1', 'LC_ALL': 'C'})
    env.update(prog.get('env', {}))
    procs = []
    for i in range(n):
        base = os.path.join(work, '%s.%d' % (prog['name'], i))
        for s in ('.out', '.cur', '.st', '.out2'):
            if os.path.exists(base + s):
                os.remove(base + s)
        err = open(base + '.err', 'wb')
        sd = base + '.scratch'
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        e = dict(env)
        e['TMPDIR'] = sd
        e['VK_SCRATCH'] = sd
        p = subprocess.Popen([exe, '--shard', '%d/%d' % (i, n), '--tier', tier, '--out', base + '.res', '--cur', base + '.cur',
                              '--hash', base + '.h'] + prog.get('args', []), stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e,
                             cwd=sd, start_new_session=True)
        procs.append((i, base, p, e))
    res = {'viol': [], 'stat': [], 'samples': [], 'extra': {}, 'errors': []}
    for i, base, p, e in procs:
        timed_out = False
        try:
            rc = p.wait(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
            timed_out = True
        lines = open(base + '.res', errors='replace').read().splitlines() if os.path.exists(base + '.res') else []
        done = False
        for l in lines:
            f = l.split('\t')
            if f[0] == 'VIOL':
                res['viol'].append(dict(key=f[1], suite=f[2], index=int(f[3]), msg=f[4], desc=f[5] if len(f) > 5 else '', prog=prog, kind='fail'))
            elif f[0] == 'STAT':
                res['stat'].append(dict(suite=f[1], evaluations=int(f[2]), nontrivial=int(f[3]), transitions=int(f[4]), traces=int(f[5]), wall=float(f[7])))
            elif f[0] == 'SAMPLE':
                res['samples'].append((f[1], f[2]))
            elif f[0] == 'EXTRA':
                res['extra'][f[1] + '/' + f[2]] = res['extra'].get(f[1] + '/' + f[2], 0) + int(f[3])
            elif f[0] == 'HANG':
                res['viol'].append(dict(key='hang/' + f[1], suite=f[1], index=int(f[2]), msg='does not terminate (no progress on this case, %s time)' % f[3], desc='', prog=prog, kind='crash'))
                done = True
            elif f[0] == 'DONE':
                done = True
        if not done:
            suite, idx = '?', -1
            if os.path.exists(base + '.cur'):
                b = open(base + '.cur', 'rb').read()
                idx = int.from_bytes(b[:8], 'little')
                suite = b[64 * 1:64 * 1 + 200].split(b'\0')[0].decode('ascii', 'replace')
            tail = open(base + '.err', errors='replace').read()
            tail = tail[-3000:]
            why = 'timed out' if timed_out else describe_exit(rc)
            if timed_out or idx < 0 or idx >= 2 ** 63:
                res['errors'].append('%s shard %d: %s at %s:%d\n%s' % (prog['name'], i, why, suite, idx if idx < 2 ** 63 else -1, tail))
                if not timed_out and suite != '?':
                    # died outside any case of this suite (its set-up): still deterministic, replay the whole suite
                    res['viol'].append(dict(key='crash/' + suite, suite=suite, index=-1, msg='program died: ' + why + ' | ' + ' '.join(tail.split())[-600:], desc='', prog=prog, kind='crash'))
            else:
                res['viol'].append(dict(key='crash/' + suite, suite=suite, index=idx, msg='program died: ' + why + ' | ' + ' '.join(tail.split())[-600:], desc='', prog=prog, kind='crash'))
        shutil.rmtree(base + '.scratch', ignore_errors=True)
    return res


def replay_case(exe, tier, v, work):
    """Run one case alone. True if it fails again."""
    out = os.path.join(work, 'replay.res')
    if os.path.exists(out):
        os.remove(out)
    sd = os.path.join(work, 'replay.scratch')
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    args = [exe, '--tier', tier, '--suite', v['suite'], '--out', out, '--cur', os.path.join(work, 'replay.cur'), '--limit-cpu', '80'] + v['prog'].get('args', [])
    if v['index'] >= 0:
        args += ['--only', str(v['index'])]
    env = dict(os.environ)
    env.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=6000', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1', 'LC_ALL': 'C', 'TMPDIR': sd, 'VK_SCRATCH': sd})
    env.update(v['prog'].get('env', {}))
    try:
        p = sh(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=sd, timeout=400)
        rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = -9, 'timeout'
    shutil.rmtree(sd, ignore_errors=True)
    lines = open(out, errors='replace').read().splitlines() if os.path.exists(out) else []
    keys = [l.split('\t')[1] for l in lines if l.startswith('VIOL')]
    hung = any(l.startswith('HANG') for l in lines)
    done = any(l == 'DONE' for l in lines)
    if v['kind'] == 'crash':
        return hung or not done or bool(keys), err
    return v['key'] in keys or bool(keys) or not done, err


def load_spec(prop):
    p = os.path.join(VERIF, 'checks', prop, 'spec.py')
    s = importlib.util.spec_from_file_location('spec_' + prop, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def main():
    if sys.argv[1] == '--replay':
        rep = json.load(open(sys.argv[2]))
        m = load_spec(rep['property'])
        prog = dict([p for p in m.PROGRAMS if p['name'] == rep['program']][0])
        os.makedirs(BUILD, exist_ok=True)
        prog['exe'] = build(prog, open(os.path.join(BUILD, 'replay.log'), 'w'))
        work = os.path.join(BUILD, 'replaywork')
        os.makedirs(work, exist_ok=True)
        again, err = replay_case(prog['exe'], rep['tier'], dict(suite=rep['suite'], index=rep['index'], key=rep['key'], kind=rep['kind'], prog=prog), work)
        print(err)
        print('REPRODUCED' if again else 'not reproduced')
        return 1 if again else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    m = load_spec(prop)
    budget = getattr(m, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3300)
    deadline = t0 + budget
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    work = os.path.join(BUILD, 'work-%s-%s' % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    programs = [dict(p) for p in m.PROGRAMS if tier in p.get('tiers', ['quick', 'thorough'])]
    log = open(os.path.join(work, 'build.log'), 'w')
    try:
        for p in programs:
            p['exe'] = build(p, log)
    except BuildError as e:
        print('BUILD FAILED for %s\n%s' % (prop, e))
        return 2
    tb = time.time()
    allres = []
    for p in programs:
        allres.append((p, explore(prop, tier, p, work, deadline)))
    known = load_known().get(prop, {})
    viols, seen_known, unreplayed, errors = {}, {}, [], []
    for p, r in allres:
        errors += r['errors']
        for v in r['viol']:
            if v['key'] in known:
                seen_known.setdefault(v['key'], v)
            else:
                viols.setdefault(v['key'], v)
    # replay before report
    confirmed = []
    for k, v in list(viols.items())[:12]:
        again, err = replay_case(v['prog']['exe'], tier, v, work)
        v['replayed'] = again
        mm = re.search(r'^case [^:]+:\d+: (.*)$', err, re.M)
        if mm and not v['desc']:
            v['desc'] = mm.group(1)[:1500]
        if again:
            confirmed.append(v)
        else:
            unreplayed.append(v)
    repdir = os.path.join(OUT, 'replays')
    for i, v in enumerate(confirmed):
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, program=v['prog']['name'], suite=v['suite'], index=v['index'], tier=tier, key=v['key'], kind=v['kind'],
                       message=v['msg'], case=v['desc'], how='python3 check.py --replay ' + path), open(path, 'w'), indent=1)
        print('  %s [%s:%d] %s\n    case: %s' % (v['key'], v['suite'], v['index'], v['msg'], v['desc']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for k, v in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))
    # evidence
    import array
    def union(suffix):
        s = set()
        for f in glob.glob(os.path.join(work, '*.h' + suffix)):
            a = array.array('Q')
            b = open(f, 'rb').read()
            a.frombytes(b)
            s.update(a)
            if len(s) > 8000000:
                break
        return len(s)
    suites = {}
    samples = []
    for p, r in allres:
        for s in r['stat']:
            d = suites.setdefault(s['suite'], dict(evaluations=0, nontrivial=0, transitions=0, traces=0, cpu_s=0.0))
            for a in ('evaluations', 'nontrivial', 'transitions', 'traces'):
                d[a] += s[a]
            d['cpu_s'] = round(d['cpu_s'] + s['wall'], 3)
        per = {}
        for sname, s in r['samples']:
            if per.get(sname, 0) < 2 and len(samples) < 60:
                per[sname] = per.get(sname, 0) + 1
                samples.append(sname + ': ' + s)
    extra = {}
    for p, r in allres:
        for k, n in r['extra'].items():
            extra[k] = extra.get(k, 0) + n
    ev = sum(s['evaluations'] for s in suites.values())
    level = m.LEVEL
    cov = dict(suites=suites, samples=samples, exhaustive=not errors and not confirmed)
    if extra:
        cov['counters'] = extra
    nt = union('.out')
    ns = union('.st')
    if level == 'model_checking':
        cov.update(states=ns, transitions=sum(s['transitions'] for s in suites.values()),
                   traces_validated_against_impl=sum(s['traces'] for s in suites.values()), executions=ev)
    cov.update(evaluations=ev, distinct_nontrivial=nt, rule=m.RULE)
    if hasattr(m, 'BOUNDS'):
        cov['bounds'] = m.BOUNDS.get(tier, '') if isinstance(m.BOUNDS, dict) else m.BOUNDS
    evd = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=getattr(m, 'ASSUMPTIONS', []),
               wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    ef = os.path.join(OUT, 'evidence', prop + '.json')
    json.dump(evd, open(ef, 'w'), indent=1)
    for s, d in sorted(suites.items()):
        print('  %-32s cases=%d nontrivial=%d transitions=%d traces=%d cpu=%.1fs' % (s, d['evaluations'], d['nontrivial'], d['transitions'], d['traces'], d['cpu_s']))
    print('%s %s: %d cases, %d distinct non-trivial outcomes, build %.1fs, total %.1fs' % (prop, tier, ev, nt, tb - t0, time.time() - t0))
    if confirmed:
        return 1
    if unreplayed:
        for v in unreplayed:
            print('NOT REPRODUCED %s [%s:%d] %s' % (v['key'], v['suite'], v['index'], v['msg']))
        return 2
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    if ev == 0 or any(d['evaluations'] == 0 for d in suites.values()) or (getattr(m, 'MIN_NONTRIVIAL', 2) > nt):
        print('ERROR: nothing explored')
        return 2
    shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
