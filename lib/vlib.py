"""Shared machinery: mirrors and builds /repo, runs harnesses and TLC, reports verdicts and evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(BUILD, 'src')
VENV = '/opt/vp/venv'
TLA = '/opt/veriftools/tla'
SUBPROJECTS = ('common', 'boosting', 'seco', 'testbed')
GUARD = 'MLRL_VERIF_TRACE'


class CheckError(Exception):
    """An error of the machinery itself (neither a pass nor a violation)."""


def log(*args):
    print('[%7.1f]' % (time.time() - T0), *args, file=sys.stderr, flush=True)


T0 = time.time()


def base_env():
    env = dict(os.environ)
    env['PATH'] = VENV + '/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.setdefault('CC', 'gcc')
    env.setdefault('CXX', 'g++')
    env.update(OPENBLAS_CORETYPE='Haswell', OPENBLAS_NUM_THREADS='1', OMP_WAIT_POLICY='passive',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.setdefault('OMP_NUM_THREADS', '2')
    env.pop('PYTHONPATH', None)
    return env


# ---------------------------------------------------------------------------------------------- build

def _sync():
    """Mirrors the working tree of /repo into SRC; files are only rewritten if their content differs."""
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'], check=True,
                         stdout=subprocess.PIPE).stdout
    wanted = set()
    changed = 0
    for name in out.decode().split('\0'):
        if not name or name.startswith(('doc/', 'assets/', '.github/', 'scons/')):
            continue
        src = os.path.join(REPO, name)
        if not os.path.isfile(src):
            continue
        wanted.add(name)
        dst = os.path.join(SRC, name)
        with open(src, 'rb') as f:
            data = f.read()
        try:
            with open(dst, 'rb') as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'wb') as f:
            f.write(data)
        shutil.copymode(src, dst)
        changed += 1
    listing = os.path.join(BUILD, 'files.json')
    try:
        with open(listing) as f:
            old = set(json.load(f))
    except (OSError, ValueError):
        old = set()
    for name in old - wanted:
        try:
            os.remove(os.path.join(SRC, name))
            changed += 1
        except OSError:
            pass
    with open(listing, 'w') as f:
        json.dump(sorted(wanted), f)
    return changed


def _run_build(cmd, logfile):
    with open(logfile, 'ab') as f:
        return subprocess.run(cmd, cwd=SRC, env=base_env(), stdout=f, stderr=subprocess.STDOUT).returncode


def build():
    """Builds the C++ libraries and Cython modules from the current working tree of /repo, with hooks enabled."""
    os.makedirs(SRC, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        changed = _sync()
        stamp = os.path.join(BUILD, 'stamp')
        if changed == 0 and os.path.exists(stamp):
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        logfile = os.path.join(BUILD, 'build.log')
        if os.path.exists(logfile):
            os.remove(logfile)
        for attempt in (1, 2):
            ok = True
            for lang, extra in (('cpp', ['-Dwerror=false', '-Dcommon:test_support=disabled', '-Doptimization=1',
                                         '-Dcpp_args=-D' + GUARD]), ('python', ['-Doptimization=0'])):
                bdir = lang + '/build'
                if not os.path.exists(os.path.join(SRC, bdir, 'build.ninja')):
                    shutil.rmtree(os.path.join(SRC, bdir), ignore_errors=True)
                    ok = ok and _run_build(['meson', 'setup', '--wrap-mode=nodownload'] + extra + [bdir, lang],
                                           logfile) == 0
                ok = ok and _run_build(['ninja', '-C', bdir], logfile) == 0
                ok = ok and _run_build(['meson', 'install', '--no-rebuild', '-C', bdir, '--quiet'], logfile) == 0
            if ok:
                break
            log('build failed, attempt', attempt)
            for lang in ('cpp', 'python'):
                shutil.rmtree(os.path.join(SRC, lang, 'build'), ignore_errors=True)
        if not ok:
            with open(logfile, errors='replace') as f:
                sys.stderr.write(f.read()[-4000:])
            raise CheckError('the working tree of /repo does not build')
        _link_packages()
        with open(stamp, 'w') as f:
            f.write('ok')
        log('built, %d files changed' % changed)


def _link_packages():
    """Merges the Python packages of all subprojects into a single package `mlrl`, like installing them does."""
    pkg = os.path.join(BUILD, 'py', 'mlrl')
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg)
    for s in SUBPROJECTS:
        os.symlink(os.path.relpath(os.path.join(SRC, 'python', 'subprojects', s, 'mlrl', s), pkg),
                   os.path.join(pkg, s))
    shutil.copy(os.path.join(SRC, 'python', 'subprojects', 'common', 'mlrl', '__init__.py'), pkg)


def py_env(**extra):
    env = base_env()
    env['PYTHONPATH'] = ':'.join([os.path.join(BUILD, 'py')] + [os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'lib')])
    env.update({k: str(v) for k, v in extra.items()})
    return env


def run_py(args, cwd, timeout=600, check=True, **extra):
    """Runs a harness with the Python interpreter of the repository's environment against the mirrored build."""
    p = subprocess.run([VENV + '/bin/python'] + args, cwd=cwd, env=py_env(**extra), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if check and p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-3000:])
        raise CheckError('harness %s failed with exit code %d' % (args[0], p.returncode))
    return p


# ---------------------------------------------------------------------------------------------- TLC

def compile_overrides():
    out = os.path.join(BUILD, 'classes')
    jdir = os.path.join(VERIF, 'spec', 'java')
    srcs = sorted(os.path.join(jdir, f) for f in os.listdir(jdir) if f.endswith('.java'))
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
    mark = os.path.join(out, h)
    if os.path.exists(mark):
        return out
    tmp = out + '.%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    subprocess.run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', tmp] + srcs, check=True)
    open(os.path.join(tmp, h), 'w').close()
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.output = ''
        self.rejects = []
        self.covered = {}
        self.violated = None
        self.actions = {}


def tlc(module, workdir, cfg=None, env=None, workers=8, timeout=800, heap='8g', coverage=False, extra=()):
    """Runs TLC on a module of /verif/spec. Lines printed via PrintT(<<"REJECT", ...>>) are collected."""
    classes = compile_overrides()
    spec = os.path.join(VERIF, 'spec')
    meta = os.path.join(workdir, 'tlc-' + module + '-%d' % os.getpid())
    os.makedirs(meta, exist_ok=True)
    cfg = cfg or os.path.join(spec, module + '.cfg')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp',
           ':'.join([classes, TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-lncheck', 'final', '-config', cfg]
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + [os.path.join(spec, module + '.tla')]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.output = p.stdout.decode(errors='replace')
    r.code = p.returncode
    m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', r.output)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    # PrintT may break tuples across lines
    flat = re.sub(r'\n(?=\s)', ' ', r.output)
    for m in re.finditer(r'<<\s*"REJECT",(.*?)>>\s*$', flat, re.M):
        r.rejects.append(re.sub(r'\s+', ' ', m.group(1)).strip())
    r.generated = [json.loads('[' + m.group(1).replace('<<', '[').replace('>>', ']').replace('TRUE', 'true')
                              .replace('FALSE', 'false') + ']')
                   for m in re.finditer(r'<<\s*"GEN",(.*?)>>\s*$', flat, re.M)]
    for m in re.finditer(r'<<\s*"COVER",\s*"([^"]+)",\s*(\d+)\s*>>', flat):
        r.covered[m.group(1)] = r.covered.get(m.group(1), 0) + int(m.group(2))
    m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated',
                  r.output)
    if m:
        r.violated = m.group(1) or m.group(2) or 'temporal'
    ok = 'Model checking completed. No error has been found' in r.output or \
        (p.returncode == 0 and 'Error:' not in r.output)
    r.ok = ok
    if not ok and not r.violated:
        sys.stderr.write(r.output[-6000:])
        raise CheckError('TLC failed on ' + module)
    return r


def native(name):
    """Compiles a stand-in library of /verif/harness/native."""
    src = os.path.join(VERIF, 'harness', 'native', name + '.cpp')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'native', '%s-%s.so' % (name, h))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        subprocess.run(['g++', '-O1', '-shared', '-fPIC', '-pthread', '-o', tmp, src], check=True)
        os.rename(tmp, out)
    return out


# ---------------------------------------------------------------------------------------------- reporting

def known_findings(prop):
    """Findings that are recorded in known-findings.jsonl: {"property", "status", "match", "what"}."""
    res = []
    path = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                f = json.loads(line)
                if f['property'] == prop and f.get('status') == 'known':
                    res.append(f)
    return res


def evidence(prop, level, coverage, **extra):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    e = dict(property=prop, tier=tier(), seed=seed(), level=level, coverage=coverage,
             wall_s=round(time.time() - T0, 2), **extra)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1, default=str)


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def workdir(name):
    path = os.path.join(BUILD, 'work', name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def replay_file(prop, text):
    path = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % prop)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
    return path


# ---------------------------------------------------------------------------------------------- conformance

def record(harness, wd, parts=8, timeout=600, **env):
    """Runs all parts of a harness in parallel. Returns (cases, crashes)."""
    procs = []
    for i in range(parts):
        d = os.path.join(wd, 'part%d' % i)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, 'cases.ndjson')
        logf = open(os.path.join(d, 'log'), 'wb')
        procs.append((subprocess.Popen([VENV + '/bin/python', os.path.join(VERIF, 'harness', harness), out, str(i),
                                        str(parts), str(seed()), tier()], cwd=d, env=py_env(**env), stdout=logf,
                                       stderr=subprocess.STDOUT), out, d))
    cases, crashes = [], []
    deadline = time.time() + timeout
    for p, out, d in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        if rc != 0:
            text = open(os.path.join(d, 'log'), errors='replace').read()
            cur = out + '.current'
            jid = open(cur).read() if os.path.exists(cur) else None
            if jid is None or (isinstance(rc, int) and rc > 0):
                sys.stderr.write(text[-3000:])
                raise CheckError('harness %s failed (%s)' % (harness, rc))
            crashes.append({'id': jid, 'err': 'crash %s' % rc, 'log': text[-1000:]})
        if os.path.exists(out):
            for line in open(out):
                try:
                    cases.append(json.loads(line))
                except ValueError:
                    pass
    return cases, crashes


def judge(module, cases, wd, cfg=None, workers=8, timeout=700, **env):
    """Lets TLC judge recorded cases. Returns (TlcResult, rejects) with rejects = [(id, step, what)]."""
    path = os.path.join(wd, module + '.ndjson')
    with open(path, 'w') as f:
        for c in cases:
            # A case may be explained by any of several variants of the specification
            for v in range(c.get('variants', 0)):
                f.write(json.dumps(dict(c, id='%s~%d' % (c['id'], v + 1), variant=v + 1)) + '\n')
            if not c.get('variants'):
                f.write(json.dumps(c) + '\n')
    r = tlc(module, wd, cfg=cfg, env=dict(env, CASES=path), workers=workers, timeout=timeout)
    rejects = []
    for t in r.rejects:
        m = re.match(r'"([^"]*)", (-?\d+), "([^"]*)"', t)
        if not m:
            raise CheckError('cannot parse rejection ' + t)
        rejects.append((m.group(1), int(m.group(2)), m.group(3)))
    variants = {c['id']: c['variants'] for c in cases if c.get('variants')}
    if variants:
        merged = {}
        for jid, step, what in rejects:
            merged.setdefault(jid.split('~')[0], {})[jid] = (step, what)
        rejects = [(jid,) + max(m.values()) for jid, m in merged.items() if len(m) >= variants.get(jid, 1)]
    if r.violated:
        raise CheckError('%s: sanity property %s of the model is violated' % (module, r.violated))
    return r, sorted(set(rejects))


class Check:
    """A check = a list of stages; each stage is a function returning (summary dict, rejects, cases by id)."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.stages = []
        self.models = []
        self.generators = []

    def generate(self, module, cfg, thorough_only=False):
        """Lets TLC print behaviours of a design model (<<"GEN", ...>>) that are replayed by the harnesses (env GEN)."""
        self.generators.append((module, cfg, thorough_only))
        return self

    def stage(self, name, harness, module, cfg=None, env=None, spec_env=None, parts=8, timeout=600, tlc_timeout=700,
              preload=None):
        self.stages.append(dict(name=name, harness=harness, module=module, cfg=cfg, env=env or {}, preload=preload,
                                spec_env=spec_env or {}, parts=parts, timeout=timeout, tlc_timeout=tlc_timeout))
        return self

    def model(self, module, cfg=None, timeout=600, min_distinct=1, env=None, thorough_only=False, heap='8g', extra=()):
        self.models.append(dict(module=module, cfg=cfg, timeout=timeout, min_distinct=min_distinct, env=env or {},
                                thorough_only=thorough_only, heap=heap, extra=extra))
        return self

    def _run_stage(self, st, wd):
        env = dict(st['env'])
        if st['preload']:
            env['LD_PRELOAD'] = native(st['preload'])
        if self.generators:
            env['GEN'] = self.gen_file
        cases, crashes = record(st['harness'], wd, parts=st['parts'], timeout=st['timeout'], **env)
        rejects = [(c['id'], 0, c['err']) for c in crashes]
        rejects += [(c['id'], 0, 'error: ' + c['err']) for c in cases if 'err' in c]
        good = [c for c in cases if 'err' not in c]
        r = None
        if good:
            cfg = st['cfg'] and os.path.join(VERIF, 'spec', st['cfg'])
            r, rej = judge(st['module'], good, wd, cfg=cfg, timeout=st['tlc_timeout'], **st['spec_env'])
            rejects += rej
        elif not crashes:
            raise CheckError('stage %s recorded nothing' % st['name'])
        byid = {}
        for c in cases + crashes:
            byid.setdefault(c['id'], c)
        return r, rejects, byid, good

    def run(self):
        build()
        known = known_findings(self.prop)
        hit = set()
        violations = []
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], stages={}, design_models={})
        for mo in self.models:
            if mo['thorough_only'] and tier() != 'thorough':
                continue
            wd = workdir('%s-model' % self.prop)
            cfg = mo['cfg'] and os.path.join(VERIF, 'spec', mo['cfg'])
            r = tlc(mo['module'], wd, cfg=cfg, env=mo['env'], timeout=mo['timeout'], heap=mo['heap'], extra=mo['extra'])
            if r.violated or not r.ok:
                raise CheckError('design model %s violates %s' % (mo['module'], r.violated))
            if r.distinct < mo['min_distinct']:
                raise CheckError('design model %s is vacuous (%d states)' % (mo['module'], r.distinct))
            cov['states'] += r.distinct
            cov['transitions'] += r.states
            cov['design_models'][mo['cfg'] or mo['module']] = dict(distinct=r.distinct, generated=r.states)
            log('model', mo['module'], mo['cfg'] or '', r.distinct, 'states')
        if self.generators:
            wd = workdir('%s-generate' % self.prop)
            behaviours = []
            for module, cfg, thorough_only in self.generators:
                if thorough_only and tier() != 'thorough':
                    continue
                r = tlc(module, wd, cfg=os.path.join(VERIF, 'spec', cfg))
                if r.violated or not r.ok or not r.generated:
                    raise CheckError('generating behaviours from %s failed' % module)
                behaviours += r.generated
                cov['states'] += r.distinct
                cov['transitions'] += r.states
            self.gen_file = os.path.join(wd, 'behaviours.json')
            with open(self.gen_file, 'w') as f:
                json.dump(sorted(behaviours), f)
            cov['generated_behaviours'] = len(behaviours)
            log('generated', len(behaviours), 'behaviours')
        for st in self.stages:
            wd = workdir('%s-%s' % (self.prop, st['name']))
            r, rejects, byid, good = self._run_stage(st, wd)
            fresh = []
            for rej in rejects:
                k = next((f for f in known if re.search(f['match'], '%s %s' % (rej[0], rej[2]))), None)
                if k:
                    hit.add(k['what'])
                else:
                    fresh.append(rej)
            if fresh:
                log('stage', st['name'], 'rejects', len(fresh), fresh[:5], '- confirming')
                wd2 = workdir('%s-%s-confirm' % (self.prop, st['name']))
                _, rejects2, byid2, _ = self._run_stage(st, wd2)
                again = {(a, w.split(':')[0]) for a, _, w in rejects2}
                conf = [x for x in fresh if (x[0], x[2].split(':')[0]) in again]
                if not conf and rejects2 and len({a for a, _, _ in rejects2} & {x[0] for x in fresh}):
                    conf = [x for x in fresh if x[0] in {a for a, _, _ in rejects2}]
                if conf:
                    violations.append((st['name'], conf, byid))
                else:
                    log('not confirmed by a second run; ignored', fresh[:3])
            if r:
                cov['states'] += r.distinct
                cov['transitions'] += r.states
            cov['traces_validated_against_impl'] += len(good)
            kinds = {}
            for cse in good:
                kinds[cse.get('kind', '-')] = kinds.get(cse.get('kind', '-'), 0) + 1
            cov['stages'][st['name']] = dict(cases=len(good), rejected=len(rejects), kinds=kinds)
            if good:
                cov['samples'].append(short(good[len(good) // 2]))
            log('stage', st['name'], len(good), 'cases', r.distinct if r else 0, 'states', len(rejects), 'rejects')
        evidence(self.prop, self.level, cov)
        for what in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if violations:
            lines = []
            for name, conf, byid in violations:
                for cid, step, what in conf[:20]:
                    lines.append('stage=%s case=%s step=%d verdict=%s' % (name, cid, step, what))
                cid = conf[0][0]
                lines.append(json.dumps(byid.get(cid)))
            lines.append('# replay: VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s (recorded case above)'
                         % (seed(), tier(), self.prop))
            path = replay_file(self.prop, '\n'.join(lines) + '\n')
            print('\n'.join(l[:400] for l in lines))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0


def short(case, limit=1500):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + '...'
