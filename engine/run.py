"""Check driver: compiles the harnesses of one property against /repo's current tree, executes every harness
symbolically (engine/explore.py), replays counterexamples natively, writes evidence/<property>.json."""
import sys, os, re, json, time, glob, shutil, subprocess, tempfile, threading, signal, pickle, struct, resource
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
BASE = ['-std=c++14', '-I' + HERE, '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO, '-w', '-ffp-contract=off']
NJOBS = 8
LIMITS = {'quick': dict(total=270, per=70, query_ms=3000, check_ms=8000, max_paths=2500),
          'thorough': dict(total=800, per=400, query_ms=8000, check_ms=60000, max_paths=20000)}


def sh(cmd, **kw):
    kw.setdefault('timeout', 300)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def directives(path):
    flags, libs, opts, bounds = [], [], {}, []
    for ln in open(path):
        m = re.match(r'//\s*(FLAGS|LIBS|OPTS|BOUNDS):\s*(.*)', ln)
        if m:
            k, v = m.group(1), m.group(2).strip()
            if k == 'FLAGS':
                flags += v.split()
            elif k == 'LIBS':
                libs += v.split()
            elif k == 'BOUNDS':
                bounds.append(v)
            else:
                for kv in v.split():
                    a, b = kv.split('=')
                    opts[a] = float(b)
    return flags, libs, opts, bounds


class Unit:
    """one harness file"""

    def __init__(self, path, tier, tmp):
        self.path = path
        self.text = open(path).read()
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.flags, self.libs, self.opts, self.bounds = directives(path)
        if tier == 'thorough':
            self.flags.append('-DVS_THOROUGH')
        self.tmp = tmp
        self.err = None
        self.reduced = None
        self.names = []
        self.bins = {}
        self.lock = {}

    def compile_ir(self):
        raw = os.path.join(self.tmp, self.name + '.raw.ll')
        self.ll = os.path.join(self.tmp, self.name + '.ll')
        r = sh(['clang++'] + BASE + self.flags + ['-DVS_SYM', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-S', self.path, '-o', raw])
        if r.returncode and 'VS_PLAIN' not in str(self.flags) and '#ifndef VS_PLAIN' in open(self.path).read():
            # parts with a number type of their own rely on more than the documentation promises
            self.flags = self.flags + ['-DVS_PLAIN']
            self.reduced = r.stdout
            return self.compile_ir()
        if r.returncode:
            self.err = r.stdout
            return
        self.names = re.findall(r'^define [^\n]*@(ht?_\w+)\(\)', open(raw).read(), re.M)
        r = sh(['opt', '-S', '-passes=internalize,globaldce,function(mem2reg,simplifycfg)',
                '-internalize-public-api-list=' + ','.join(self.names), raw, '-o', self.ll])
        if r.returncode:
            self.err = 'opt: ' + r.stdout

    def native(self, kind):
        """build (once) and return the replay binary of a kind: plain, asan, vg"""
        lk = self.lock.setdefault(kind, threading.Lock())
        with lk:
            if kind in self.bins:
                return self.bins[kind]
            tab = os.path.join(self.tmp, self.name + '.tab.cc')
            with open(tab, 'w') as f:
                for n in self.names:
                    f.write('extern "C" void %s();\n' % n)
                f.write('struct HH{const char*name;void(*f)();};\nextern HH vs_table[];\nHH vs_table[]={')
                for n in self.names:
                    f.write('{"%s",%s},' % (n, n))
                f.write('{0,0}};\n')
            out = os.path.join(self.tmp, self.name + '.' + kind)
            extra = {'plain': ['-O2'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                     'vg': ['-O0', '-g']}[kind]
            if 'vs_nheap' in open(self.path).read() and kind != 'asan':
                extra = extra + ['-DVS_COUNT_HEAP']
            r = sh(['g++'] + BASE + self.flags + extra + [self.path, os.path.join(HERE, 'native_rt.cc'), tab] + ['-o', out] + self.libs)
            self.bins[kind] = None if r.returncode else out
            if r.returncode:
                self.nerr = r.stdout
                sys.stderr.write("native build of %s (%s) failed:\n%s\n" % (self.name, kind, r.stdout[-1500:]))
            return self.bins[kind]

    def native_run(self, kind, harness, inputs, tmpf, verbose=False, cpu=None, prec=False):
        b = self.native(kind)
        if not b:
            return None, 'native build failed: ' + getattr(self, 'nerr', '')[-1500:]
        with open(tmpf, 'w') as f:
            for n, v in inputs:
                f.write('%s %s\n' % (n, repr(v)))
        cmd = [b, harness, tmpf] + (['v'] if verbose else [])
        env = dict(os.environ)
        if prec:
            env['VS_TOLMAX'] = '1e-9'
        if kind == 'asan':
            env['ASAN_OPTIONS'] = 'exitcode=12:detect_leaks=0:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=1'
            env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=12:print_stacktrace=0'
        elif kind == 'vg':
            cmd = ['valgrind', '-q', '--error-exitcode=13', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect'] + cmd
        kw = {}
        if cpu:
            kw['preexec_fn'] = lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        try:
            r = sh(cmd, env=env, timeout=90, **kw)
        except subprocess.TimeoutExpired:
            return 14, 'timeout'
        return r.returncode, r.stdout


def child(unit_ll, harness, opts, seed, conn, lapack):
    if os.environ.get("VERIF_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(10, repeat=True)
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)

    def body():
        try:
            import codegen, explore
            from rt import S
            explore.setup(opts)
            ext = explore.Externs(lapack_table())
            cg = codegen.CG(MODS[unit_ll], ext)
            if os.environ.get('VS_PROF'):
                import cProfile, pstats
                pr = cProfile.Profile()
                res = pr.runcall(S.explore, cg, '@' + harness, seed)
                pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
            else:
                res = S.explore(cg, '@' + harness, seed)
            conn.send(res.__dict__)
        except MemoryError:
            conn.send({'fatal': 'out of memory'})
        except BaseException as e:
            import traceback
            conn.send({'fatal': traceback.format_exc()[-3000:]})
    t = threading.Thread(target=body)
    t.start()
    t.join()
    conn.close()
    os._exit(0)


def lapack_table():
    try:
        import lapack
        return lapack.table()
    except ImportError:
        return None


MODS = {}


def nofloat(unit, harness):
    """the harness is about double precision only: nothing in it names another floating-point type"""
    m = re.search(r'(?:^|\n)(?:H\(|extern "C" void )%s\b.*?(?=\nH\(|\nextern "C" void |\Z)' % re.escape(harness), unit.text, re.S)
    return bool(m) and not re.search(r'float|FL\b', m.group(0))


def run_all(jobs, tier, deadline, seed):
    """jobs: list of (unit, harness). Returns {(unit.name,harness): result dict}"""
    lim = LIMITS[tier]
    ctx = mp.get_context('fork')
    out = {}
    pend = list(jobs)
    run = []
    while pend or run:
        now = time.time()
        while pend and len(run) < NJOBS and now < deadline:
            u, h = pend.pop(0)
            opts = dict(nofloat=nofloat(u, h), query_ms=lim['query_ms'], check_ms=lim['check_ms'], max_paths=lim['max_paths'])
            per = u.opts.get('time', lim['per']) if tier == 'quick' else lim['per']
            opts['time'] = max(5, min(per, deadline - now))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(u.ll, h, opts, seed, b, None))
            p.start()
            b.close()
            run.append((u, h, p, a, now + opts['time'] + 45))
        if not run:
            break
        mp.connection.wait([r[3] for r in run], timeout=1.0)
        keep = []
        for r in run:
            u, h, p, a, dl = r
            if a.poll():
                try:
                    out[(u.name, h)] = a.recv()
                except EOFError:
                    out[(u.name, h)] = {'fatal': 'worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif not p.is_alive():
                out[(u.name, h)] = {'fatal': 'worker died (exit %s)' % p.exitcode}
                a.close()
            elif time.time() > dl:
                p.kill()
                out[(u.name, h)] = {'fatal': 'hard time limit'}
                a.close()
            else:
                keep.append(r)
        run = keep
    for u, h in pend:
        out[(u.name, h)] = {'fatal': 'not started: check time budget used up'}
    return out


def load_known(prop):
    known = []
    try:
        for ln in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding:\s+property=(\w+)\s+harness=(\w+)\s+label="([^"]*)"\s*::\s*(.*)', ln)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return known


def confirm(unit, harness, cand, rdir, k):
    """run a candidate natively; returns (confirmed?, how, output)"""
    f = os.path.join(unit.tmp, '%s.%s.%d.in' % (unit.name, harness, k))
    tried = []
    mem = cand['label'].startswith('memory') or 'uninitialised' in cand['msg'] or 'abort' in cand['label']
    if cand['msg'].startswith('solver model') and any(isinstance(v, float) and abs(v) > 1e5 for _, v in cand['inputs']):
        return False, 'only with inputs so large that rounding decides', ''
    term = cand['label'] == 'termination'
    for kind in (('plain', 'asan', 'vg') if mem else ('plain',)):
        rc, out = unit.native_run(kind, harness, cand['inputs'], f, cpu=10 if term else None, prec=cand.get('prec'))
        if rc is None:
            return False, 'native build failed', out
        if kind == 'plain' and rc == 77:
            return False, 'assumption not met natively', out
        if term and rc == -signal.SIGXCPU:
            return True, 'still running after 10 s of processor time', out
        if rc in (10, 11, 12, 13) or rc < 0 or rc in (134, 139):
            return True, kind, out
        tried.append('%s:%s' % (kind, rc))
    return False, 'not reproduced (%s)' % ','.join(tried), ''


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='run only harnesses matching this regex')
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in LIMITS else 'quick'
    t0 = time.time()
    prop = a.prop
    tmp = tempfile.mkdtemp(prefix='vs_%s_' % prop)
    try:
        rc = check(prop, tier, seed, a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(prop, tier, seed, a, tmp, t0):
    import irparse
    units = [Unit(p, tier, tmp) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '.cc')) + glob.glob(os.path.join(VERIF, 'harness', prop + '_*.cc')))]
    if not units:
        print('no harness for', prop)
        return 1
    if a.replay:
        j = json.load(open(a.replay))
        u = [x for x in units if x.name == j['unit']][0]
        u.compile_ir()
        for kind in ('plain', 'asan', 'vg'):
            rc, out = u.native_run(kind, j['harness'], j['inputs'], os.path.join(tmp, 'r.in'), True, cpu=10 if j.get('label') == 'termination' else None, prec=j.get('prec'))
            print('--', kind, 'exit', rc)
            print(out[-3000:])
        return 0
    deadline = t0 + LIMITS[tier]['total']
    th = [threading.Thread(target=u.compile_ir) for u in units]
    [t.start() for t in th]
    [t.join() for t in th]
    bad = [u for u in units if u.err]
    good = [u for u in units if not u.err]
    viol = []
    inconcl = []
    notes = []
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for u in bad:
        # a public-API use that no longer compiles
        r = sh(['g++'] + BASE + u.flags + ['-fsyntax-only', u.path])
        f = os.path.join(rdir, '%s_%s_compile.txt' % (prop, u.name))
        open(f, 'w').write('g++ exit %d\n%s\nclang:\n%s' % (r.returncode, r.stdout[-4000:], u.err[-4000:]))
        print('harness file %s does not compile:\n%s' % (u.name, (u.err or '')[:1500]))
        if r.returncode:
            viol.append((u.name, 'compile', 'a use of the public interface no longer compiles', f))
        else:
            inconcl.append('%s: clang cannot compile' % u.name)
    for u in good:
        if u.reduced:
            inconcl.append('%s: harnesses with a number type of their own do not compile and were left out: %s' % (u.name, u.reduced[:600]))
        MODS[u.ll] = irparse.parse(open(u.ll).read())
    nat = [threading.Thread(target=u.native, args=('plain',)) for u in good]
    jobs = [(u, n) for u in good for n in u.names if (tier == 'thorough' or not n.startswith('ht_')) and (not a.only or re.search(a.only, n))]
    nj = [len(u.names) for u in good]
    t1 = time.time()
    for t in nat:
        t.start()
    res = run_all(jobs, tier, deadline, seed)
    for t in nat:
        t.join()
    t2 = time.time()
    known = load_known(prop)
    tot = dict(paths=0, ni=0, fp=0, nq=0, tq=0.0, proved=0, refuted=0, unknown=0)
    ends = {}
    funcs = set()
    per = {}
    validated = 0
    vtried = 0
    mism = []
    samples = []
    kf = []
    k = 0
    for u, h in jobs:
        r = res.get((u.name, h), {'fatal': 'no result'})
        if 'fatal' in r:
            inconcl.append('%s: %s' % (h, r['fatal'].strip().splitlines()[-1] if r['fatal'].strip() else ''))
            if a.v:
                print(r['fatal'])
            per[h] = {'error': r['fatal'][-300:]}
            continue
        tot['paths'] += sum(r['paths'].values())
        for e, n in r['paths'].items():
            ends[e] = ends.get(e, 0) + n
        for x in ('ni', 'fp', 'nq', 'tq'):
            tot[x] += r[x]
        c = {'proved': 0, 'refuted': 0, 'unknown': 0}
        for l, d in r['checks'].items():
            for x in c:
                c[x] += d[x]
                tot[x] += d[x]
            if d['unknown']:
                inconcl.append('%s: %s (%d undecided, %d proved)' % (h, l, d['unknown'], d['proved']))
        funcs.update(r['funcs'])
        if r['incomplete']:
            inconcl.append('%s: %s' % (h, r['incomplete']))
        ndone = r['paths'].get('done', 0) + r['paths'].get('abort', 0)
        if not ndone and not r['cands']:
            inconcl.append('%s: VACUOUS, no path reaches the end' % h)
        elif not c['proved'] and not c['refuted']:
            inconcl.append('%s: VACUOUS, no check evaluated' % h)
        per[h] = {'paths': r['paths'], 'checks': c, 'queries': r['nq'], 'solver_s': round(r['tq'], 3), 'wall_s': round(r['wall'], 2), 'instructions': r['ni']}
        if a.v:
            print('%-40s %s %s wall %.1f q %d' % (h, r['paths'], c, r['wall'], r['nq']))
            for n in r['notes'][:5]:
                print('    note', n)
            for n in sorted(set(r['unknown']))[:5]:
                print('    unknown', n)
        for n in r['notes']:
            if n.startswith('ENCODER'):
                mism.append(h + ': ' + n)
        # counterexamples
        seen = set()
        for cd in r['cands']:
            key = (h, cd['label'], cd['msg'][:40])
            if key in seen or sum(1 for s in seen) >= 6:
                continue
            if cd['label'] == 'termination' and sum(1 for v in viol if v[1] == 'termination') >= 2:
                continue    # each such replay takes its full time limit
            k += 1
            ok, how, out = confirm(u, h, cd, rdir, k)
            kn = [x for x in known if x[0] == h and cd['label'].startswith(x[1])]
            if a.v:
                print('    cand', cd['label'], '|', cd['msg'], '|', ok, how, str(cd['inputs'])[:300])
            if not ok:
                notes.append('%s: candidate "%s" %s' % (h, cd['msg'], how))
                continue
            seen.add(key)
            if kn:
                kf.append('%s: %s [%s: %s]' % (h, kn[0][2], cd['label'], cd['msg']))
                continue
            f = os.path.join(rdir, '%s_%s_%d.json' % (prop, h, k))
            json.dump({'property': prop, 'unit': u.name, 'harness': h, 'label': cd['label'], 'message': cd['msg'], 'inputs': cd['inputs'], 'prec': cd.get('prec'),
                       'confirmed_by': how, 'native_output': out[-4000:], 'replay': 'python3-vt engine/run.py %s --replay %s' % (prop, f)}, open(f, 'w'), indent=1)
            viol.append((h, cd['label'], cd['msg'], f))
        # a refutation never confirmed on the real code leaves its label open
        conf = set(x[1] for x in seen)
        for l, d in r['checks'].items():
            if d['refuted'] and l not in conf:
                inconcl.append('%s: %s (%d candidate refutations without a reproducible input, %d proved)' % (h, l, d['refuted'], d['proved']))
        # encoder validation
        for i, w in enumerate(r['validate'][:4 if tier == 'quick' else 12]):
            vtried += 1
            f = os.path.join(tmp, 'val.in')
            rc, out = u.native_run('plain', h, w['inputs'], f, True)
            if rc != 0:
                if rc != 77:
                    mism.append('%s: validation run exits %s: %s' % (h, rc, (out or '').strip()[-200:]))
                continue
            vals = [l.split('\t') for l in out.splitlines() if l.startswith('V\t')]
            okv = True
            for (lab, x, y), nv in zip(w['trace'], vals):
                for p, q in ((x, float(nv[2])), (y, float(nv[3]))):
                    if p == p and abs(p) != float('inf') and q == q and abs(p - q) > 1e-5 * max(1, abs(p), abs(q)):
                        okv = False
                        mism.append('%s %s: encoding %.17g, native %.17g' % (h, lab, p, q))
            if okv:
                validated += 1
        if len(samples) < 10 and r['samples']:
            s = dict(r['samples'][0])
            s['harness'] = h
            s['witness'] = s['witness'][:12]
            samples.append(s)
    for n in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, n))
    dem = sh(['c++filt'], input='\n'.join(sorted(funcs))).stdout.splitlines() if funcs else []
    toon = sorted(set(re.sub(r'\s+', ' ', d) for d in dem if 'TooN' in d))
    shorts = sorted(set(shortname(d) for d in toon))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['ni'], 'traces_validated_against_impl': validated,
                       'samples': samples, 'harnesses': len(jobs), 'path_ends': ends, 'goals_proved': tot['proved'],
                       'goals_refuted': tot['refuted'], 'goals_undecided': tot['unknown'], 'solver_queries': tot['nq'],
                       'solver_seconds': round(tot['tq'], 2), 'fp_operations_encoded': tot['fp'], 'functions_encoded': len(toon),
                       'function_templates': shorts[:400], 'bounds': sum((u.bounds for u in units), []),
                       'explanation': 'states = explored symbolic paths, transitions = IR instructions executed symbolically over all paths, '
                                      'traces_validated = path witnesses re-run natively whose checked values agree with the encoding',
                       'validation_runs_tried': vtried, 'encoder_mismatches': mism[:20], 'inconclusive': inconcl[:60], 'unconfirmed_candidates': notes[:40],
                       'known_findings': sorted(set(kf)), 'per_harness': per},
          'assumptions': ['floating point is interpreted as exact real arithmetic, literals as the rational they print as',
                          'divisors and square-root radicands are assumed non-zero / non-negative unless a harness opts into strict mode',
                          'LAPACK routines, where called, are replaced by their documented contract'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: harnesses %d, paths %d, goals proved %d refuted %d undecided %d, queries %d (%.1fs), functions %d, validated %d/%d, wall %.1fs (compile %.1f explore %.1f)' % (
        prop, tier, len(jobs), tot['paths'], tot['proved'], tot['refuted'], tot['unknown'], tot['nq'], tot['tq'], len(toon), validated, vtried, time.time() - t0, t1 - t0, t2 - t1))
    for n in inconcl[:40]:
        print('INCONCLUSIVE', n)
    for n in mism[:10]:
        print('ENCODER-MISMATCH', n.replace('\n', ' ')[:300])
    for n in notes[:10]:
        print('UNCONFIRMED', n)
    for h, l, m, f in viol:
        print('VIOLATION property=%s replay=%s' % (prop, f))
        print('   %s: %s: %s' % (h, l, m))
    return 1 if viol else 0


def shortname(d):
    out, dep = [], 0
    d = d.split('(')[0] if '<' not in d.split('(')[0] else d
    for ch in d:
        if ch == '<':
            dep += 1
        elif ch == '>':
            dep -= 1
        elif dep == 0:
            out.append(ch)
    s = ''.join(out).split('(')[0].strip()
    return s.split(' ')[-1]


if __name__ == '__main__':
    main()
