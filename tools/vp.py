#!/usr/bin/env python3
"""Solver-based checks of the real Apron sources: driver.

  vp.py <property-id|all> [--tier quick|thorough] [--only harness] [--keep] [--noreplay]

For every harness registered for the property: compile /repo's current sources and the harness to LLVM
bitcode, execute the harness symbolically with the engine in engine/ (Z3 decides every branch and every
assertion), replay every counterexample against natively compiled sources (real GMP/MPFR), write the
evidence file.
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, threading, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
MODEL = os.path.join(VERIF, 'model')
ENG = os.path.join(VERIF, 'engine')
Z3D = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
sys.path.insert(0, HARN)
NPROC = int(os.environ.get('VP_JOBS', str(min(8, os.cpu_count() or 8))))

NUMFLAG = {'MPQ': 'NUM_MPQ', 'D': 'NUM_DOUBLE', 'Dl': 'NUM_LONGDOUBLE', 'MPFR': 'NUM_MPFR', 'Rll': 'NUM_LONGLONGRAT', 'Rl': 'NUM_LONGRAT',
           'Il': 'NUM_LONGINT', 'Ill': 'NUM_LONGLONGINT', 'MPZ': 'NUM_MPZ'}
INCDIRS = ['apron', 'num', 'itv', 'box', 'octagons', 'avoct', 'newpolka', 'taylor1plus', 'products']


def modules(d):
    """C files of a component: the module lists of its own Makefile, restricted to existing files."""
    if d == 'num':
        return []
    txt = open(os.path.join(REPO, d, 'Makefile'), errors='replace').read().replace('\\\n', ' ')
    out = []
    for var in ('CCMODULES', 'CCSOURCES', 'C_FILES'):
        m = re.search(r'^%s\s*=\s*(.*)$' % var, txt, re.M)
        if m:
            for w in m.group(1).split():
                f = w if w.endswith('.c') else w + '.c'
                p = os.path.join(REPO, d, f)
                if '$' not in f and os.path.exists(p) and p not in out:
                    out.append(p)
            break
    return out


def run(cmd, timeout=None, env=None, pass_fds=()):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=env, pass_fds=pass_fds)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, '', 'timed out'


class Once:
    """Memoised, thread-safe jobs."""
    def __init__(self):
        self.lock = threading.Lock(); self.d = {}

    def get(self, key, fn):
        with self.lock:
            ev = self.d.get(key); mine = ev is None
            if mine:
                ev = self.d[key] = [threading.Event(), None]
        if mine:
            try:
                ev[1] = fn()
            except Exception as e:
                ev[1] = (None, 'driver: %r' % e)
            ev[0].set()
        ev[0].wait()
        return ev[1]


SRCFLAGS = ['-U__STRICT_ANSI__', '-DNDEBUG', '-std=gnu99', '-w', '-Wno-error=implicit-function-declaration']
BCFLAGS = ['-O1', '-fno-pic', '-fno-pie', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops', '-gline-tables-only', '-fno-discard-value-names', '-DVP_SYM']


def defs(dd):
    return ['-D%s=%s' % (k, v) if v is not None else '-D%s' % k for k, v in sorted(dd.items())]


def incs(native):
    return ([] if native else ['-I' + MODEL]) + ['-I' + HARN, '-I' + HARN + '/gen'] + ['-I' + os.path.join(REPO, d) for d in INCDIRS]


def sources(h):
    """[(path, flags)] of a harness: the repository's sources of its components, then the harness itself."""
    out = []
    for c in h['comps']:
        d, _, n = c.partition(':')
        n = n or h['num']
        for p in modules(d):
            out.append((p, [] if d == 'apron' else ['-D' + NUMFLAG[n]]))
        if d == 'apron':
            for n in h.get('aux', [h['num']] if h['num'] in ('MPQ', 'D', 'MPFR') else []):
                out.append((os.path.join(REPO, d, 'ap_linearize_aux.c'), ['-D' + NUMFLAG[n]]))
    for p in h.get('extra', []):
        out.append((os.path.join(REPO, p), ['-D' + NUMFLAG[h['num']]]))
    out.append((os.path.join(HARN, h['file']), ['-D' + NUMFLAG[h['num']]] + defs(h['defs'])))
    return out


class Build:
    def __init__(self, root):
        self.root = root
        self.once = Once()
        self.pool = ThreadPoolExecutor(NPROC)

    def cc(self, src, flags, suffix):
        cxx = src.endswith(('.cc', '.cpp'))
        key = hashlib.sha1(repr((src, flags)).encode()).hexdigest()[:16]
        out = os.path.join(self.root, '%s-%s.%s' % (os.path.basename(src), key, suffix))

        def job():
            fl = [f for f in flags if not (cxx and f.startswith('-std=gnu99'))]
            if cxx:
                fl = [('clang++-18' if fl[0] == 'clang-18' else 'g++')] + fl[1:] + ['-std=c++11']
            rc, o, e = run([fl[0], '-c'] + fl[1:] + [src, '-o', out], timeout=300)
            return (out, '') if rc == 0 else (None, 'compile failed: %s: %s' % (src, ' / '.join(l for l in e.split('\n') if 'error' in l)[:300]))
        return self.once.get(key, lambda: self.pool.submit(job).result())

    def many(self, jobs, suffix):
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: self.cc(j[0], j[1], suffix), jobs))
        bad = [m for o, m in res if o is None]
        return ([o for o, m in res], '') if not bad else (None, bad[0])

    def bitcode(self, h):
        jobs = [(p, ['clang-18'] + SRCFLAGS + BCFLAGS + fl + h.get('cflags', []) + incs(False)) for p, fl in sources(h)]
        key = 'bc' + hashlib.sha1(repr(jobs).encode()).hexdigest()[:16]

        def link():
            objs, msg = self.many(jobs, 'bc')
            if objs is None:
                return None, msg
            out = os.path.join(self.root, key + '.bc')
            rc, o, e = run(['llvm-link'] + objs + ['-o', out], timeout=200)
            if rc is not None and rc != 0:
                rc, o, e = run(['llvm-link-18'] + objs + ['-o', out], timeout=200)
            return (out, '') if rc == 0 else (None, 'llvm-link: ' + e[-1500:])
        return self.once.get(key, link)

    def engine(self):
        def job():
            srcs = sorted(glob.glob(ENG + '/*.cpp'))
            hsh = hashlib.sha1(b''.join(open(p, 'rb').read() for p in sorted(glob.glob(ENG + '/*')))).hexdigest()[:16]
            cache = os.path.join(VERIF, 'build'); exe = os.path.join(cache, 'vsx-' + hsh)
            if os.path.exists(exe):
                return exe, ''
            os.makedirs(cache, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix='eng', dir=self.root)

            def one(p):
                o = os.path.join(tmp, os.path.basename(p) + '.o')
                rc, so, e = run(['clang++-18', '-c', '-O2' if not p.endswith('load.cpp') else '-O1', '-std=c++17', '-w', '-I' + Z3D + '/include', '-I/usr/lib/llvm-18/include', p, '-o', o], timeout=600)
                return o if rc == 0 else None, e
            rs = list(ThreadPoolExecutor(NPROC).map(one, srcs))
            if any(o is None for o, e in rs):
                return None, 'engine: ' + ''.join(e for o, e in rs)[-2000:]
            t = exe + '.%d' % os.getpid()
            rc, so, e = run(['clang++-18'] + [o for o, _ in rs] + ['-o', t, '-L' + Z3D + '/lib', '-Wl,-rpath,' + Z3D + '/lib', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-l:libz3.so', '-lgmpxx', '-lgmp', '-lpthread'], timeout=200)
            if rc != 0:
                return None, 'engine link: ' + e[-2000:]
            os.rename(t, exe)
            return exe, ''
        return self.once.get('engine', job)


# ---- native replay
WRAP = ['mpq_cmp', 'mpq_add', 'mpq_sub', 'mpq_mul', 'mpq_div', 'mpz_divexact']


def native(b, h, variant):
    san = ['-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if variant == 'asan' else []
    fl0 = ['gcc'] + SRCFLAGS + ['-O1', '-g', '-fno-pie', '-frounding-math', '-fno-builtin'] + san
    jobs = [(p, fl0 + fl + h.get('cflags', []) + incs(True)) for p, fl in sources(h)]
    jobs.append((os.path.join(HARN, 'vp_native.c'), fl0 + ['-DVP_ENTRY=h_' + h['name']]))
    objs, msg = b.many(jobs, 'o')
    if objs is None:
        return None, msg
    exe = os.path.join(b.root, 'n-%s-%s' % (h['id'], variant))
    wrap = ['-Wl,' + ','.join('--wrap=__g' + w for w in WRAP)]
    cc = 'g++' if any(p.endswith(('.cc', '.cpp')) for p, _ in jobs) else 'gcc'
    rc, o, e = run([cc, '-no-pie', '-Wl,--unresolved-symbols=ignore-all'] + san + objs + wrap + ['-o', exe, '-lmpfr', '-lgmp', '-lm'], timeout=300)
    return (exe, '') if rc == 0 else (None, 'native link failed: ' + e[-1500:])


def replay(b, h, path):
    msgs = []
    for variant in ('plain', 'asan'):
        exe, msg = b.once.get('native-%s-%s' % (h['id'], variant), lambda: native(b, h, variant))
        if exe is None:
            msgs.append(msg); continue
        for fill in (['0'] if variant == 'asan' else ['0', '85', '255']):
            env = dict(os.environ, MALLOC_PERTURB_=fill, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=3' % (1 if h.get('leak') else 0), UBSAN_OPTIONS='exitcode=3')
            try:
                p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
            except subprocess.TimeoutExpired:
                msgs.append('replay timed out'); continue
            e = p.stderr.decode(errors='replace')
            if p.returncode == 3 or p.returncode < 0 or 'VPFAIL' in e or 'ERROR: AddressSanitizer' in e or 'runtime error' in e:
                line = next((l for l in e.splitlines() if 'VPFAIL' in l or 'ERROR:' in l or 'runtime error' in l), e[:200])
                return True, '%s: %s' % (variant, line)
            msgs.append('%s/%s: rc=%d %s' % (variant, fill, p.returncode, e.strip()[-200:]))
    return False, ' | '.join(msgs)


def load_known():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    kf = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) harness=(\S+) assertion="([^"]*)" :: (.*)$', l.strip())
            if m:
                kf.append(m.groups())
    return kf


class Tokens:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b'+' * n)

    def take(self):
        import select
        while True:
            select.select([self.r], [], [], 1.0)
            try:
                if os.read(self.r, 1):
                    return
            except BlockingIOError:
                time.sleep(0.02)


def do_harness(b, h, tier, outdir, tok, noreplay):
    t0 = time.time()
    exe, msg = b.engine()
    if exe is None:
        return dict(status='error', msg=msg, wall=0)
    bc, msg = b.bitcode(h)
    if bc is None:
        return dict(status='error', msg=msg, wall=time.time() - t0)
    tl = int(os.environ['VP_TIME']) if os.environ.get('VP_TIME') else h.get('time', 300) if tier == 'quick' else h.get('time_thorough', 3000)
    cex = os.path.join(b.root, 'cex-' + h['id']); os.makedirs(cex, exist_ok=True)
    js = os.path.join(b.root, h['id'] + '.json')
    tok.take()
    t0 = time.time()
    cmd = [exe, bc, 'h_' + h['name'], js, cex, 'time=%d' % tl] + (['fp=up'] if h.get('fp') == 'up' else [])
    rc, o, e = run(cmd, timeout=tl + 120, env=dict(os.environ, VSX_JOBFD='%d,%d' % (tok.r, tok.w)), pass_fds=(tok.r, tok.w))
    r = dict(wall=time.time() - t0, cmd=' '.join(['vsx', 'h_' + h['name']] + cmd[5:]), log=(o + e)[-600:])
    try:
        st = json.load(open(js))
    except Exception:
        os.write(tok.w, b'+')
        r.update(status='error', msg='engine gave no result (rc=%s): %s' % (rc, (o + e)[-400:]))
        return r
    r['st'] = st
    problems = []
    for k in ('unknown', 'unsupported', 'crashed', 'errors', 'timeouts'):
        if st[k]:
            problems.append('%s=%d' % (k, st[k]))
    files = sorted(glob.glob(cex + '/cex-*'), key=lambda p: int(p.rsplit('-', 1)[1]) if p.rsplit('-', 1)[1].isdigit() else 0)
    if not files and any(m[2] for m in st['messages']):
        problems.append('violated without a model: ' + [m[0] for m in st['messages'] if m[2]][0])
    if problems:
        problems += st['uns'][:3]
    if not st['covered'] and not st['nviol']:
        problems.append('vacuous: witness not reached')
    if files:
        conf, bymsg = [], {}
        for p in files:
            m = open(p).readline().strip().lstrip('# ')
            bymsg.setdefault(re.sub(r' \[\w+\]$', '', m), []).append(p)
        for m, ps in list(bymsg.items())[:8]:
            okd = False
            for p in ps[:6]:
                keep = os.path.join(outdir, '%s-%s-%d.in' % (h['prop'], h['id'], len(conf)))
                shutil.copy(p, keep)
                ok, why = (False, 'not replayed') if noreplay else replay(b, h, keep)
                if ok:
                    conf.append((m, True, why, keep)); okd = True
                    break
            if not okd:
                conf.append((m, False, why, keep))
        r['confirmed'] = conf
        if any(c[1] for c in conf):
            r['status'] = 'violation'
        else:
            r['status'] = 'unconfirmed'
        r['msg'] = '; '.join('%s: %s' % (c[0], c[2][:160]) for c in conf)
    elif problems:
        r.update(status='undecided', msg=', '.join(problems))
    else:
        r.update(status='ok', msg='')
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--noreplay', action='store_true')
    a = ap.parse_args()
    if a.prop == '--setup' or a.prop == 'setup':
        root = tempfile.mkdtemp(prefix='vp-setup-'); b = Build(root)
        exe, msg = b.engine(); b.pool.shutdown(); shutil.rmtree(root, ignore_errors=True)
        print(exe or msg); return 0 if exe else 2
    import registry
    hs = []
    for h in registry.HARNESSES:
        if a.prop not in ('all', h['prop']):
            continue
        if a.only and not (h['name'] in a.only or h['id'] in a.only):
            continue
        if a.tier != 'thorough' and h['tier'] != 'quick' and not a.only:
            continue
        if a.tier == 'thorough' and h['tier'] == 'quickonly' and not a.only:
            continue
        hs.append(h)
    if not hs:
        print('no harness for', a.prop); return 2
    t0 = time.time()
    outdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(outdir, exist_ok=True)
    root = tempfile.mkdtemp(prefix='vp-%s-' % a.prop, dir=os.environ.get('VP_TMP', '/tmp'))
    b = Build(root)
    tok = Tokens(NPROC)
    results = []
    try:
        hs.sort(key=lambda h: -h.get('cost', 10))
        with ThreadPoolExecutor(12) as ex:
            futs = [(h, ex.submit(do_harness, b, h, a.tier, outdir, tok, a.noreplay)) for h in hs]
            for h, f in futs:
                try:
                    r = f.result()
                except Exception as e:
                    import traceback
                    r = dict(status='error', msg='driver: %r %s' % (e, traceback.format_exc()[-800:]), wall=0)
                r['h'] = h
                results.append(r)
                st = r.get('st', {})
                print('%-30s %-11s %6.1fs solver %6.1fs %6d paths %6d queries %5d asserts %d cut %s' % (h['id'], r['status'], r.get('wall', 0), st.get('solver_s', 0),
                      st.get('paths', 0), st.get('queries', 0), st.get('asserts', 0), st.get('cut', 0), r.get('msg', '')[:700]), flush=True)
    finally:
        b.pool.shutdown()
        if not a.keep:
            shutil.rmtree(root, ignore_errors=True)
        else:
            print('kept', root)
    known = load_known()
    viol = 0
    seen = set()
    for r in results:
        h = r['h']
        for m, ok, why, path in r.get('confirmed', []):
            if not ok:
                continue
            kf = [k for k in known if k[0] == h['prop'] and k[1] in (h['name'], h['id']) and m.startswith(k[2])]
            if kf:
                if kf[0][3] not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (h['prop'], kf[0][3]))
                seen.add(kf[0][3])
            else:
                viol += 1
                info = path.replace('.in', '.txt')
                with open(info, 'w') as f:
                    f.write('property %s\nharness %s (%s)\nassertion: %s\nnative replay: %s\nbounds %s\ninputs %s\nreproduce: python3 tools/vp.py %s --only %s\n' % (
                        h['prop'], h['name'], h['file'], m, why, h['defs'], open(path).read().split('\n'), h['prop'], h['id']))
                print('  %s: %s -- %s' % (h['id'], m, why))
                print('VIOLATION property=%s replay=%s' % (h['prop'], os.path.relpath(info, VERIF)))
    ok = [r for r in results if r['status'] == 'ok']
    bad = [r for r in results if r['status'] not in ('ok', 'violation')]
    wall = time.time() - t0
    if a.prop != 'all' and not a.only:
        write_evidence(a.prop, a.tier, results, wall, viol)
    print('%s [%s]: %d harnesses, %d hold within their bounds, %d violated, %d not decided, %.0f s' % (
        a.prop, a.tier, len(results), len(ok), len([r for r in results if r['status'] == 'violation']), len(bad), wall))
    if viol:
        return 1
    if not ok or any(r['status'] == 'error' for r in results):
        return 2
    return 0


def write_evidence(prop, tier, results, wall, viol):
    S = lambda r, k: r.get('st', {}).get(k, 0)
    # an obligation is an assertion message of a harness (with all the paths and values that reach it)
    nmsg = lambda r: len(r.get('st', {}).get('messages', [])) or 1
    obligations = sum(nmsg(r) for r in results)
    discharged = sum(nmsg(r) if r['status'] == 'ok' else len([m for m in r.get('st', {}).get('messages', []) if m[2] == 0]) if r['status'] == 'violation' else 0 for r in results)
    fns = sorted(set(f for r in results for f in r.get('st', {}).get('functions', []) if not f.split('@')[1].startswith(HARN)))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the LLVM IR of the sources in /repo (compiled by clang on this run) with Z3 deciding every branch and assertion. '
                           'Numbers are unbounded symbolic integers and rationals unless stated; shapes (dimensions, numbers of constraints, positions of infinities, '
                           'sparse/dense, functional/destructive) are explored exhaustively within the stated bounds. An obligation is an assertion of a harness over all its paths; '
                           'harnesses that were not fully decided count as not discharged. Nothing is claimed outside the bounds.',
            'harnesses': [{
                'harness': r['h']['id'], 'what': r['h'].get('desc', ''), 'verdict': r['status'], 'number_type': r['h']['num'], 'components': r['h']['comps'],
                'bounds': r['h'].get('defs', {}), 'bounds_note': r['h'].get('bounds', ''), 'rounding': r['h'].get('fp', 'exact'),
                'paths': S(r, 'paths'), 'branches': S(r, 'branches'), 'solver_queries': S(r, 'queries'), 'assertions_checked': S(r, 'asserts'),
                'instructions': S(r, 'instrs'), 'paths_cut': S(r, 'cut'), 'cuts': r.get('st', {}).get('cuts', []), 'witnesses_reached': S(r, 'covered'),
                'obligations': [m[0] for m in r.get('st', {}).get('messages', [])],
                'solver_s': S(r, 'solver_s'), 'wall_s': round(r.get('wall', 0), 1), 'note': r.get('msg', '')} for r in results],
            'obligations': obligations, 'discharged': discharged,
            'solver_queries': sum(S(r, 'queries') for r in results),
            'solver_s': round(sum(S(r, 'solver_s') for r in results), 1),
            'paths': sum(S(r, 'paths') for r in results),
            'undecided': [r['h']['id'] + ': ' + r.get('msg', '') for r in results if r['status'] not in ('ok', 'violation')],
            'functions_encoded_count': len(fns),
            'functions_encoded': [f.replace(REPO + '/', '') for f in fns],
            'checker_cmd': next((r['cmd'] for r in results if r.get('cmd')), ''),
            'trusted_base': ['clang 18', 'the symbolic executor in engine/', 'Z3 (libz3 of the python tooling venv)', 'the GMP/MPFR contracts in engine/lib.cpp', 'the harness oracles in harness/'],
        },
        'assumptions': ['memory allocation does not fail', 'sources compiled with -DNDEBUG as in the production build',
                        'rationals split into numerator and denominator have denominators up to 4 (other paths are counted as cut)'],
        'wall_s': round(wall, 1), 'violations': viol,
    }
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
