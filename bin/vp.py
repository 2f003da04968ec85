#!/usr/bin/env python3
"""Runner: builds the symbolic executor, compiles /repo's current sources to LLVM IR, executes the harnesses of one
property symbolically, validates the encoding against the natively compiled code, replays counterexamples natively.

  vp.py setup
  vp.py check ID [--tier quick|thorough] [--only HARNESS]
  vp.py replay FILE
"""
import threading, sys, os, json, subprocess, hashlib, time, tempfile, shutil, glob, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/src'
BUILD = os.environ.get('VP_BUILD', V + '/build')
JOBS = int(os.environ.get('VP_JOBS', '8'))
CXX = 'clang++'
COMMON = ['-w', '-std=c++17', '-DNDEBUG', '-DDRAMPOWER_TESTING', '-DVP_NO_JSON', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS', '-fno-pic',
          '-I' + V + '/harness', '-I' + V + '/stubs', '-I' + SRC + '/DRAMPower', '-I' + SRC + '/cli/lib']
IRFLAGS = COMMON + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-emit-llvm']
NATFLAGS = COMMON + ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fno-sanitize-recover=all']
sys.path.insert(0, V + '/bin')

class ToolError(Exception): pass

def run(cmd, timeout=900, env=None, check=True):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True, errors='replace')
    if check and p.returncode != 0:
        raise ToolError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd[:6]) + ' ...', p.stdout[-3000:]))
    return p

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def tree(d, pats=('.h', '.cpp', '.hpp', '.tpp', '.inl')):
    r = []
    for root, _, fs in os.walk(d):
        r += [os.path.join(root, f) for f in fs if f.endswith(pats)]
    return r

def engine():
    out = BUILD + '/engine'; exe = out + '/symex'
    key = digest([V + '/engine/symex.cpp', V + '/engine/expr.h', V + '/engine/build.sh'])
    if not (os.path.exists(exe) and os.path.exists(out + '/key') and open(out + '/key').read() == key):
        os.makedirs(out, exist_ok=True)
        run(['bash', V + '/engine/build.sh', out]); open(out + '/key', 'w').write(key)
    return exe

def atomic(cmd, out):
    tmp = '%s.%d.tmp' % (out, os.getpid())
    run(cmd + ['-o', tmp]); os.rename(tmp, out)

_srckey = None
_pchlock = {'bc': threading.Lock(), 'o': threading.Lock()}
def srckey():
    global _srckey
    if _srckey is None: _srckey = digest(tree(SRC) + tree(V + '/stubs') + [V + '/harness/vp.h', V + '/harness/specs.h', V + '/harness/vp_native.cpp', V + '/engine/libmodels.cpp'], ' '.join(IRFLAGS + NATFLAGS))
    return _srckey

def lib_files():
    fs = [f for f in tree(SRC + '/DRAMPower', ('.cpp',))]
    return sorted(fs)

def build_dir():
    d = BUILD + '/lib-' + srckey(); os.makedirs(d, exist_ok=True)
    # old builds of other source states
    for o in glob.glob(BUILD + '/lib-*'):
        if o != d and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    return d

PCH = 'vector cstddef cstdint optional string cassert algorithm bitset type_traits utility string_view functional variant tuple iostream unordered_map array memory cmath sstream ostream limits initializer_list cstring typeindex stdexcept numeric map istream fstream filesystem deque cstdlib cstdio climits typeinfo'
def flags(kind):
    """compiler flags, with the standard headers precompiled"""
    d = build_dir(); f = IRFLAGS if kind == 'bc' else NATFLAGS
    with _pchlock[kind]:
        o = d + '/std.%s.pch' % kind
        if not os.path.exists(o):
            h = d + '/std.%s.h' % kind; open(h, 'w').write(''.join('#include <%s>\n' % x for x in PCH.split()))
            atomic([CXX] + [x for x in f if x != '-emit-llvm'] + ['-x', 'c++-header', h], o)
    return f + ['-include-pch', o]

def objs(files, kind):
    """compile the given sources to bitcode ('bc') or sanitized objects ('o')"""
    d = build_dir(); todo = []; outs = []
    for f in files:
        o = d + '/' + hashlib.sha256(f.encode()).hexdigest()[:10] + '_' + os.path.basename(f) + '.' + kind
        outs.append(o)
        if not os.path.exists(o): todo.append((f, o))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda fo: atomic([CXX] + flags(kind) + ['-c', fo[0]], fo[1]), todo))
    return outs

def hkey(h):
    return hashlib.sha256(json.dumps([h['src'], h.get('defs', []), h.get('libs')]).encode()).hexdigest()[:10] + '-' + digest(
        [V + '/harness/' + h['src']] + glob.glob(V + '/harness/*.h'))[:10]

def h_libs(h):
    l = h.get('libs')
    if l is None: return lib_files()
    return [x if x.startswith('/') else SRC + '/' + x for x in l]

def hname(h): return h['name']

def build_bc(h):
    d = build_dir(); out = '%s/h-%s-%s.bc' % (d, hname(h), hkey(h))
    if os.path.exists(out): return out
    libs = objs(h_libs(h), 'bc')
    hb = out[:-3] + '.h.bc'
    atomic([CXX] + flags('bc') + h.get('defs', []) + ['-c', V + '/harness/' + h['src']], hb)
    lm = objs([V + '/engine/libmodels.cpp'], 'bc')
    atomic(['llvm-link-18'] + libs + lm + [hb], out + '.full')
    models = sorted(set(re.findall(r'vp_model_[A-Za-z0-9_]+', open(V + '/engine/libmodels.cpp').read())))
    atomic(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(['vp_main'] + models), out + '.full'], out)
    os.unlink(out + '.full'); os.unlink(hb)
    return out

def build_native(h):
    d = build_dir(); out = '%s/n-%s-%s' % (d, hname(h), hkey(h))
    if os.path.exists(out): return out
    libs = objs(h_libs(h) + [V + '/harness/vp_native.cpp'], 'o')
    ho = out + '.o'
    atomic([CXX] + flags('o') + h.get('defs', []) + ['-c', V + '/harness/' + h['src']], ho)
    atomic([CXX, '-fsanitize=address', '-no-pie', ho] + libs, out)
    return out

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')

def native(h, inputs=None, seed=None, log=None, rec=None, timeout=60):
    exe = build_native(h)
    env = dict(ENV)
    for k in ('VP_INPUTS', 'VP_RANDOM', 'VP_LOG', 'VP_RECORD'): env.pop(k, None)
    if inputs: env['VP_INPUTS'] = inputs
    if seed is not None: env['VP_RANDOM'] = str(seed)
    if log: env['VP_LOG'] = log
    if rec: env['VP_RECORD'] = rec
    try: return run([exe], timeout=timeout, env=env, check=False)
    except subprocess.TimeoutExpired: raise ToolError('native replay timed out')

def symex(h, bc, deadline, extra=()):
    exe = engine(); out = tempfile.mktemp(suffix='.json', dir=tmpdir())
    p = run([exe, bc, '--entry=vp_main', '--jobs=%d' % JOBS, '--deadline=%d' % deadline, '--out=' + out,
             '--rlimit=%d' % h.get('rlimit', 50000000), '--paths=%d' % h.get('paths', 5000000), '--max-viol=3'] + (['--split'] if h.get('split') else []) + list(extra), timeout=deadline + 120, check=False)
    if not os.path.exists(out): raise ToolError('symbolic executor died: ' + p.stdout[-2000:])
    r = json.loads(open(out).read(), strict=False); os.unlink(out); r['rc'] = p.returncode; return r

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vp-')
        import atexit; atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

LOGV = re.compile(r'^(\S+) (.*)$')
def same_log(a, b):
    la, lb = a.splitlines(), b.splitlines()
    if len(la) != len(lb): return 'length %d vs %d: native ends %r, encoding ends %r' % (len(la), len(lb), la[-2:], lb[-2:])
    for x, y in zip(la, lb):
        if x == y: continue
        mx, my = LOGV.match(x), LOGV.match(y)
        if mx and my and mx.group(1) == my.group(1):
            try:
                fa, fb = float(mx.group(2)), float(my.group(2))
                if abs(fa - fb) <= 1e-6 * max(abs(fa), abs(fb)) + 1e-12: continue
            except ValueError: pass
        return 'native %r, encoding %r' % (x, y)
    return None

def validate(h, bc, res, seed, nrand, nsamp):
    """push concrete inputs through the real compiled code and through the encoding; compare everything logged"""
    build_native(h); cases = []
    for i, s in enumerate(res.get('samples', [])[:nsamp]): cases.append(('sample%d' % i, s))
    for i in range(nrand): cases.append(('rand%d' % i, None))
    mism, ran, rejected, failing, values = [], 0, 0, [], 0
    exe = engine()
    def one(c):
        n, s = c; base = tmpdir() + '/%s-%s' % (hname(h), n)
        f = base + '.in'
        if s is not None: open(f, 'w').write(s); p = native(h, inputs=f, log=base + '.nlog')
        else: p = native(h, seed=seed * 1000 + int(n[4:]), log=base + '.nlog', rec=f)
        if not os.path.exists(f): return (n, 'none', None, p, None)
        if p.returncode == 77 and s is None: return (n, 'rejected', None, p, None)
        if p.returncode not in (0, 77): return (n, 'fail', open(f).read(), p, None)
        conc = [] if len(open(f).read()) % 2 else ['--concolic']
        q = run([exe, bc, '--entry=vp_main', '--jobs=1', '--deadline=120', '--out=' + base + '.json', '--inputs=' + f, '--logfile=' + base + '.slog'] + conc, timeout=200, check=False)
        if not os.path.exists(base + '.slog'): return (n, 'mismatch', 'no log from the encoding: ' + q.stdout[-300:], p, None)
        a, b = open(base + '.nlog').read(), open(base + '.slog').read()
        return (n, 'ok', same_log(a, b), p, len(a.splitlines()))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, st, info, p, nv in ex.map(one, cases):
            if st == 'rejected': rejected += 1; continue
            ran += 1
            if st == 'fail': failing.append((n, info, p))
            elif st == 'mismatch' or info: mism.append('%s: %s' % (n, info))
            elif nv: values += nv
    return dict(ran=ran, rejected=rejected, values=values, mismatches=mism, failing=failing)

def write_replay(pid, h, inputs, msg):
    d = V + '/evidence/replay'; os.makedirs(d, exist_ok=True)
    k = hashlib.sha256((hname(h) + inputs).encode()).hexdigest()[:8]
    f = '%s/%s-%s-%s.json' % (d, pid, hname(h), k)
    json.dump(dict(property=pid, harness=hname(h), inputs=inputs, message=msg, run='python3 /verif/bin/vp.py replay ' + f), open(f, 'w'), indent=1)
    return f

def findings(pid):
    f = V + '/known_findings.json'
    if not os.path.exists(f): return []
    return [x for x in json.load(open(f)).get('findings', []) if x['property'] == pid]

def check(pid, tier, only=None):
    import checks
    t0 = time.time(); C = checks.CHECKS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 850 if tier == 'quick' else 5400
    hs = [h for h in C['harnesses'] if (tier == 'thorough' or not h.get('thorough')) and not (tier == 'thorough' and h.get('quick_only'))]
    if only: hs = [h for h in C['harnesses'] if h['name'] == only]
    allfns = set(); cov = dict(explanation=C['explanation'], harnesses=[], bounds=C['bounds']); viol = []; errors = []; kf = []
    tot = dict(paths=0, queries=0, unsat=0, sat=0, unknown=0, real_queries=0, solver_s=0.0, asserts_concrete=0, asserts_simplified=0, asserts_solver=0, forks=0, assumed_out=0, insts=0)
    libs = sorted(set(x for h in hs for x in h_libs(h)))
    with cf.ThreadPoolExecutor(3) as ex: # the engine, the bitcode and the native objects
        list(ex.map(lambda f: f(), [engine, lambda: objs(libs + [V + '/engine/libmodels.cpp'], 'bc'), lambda: objs(libs + [V + '/harness/vp_native.cpp'], 'o')]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        nat = [ex.submit(build_native, h) for h in hs + C.get('finding_harnesses', [])]
        for r in ex.map(lambda h: (h, build_bc(h)), hs): r[0]['_bc'] = r[1]
        for n in nat: n.result()
    samples = []
    for h in hs:
        if viol: break # decided
        left = budget - (time.time() - t0) - 60
        if left < 20: errors.append('%s: no time left' % h['name']); continue
        res = symex(h, h['_bc'], int(min(left, h.get('deadline', 800 if tier == 'quick' else 4000))))
        e = dict(name=h['name'], bounds=h.get('bounds', ''), **{k: res.get(k) for k in list(tot) + ['status', 'max_query_s', 'wall_s', 'covers']})
        for k in tot: tot[k] += res.get(k) or 0
        allfns |= set(res.get('functions', []))
        rep = []
        for v in res['violations'][:3]:
            lines = v.split('\n'); msg = lines[0][4:] if lines[0].startswith('MSG ') else lines[0]
            ins = '\n'.join(l for l in lines if l and not l.startswith(('MSG ', 'AT '))) + '\n'
            f = tmpdir() + '/viol.in'; open(f, 'w').write(ins)
            p = native(h, inputs=f)
            if p.returncode not in (0, 77, 78, 79): rep.append((msg, ins, p))
            else: errors.append('%s: counterexample for "%s" does not reproduce natively (rc %d)' % (h['name'], msg, p.returncode)); e.setdefault('unreproduced', []).append(v[:2000])
        for msg, ins, p in rep:
            f = write_replay(pid, h, ins, msg + '\n' + p.stdout[-1500:]); viol.append((f, h['name'], msg))
        if res['status'] != 'ok' and not res['violations']: errors.append('%s: %s' % (h['name'], res.get('error') or res['status']))
        if res['status'] == 'ok':
            miss = [c for c in h.get('covers', []) if not res['covers'].get(c)]
            if miss: errors.append('%s: vacuous, never reached: %s' % (h['name'], ', '.join(miss)))
            if not (res['asserts_simplified'] + res['asserts_solver'] + res['asserts_concrete']): errors.append('%s: no assertion was reached' % h['name'])
            if not viol:
                val = validate(h, h['_bc'], res, seed, h.get('nrand', 24), h.get('nsamp', 12))
                e['native_validation'] = dict(runs=val['ran'], rejected_random_inputs=val['rejected'], logged_values_compared=val['values'])
                for m in val['mismatches'][:3]: errors.append('%s: encoding and compiled code disagree: %s' % (h['name'], m))
                for n, ins, p in val['failing'][:2]:
                    f = write_replay(pid, h, ins, 'native run failed: ' + p.stdout[-1500:]); viol.append((f, h['name'], 'native run failed: ' + p.stdout[-300:]))
                if val['ran'] == 0: errors.append('%s: no native validation run' % h['name'])
            for s in res.get('samples', [])[:2]: samples.append(dict(harness=h['name'], inputs=s.replace('\n', '; ')[:600]))
        cov['harnesses'].append(e)
        print('%s %s: %s, %d paths, %d queries (%.1f s in the solver), %d+%d+%d assertions, %.1f s' % (pid, h['name'], res['status'], res['paths'], res['queries'], res['solver_s'],
              res['asserts_concrete'], res['asserts_simplified'], res['asserts_solver'], res['wall_s'])); sys.stdout.flush()
    for k in findings(pid):
        h = [x for x in C['harnesses'] + C.get('finding_harnesses', []) if x['name'] == k['harness']][0]
        p = native(h, inputs=V + '/' + k['inputs'])
        if p.returncode not in (0, 77): print('KNOWN-FINDING: property=%s %s' % (pid, k['what'])); kf.append(k['what'])
        else: print('note: known finding no longer reproduces: %s' % k['what'])
    tot['solver_s'] = round(tot['solver_s'], 2)
    cov.update(tot); cov['functions_encoded_count'] = len(allfns)
    own = sorted(f for f in allfns if 'DRAMPower' in f)
    cov['functions_encoded'] = [x for x in demangle(own)][:400]; cov['samples'] = samples[:6]; cov['known_findings'] = kf
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=C.get('level', 'other'), coverage=cov, assumptions=C['assumptions'] + checks.TRUST, violations=len(viol), wall_s=round(time.time() - t0, 1),
                   errors=errors), open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for f, n, m in viol: print('VIOLATION property=%s replay=%s  (%s: %s)' % (pid, f, n, m.split('\n')[0][:200]))
    for e in errors: print('ERROR ' + e)
    return 1 if viol else (2 if errors else 0)

def demangle(names):
    if not names: return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return sorted(set(re.sub(r'\(.*', '', x) for x in p.stdout.split('\n') if x and not x.startswith('std::')))

def replay(f):
    import checks
    r = json.load(open(f)); C = checks.CHECKS[r['property']]
    h = [x for x in C['harnesses'] + C.get('finding_harnesses', []) if x['name'] == r['harness']][0]
    i = tmpdir() + '/replay.in'; open(i, 'w').write(r['inputs']); p = native(h, inputs=i); print(p.stdout); print('exit', p.returncode)
    return 0 if p.returncode in (0, 77) else 1

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    try:
        if a[0] == 'setup':
            engine(); objs(lib_files() + [V + '/engine/libmodels.cpp'], 'bc'); objs(lib_files() + [V + '/harness/vp_native.cpp'], 'o'); print('ok'); return 0
        if a[0] == 'replay': return replay(a[1])
        if a[0] == 'check':
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--tier' in a: tier = a[a.index('--tier') + 1]
            return check(a[1], tier, a[a.index('--only') + 1] if '--only' in a else None)
    except (ToolError, subprocess.TimeoutExpired) as e:
        print('ERROR', e); return 2
    return 2
if __name__ == '__main__': sys.exit(main())
