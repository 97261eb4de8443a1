"""Check driver: encode /repo's current sources, explore every job of a property symbolically,
replay every counterexample on the real code, write the evidence file.

usage: driver.py PROPERTY [quick|thorough]
"""
import warnings
warnings.filterwarnings('ignore', category=DeprecationWarning)
import os, sys, json, time, re, subprocess, tempfile, shutil, signal, gc, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)

CLANG = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-discard-value-names', '-w',
         '-DHAVE_CONFIG_H']
NATIVE = ['gcc', '-O1', '-g', '-w', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=pointer-overflow',
          '-fno-sanitize-recover=all', '-ffp-contract=off', '-DHAVE_CONFIG_H']
NCPU = 8


class Fail(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Fail(' '.join(cmd) + '\n' + r.stdout[-3000:])
    return r.stdout


# ------------------------------------------------------------------ variants
def shrink_table(text, inc, coefs):
    """replace increment and coefficients of a generated coefficient header"""
    m = re.search(r'coeff_t\s+coeffs\s*\[\s*(\d+)\s*\]', text)
    d = re.search(r'=\s*\{\s*(\d+)\s*,\s*(?:/\*.*?\*/\s*)?\{', text, re.S)
    if not m or not d:
        raise Fail('coefficient header layout changed')
    end = text.index('}', d.end())
    return (text[:m.start(1)] + str(len(coefs)) + text[m.end(1):d.start(1)] + str(inc) + text[d.end(1):d.end()] +
            '\n' + ', '.join('%.9g' % c for c in coefs) + '\n' + text[end:])


SMALL = {   # increment, coefficients (last one is the guard entry, as in the real tables)
    'fastest': (2, [0.5, 0.4375, 0.3125, 0.15625, 0.0625, 0.0, 0.0]),
    'mid_qual': (3, [0.625, 0.5, 0.375, 0.21875, 0.125, -0.0625, 0.0, 0.0]),
    'high_qual': (2, [0.5, 0.40625, 0.25, 0.0, 0.0]),
}


def make_variant(name, work):
    """returns source directory"""
    src = os.path.join(REPO, 'src')
    if name == 'real':
        return src
    d = os.path.join(work, 'src_' + name)
    if os.path.isdir(d):
        return d
    shutil.copytree(src, d)
    for k, (inc, co) in SMALL.items():
        p = os.path.join(d, k + '_coeffs.h')
        if not os.path.exists(p):
            continue
        t = open(p).read()
        open(p, 'w').write(shrink_table(t, inc, co))
    if name == 'tiny':
        # small tables and a narrow ratio range: the history buffer then holds a few dozen frames
        for f, pat, new in (('common.h', r'(#define\s+SRC_MAX_RATIO\s+)256\b', r'\g<1>2'), ('src_sinc.c', r'\b4096\b', '16')):
            p = os.path.join(d, f)
            t = open(p).read()
            open(p, 'w').write(re.sub(pat, new, t))
    return d


def csources(src):
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.c'))


def build_ir(variant, work):
    src = make_variant(variant, work)
    out = os.path.join(work, 'lib_%s.ll' % variant)
    inc = ['-I', VERIF + '/shim', '-I', VERIF + '/cfg', '-I', REPO + '/include', '-I', src]

    def one(f):
        o = os.path.join(work, variant + '_' + os.path.basename(f) + '.ll')
        run(CLANG + inc + ['-S', '-emit-llvm', f, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        os_ = list(ex.map(one, csources(src)))
    run(['llvm-link-18', '-S', '-o', out + '.raw'] + os_)
    run(['opt-18', '-passes=sroa,mem2reg', '-S', out + '.raw', '-o', out])
    return out


def build_harness_ir(job, tier, work):
    o = os.path.join(work, 'h_%s.ll' % job['name'])
    h = os.path.join(VERIF, 'harness', job['h'])
    D = ['-D%s=%s' % kv for kv in defs(job, tier).items()]
    run(CLANG + D + ['-DVP_SYM', '-I', VERIF + '/harness', '-I', VERIF + '/shim', '-I', REPO + '/include', '-I', VERIF + '/cfg', '-I', make_variant(job.get('v', 'real'), work), '-S', '-emit-llvm', h, '-o', o + '.raw'])
    run(['opt-18', '-passes=sroa,mem2reg', '-S', o + '.raw', '-o', o])
    t = open(o).read()
    # harness-private constants must not collide with the library's
    t = re.sub(r'@(\.str|__PRETTY_FUNCTION__\.|__const\.|switch\.table)', r'@.h\1', t)
    own = set(re.findall(r'^define internal [^@]*@([\w.$]+)\(', t, re.M)) | set(re.findall(r'^@([\w.$]+) = internal', t, re.M))
    t = re.sub(r'@([\w.$]+)', lambda m: '@h..' + m.group(1) if m.group(1) in own else m.group(0), t)
    return t


def defs(job, tier):
    d = dict(job.get('D', {}))
    d.update(job.get('D' + tier[0], {}))
    return d


# ------------------------------------------------------------------ native replay builds
class Native:
    def __init__(s, work):
        s.work = work
        s.libs = {}
        s.bins = {}

    def lib(s, variant, mode):
        k = (variant, mode)
        if k in s.libs:
            return s.libs[k]
        src = make_variant(variant, s.work)
        inc = ['-I', VERIF + '/cfg', '-I', REPO + '/include', '-I', src]
        cc = s.cc(mode)

        def one(f):
            o = os.path.join(s.work, 'n_%s_%s_%s.o' % (variant, mode, os.path.basename(f)))
            run(cc + inc + ['-c', f, '-o', o])
            if mode != 'tsan':
                run(['objcopy'] + sum([['--redefine-sym', '%s=vplib_%s' % (x, x)] for x in ('malloc', 'calloc', 'realloc', 'free')], []) + [o])
            return o
        with ThreadPoolExecutor(8) as ex:
            s.libs[k] = list(ex.map(one, csources(src)))
        return s.libs[k]

    def cc(s, mode):
        if mode == 'asan':
            return NATIVE
        if mode == 'plain':
            return ['gcc', '-O2', '-w', '-ffp-contract=off', '-DHAVE_CONFIG_H']
        if mode == 'msan':
            return ['clang-18', '-O1', '-g', '-w', '-fsanitize=memory', '-ffp-contract=off', '-DHAVE_CONFIG_H']
        return ['gcc', '-O1', '-g', '-w', '-fsanitize=thread', '-ffp-contract=off', '-DHAVE_CONFIG_H', '-DVP_TSAN']

    def bin(s, job, tier, mode):
        k = (job['name'], mode)
        if k in s.bins:
            return s.bins[k]
        objs = s.lib(job.get('v', 'real'), mode)
        out = os.path.join(s.work, 'bin_%s_%s' % k)
        D = ['-D%s=%s' % kv for kv in defs(job, tier).items()]
        if mode == 'msan':
            D.append('-DVP_MSAN')
        inc = ['-I', VERIF + '/harness', '-I', VERIF + '/cfg', '-I', REPO + '/include', '-I', make_variant(job.get('v', 'real'), s.work)]
        if mode == 'tsan':
            D.append('-DVP_TSAN')
        run(s.cc(mode) + D + inc + [os.path.join(VERIF, 'harness', job['h']), os.path.join(VERIF, 'native', 'vp_native.c')] + objs + ['-lm', '-lpthread', '-o', out])
        s.bins[k] = out
        return out

    def exec(s, binp, wit, timeout=20, log='/dev/null'):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=0', MSAN_OPTIONS='exit_code=77', TSAN_OPTIONS='exitcode=66')
        try:
            r = subprocess.run([binp, wit, log, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout + 20)
            return r.returncode, r.stdout.decode('latin1')[-2500:]
        except subprocess.TimeoutExpired:
            return 44, 'timeout'


def wit_lines(w, over=None):
    out = []
    for n, e in enumerate(w):
        if e[0] == 'i':
            out.append('i %d' % e[1])
        elif e[0] == 'r':
            v = e[1] if over is None else over.get(n, e[1])
            out.append('r ' + (v.hex() if v == v and abs(v) != float('inf') else repr(v)))
        elif e[0] in 'fuU':
            out.append('%s %d' % (e[0], e[1]))
        elif e[0] == 's':
            xs = e[1]
            if isinstance(xs, dict):
                items = list(xs.items())
            else:
                items = [(i, v) for i, v in enumerate(xs) if v is not None]
            out.append('s %d ' % len(items) + ' '.join('%d %s' % (int(i), float(v).hex()) for i, v in items))
    return '\n'.join(out) + '\n'


def nextafter_n(v, n):
    import math
    for _ in range(abs(n)):
        v = math.nextafter(v, math.inf if n > 0 else -math.inf)
    return v


def replay(nat, job, tier, cand, work, tag):
    """run the candidate natively; returns (reproduced, witness path, output, mode)"""
    modes = ['asan']
    if cand['kind'] == 'uninitialised':
        modes = ['asan', 'msan']
    if cand['kind'] == 'global-write':
        modes = ['tsan']
    w = cand['witness']
    rs = [n for n, e in enumerate(w) if e[0] == 'r']
    trials = [None]
    if rs:
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        for k in (0, 1, -1, 2, -2, 3, -3, 5, -5, 9, -9, 17, -17):
            for alt in range(2):
                o = {}
                for n in rs:
                    e = w[n]
                    base = e[2] if alt and len(e) > 2 else e[1]
                    o[n] = nextafter_n(base, k)
                trials.append(o)
        for _ in range(12):
            trials.append({n: w[n][1] * (1 + rng.uniform(-1, 1) * 10.0 ** -rng.randint(6, 15)) for n in rs})
    seen = set()
    for i, o in enumerate(trials):
        txt = wit_lines(w, o)
        if txt in seen:
            continue
        seen.add(txt)
        wp = os.path.join(work, 'wit_%s_%d' % (tag, i))
        open(wp, 'w').write(txt)
        for mode in modes:
            try:
                b = nat.bin(job, tier, mode)
            except Fail as e:
                return False, wp, str(e), mode
            rc, out = nat.exec(b, wp)
            if rc not in (0, 2, 3):
                return True, wp, out, mode
    return False, wp, out, modes[-1]


# ------------------------------------------------------------------ exploration
def load_known():
    k = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) job=(\S+) msg="([^"]*)"', l)
            if m:
                k.append(m.groups())
    return k


def start_job(job, tier, work, libmods, outp, pipe):
    """fork a root process exploring the job"""
    pid = os.fork()
    if pid:
        return pid
    try:
        os.setpgid(0, 0)
        import resource
        import sym, prims, ir
        sys.setrecursionlimit(10000)
        sym.J.shared = pipe
        sym.J.max_viol = job.get('max_viol', 4)
        lib = libmods[job.get('v', 'real')]
        t = build_harness_ir(job, tier, work)
        lib.parse(t, 'harness')
        sym.reset_ctx()
        prog = prims.Program(lib)
        if job.get('D', {}).get('CONC'):
            sym.C.conc_limit = job['D']['CONC']
        sym.C.mag = float(job.get('D', {}).get('MAG', 1.0))
        gc.collect()
        gc.disable()
        gc.freeze()
        budget = job.get('budget', {}).get(tier, 60) if isinstance(job.get('budget'), dict) else job.get('budget', 60)
        prims.explore(prog, '@harness', outp, work, budget, trace_every=job.get('trace_every', 5), root=True)
    except BaseException as e:
        import traceback
        with open(outp, 'a') as f:
            f.write(json.dumps(dict(status='engine', why='setup: ' + repr(e)[:300] + traceback.format_exc()[-1200:])) + '\n')
        os.write(pipe[1], b'x')
    finally:
        os._exit(0)


def compiled_functions(prog):
    return [n for n, f in prog.mod.funcs.items() if f.code is not None and f.module == 'lib']


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:]
    t0 = time.time()
    import jobs as J_
    P = J_.PROPS[prop]
    jobs = [dict(j) for j in P['jobs'] if tier in j.get('tiers', ('quick', 'thorough')) and (not only or j['name'] in only)]
    total = P.get('total', {}).get(tier, 300 if tier == 'quick' else 780)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
    code = 0
    try:
        code = check(prop, tier, P, jobs, total, work, t0, bool(only))
    except Fail as e:
        # the tree does not build for the encoding: nothing decided
        print('INCONCLUSIVE %s: %s' % (prop, e))
        write_evidence(prop, tier, P, dict(error=str(e)[:2000]), [], t0, 0)
        code = 0
    except Exception as e:
        import traceback
        print('INCONCLUSIVE %s: %s' % (prop, traceback.format_exc()[-3000:]))
        write_evidence(prop, tier, P, dict(error=traceback.format_exc()[-3000:]), [], t0, 0)
        code = 0
    finally:
        if os.environ.get('VP_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, P, jobs, total, work, t0, only):
    import ir, sym, prims
    import meta
    META = meta.M.get(prop, {})
    results = {}
    cands = []
    cb = [j for j in jobs if j.get('engine') == 'cbmc']
    sj = [j for j in jobs if j.get('engine') != 'cbmc']
    nat = Native(work)
    t_enc = time.time()
    libmods = {}
    for v in sorted(set(j.get('v', 'real') for j in sj)):
        m = ir.Module()
        m.parse(open(build_ir(v, work)).read(), 'lib')
        libmods[v] = m
    t_enc = time.time() - t_enc
    # shared token pipe
    r, w = os.pipe()
    os.set_blocking(r, False)
    ntok = NCPU
    os.write(w, b'x' * ntok)
    deadline = t0 + total
    running = {}
    pend = list(sj)
    cbp = []
    if cb:
        import cbmc
        for v in sorted(set(j.get('v', 'real') for j in cb)):
            make_variant(v, work)
        cbpool = ThreadPoolExecutor(4)
        cbp = [(j, cbpool.submit(cbmc.run_job, j, tier, work, REPO, VERIF)) for j in cb]
    gc.freeze()
    while pend or running:
        while pend and time.time() < deadline:
            try:
                if not os.read(r, 1):
                    break
            except BlockingIOError:
                break
            j = pend.pop(0)
            j['out'] = os.path.join(work, 'res_%s.jsonl' % j['name'])
            j['t0'] = time.time()
            b = j.get('budget', 60)
            b = b.get(tier, 60) if isinstance(b, dict) else b
            j['budget'] = min(b, max(5, deadline - time.time()))
            running[start_job(j, tier, work, libmods, j['out'], (r, w))] = j
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            running.pop(pid)['t1'] = time.time()
        elif not pid:
            time.sleep(0.02)
        now = time.time()
        for pid, j in list(running.items()):
            if now > j['t0'] + j['budget'] + 40:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                j['killed'] = True
        if pend and now >= deadline:
            for j in pend:
                j['skipped'] = True
            pend = []
    # ---- collect
    summ = dict(paths=0, ok=0, assume=0, timeout=0, stopped=0, engine=0, nq=0, tq=0.0, nbranch=0, nfork=0, nassert=0, nsynt=0, unk=0, obligations=0, discharged=0)
    perjob = []
    traces = []
    funcs = set()
    for j in sj:
        pj = dict(job=j['name'], harness=j['h'], tables=j.get('v', 'real'), bounds=j.get('bounds', ''), defines=defs(j, tier), paths=0, ok=0, assume=0, timeout=0, stopped=0, engine=0, violations=0, reach=set(), errors={})
        if j.get('skipped') or not os.path.exists(j.get('out', '')):
            pj['skipped'] = True
            pj['reach'] = []
            perjob.append(pj)
            continue
        last = set()
        for l in open(j['out']):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['status'] == 'funcs':
                funcs |= set(d['funcs'])
                continue
            if d['status'] == 'violation':
                cands.append((j, d))
                pj['violations'] += 1
                continue
            pj['paths'] += 1
            summ['paths'] += 1
            st = d['status']
            if st in ('viol', 'infeasible'):
                st = 'assume' if st == 'infeasible' else 'viol'
            pj[st] = pj.get(st, 0) + 1
            summ[st] = summ.get(st, 0) + 1
            for k in ('nq', 'tq', 'nbranch', 'nfork', 'nassert', 'nsynt', 'unk'):
                summ[k] += d.get(k, 0)
            pj['reach'] |= set(d.get('reach', []))
            funcs |= set(d.get('funcs', []))
            if st == 'engine':
                w_ = d.get('why', '')
                pj['errors'][w_[:900]] = pj['errors'].get(w_[:900], 0) + 1
            if d.get('trace'):
                traces.append((j, d['trace']))
        pj['reach'] = sorted(pj['reach'])
        miss = [x for x in j.get('reach', []) if x not in pj['reach']]
        if miss:
            pj['unreached'] = miss
        pj['complete'] = not (pj['timeout'] or pj['engine'] or j.get('killed') or pj['stopped'] or miss or not pj['ok'])
        pj['killed'] = bool(j.get('killed'))
        pj['wall'] = round(j.get('t1', time.time()) - j['t0'], 2)
        perjob.append(pj)
    # ---- CBMC jobs
    for j, fu in cbp:
        d = fu.result()
        perjob.append(d['summary'])
        summ['steps'] = summ.get('steps', 0) + d['summary'].get('steps', 0)
        summ['vccs'] = summ.get('vccs', 0) + d['summary'].get('vccs', 0)
        traces += [(j, t) for t in d.get('traces', [])]
        for c in d['cands']:
            cands.append((j, c))
        summ['nq'] += d['summary'].get('queries', 0)
        summ['tq'] += d['summary'].get('solver_s', 0)
        summ['obligations'] += d['summary'].get('obligations', 0)
        summ['discharged'] += d['summary'].get('discharged', 0)
        funcs |= set(d['summary'].get('functions', []))
    # ---- replay candidates
    viols = []
    unrepro = []
    known = load_known()
    kf = []
    done = {}
    for n, (j, c) in enumerate(cands):
        key = (j['name'], c['kind'], c['msg'])
        if done.get(key, 0) >= 3 or (key in done and done[key] < 0):
            continue
        if len(viols) >= 3:
            break
        ok, wp, out, mode = replay(nat, j, tier, c, work, '%s_%d' % (j['name'], n))
        rec = dict(job=j['name'], kind=c['kind'], msg=c['msg'], mode=mode, native=out[-800:])
        if ok:
            done[key] = -1
            hit = [k for k in known if k[0] == prop and k[1] == j['name'] and k[2] in c['msg']]
            if hit:
                kf.append((hit[0], rec))
                continue
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, '%s_%s_%d.json' % (prop, j['name'], len(viols)))
            json.dump(dict(rec, property=prop, tier=tier, witness=open(wp).read(), harness=j['h'], defines=defs(j, tier), tables=j.get('v', 'real'),
                           how='witness values in call order of the vp_* primitives; rebuild with engine/driver.py and run the native harness on it'), open(rp, 'w'), indent=1)
            viols.append((rp, rec))
        else:
            done[key] = done.get(key, 0) + 1
            unrepro.append(rec)
    # ---- validate sampled complete paths against the implementation
    val = dict(run=0, agree=0, exact=0, skipped=0)
    mism = []
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    rng.shuffle(traces)
    maxtr = P.get('traces', {}).get(tier, 40 if tier == 'quick' else 120)
    if not viols:
        def vt(a):
            n, (j, tr) = a
            try:
                return j, tr, trace_check(nat, j, tier, tr, work, n)
            except (Fail, OSError) as e:
                return j, tr, ('skipped', str(e)[-500:])
        tsel = traces[:maxtr]
        for j in {id(j): j for j, _ in tsel}.values():
            try:
                nat.bin(j, tier, 'asan')
            except Fail as e:
                mism.append(dict(job=j['name'], why='native build: ' + str(e)[-600:]))
        with ThreadPoolExecutor(8) as ex:
            for j, tr, (st, why) in ex.map(vt, list(enumerate(tsel))):
                if st == 'skipped':
                    val['skipped'] += 1
                    continue
                val['run'] += 1
                if st == 'exact':
                    val['agree'] += 1
                    val['exact'] += 1
                elif st == 'agree':
                    val['agree'] += 1
                else:
                    mism.append(dict(job=j['name'], why=why))
    samples = [dict(job=j['name'], witness=[e for e in tr['witness'] if e[0] != 's'][:20], log=tr['log'][:8]) for j, tr in traces[:4]]
    cov = dict(states=summ['paths'] + summ.get('steps', 0), transitions=summ['nbranch'] + summ.get('vccs', 0),
               states_are='completed symbolic paths plus CBMC symbolic-execution steps', transitions_are='branch decisions plus CBMC verification conditions', traces_validated_against_impl=val['agree'], samples=samples,
               paths_completed=summ['ok'], paths_cut_by_assumption=summ['assume'], paths_timeout=summ['timeout'], paths_stopped=summ['stopped'],
               paths_engine_limit=summ['engine'], forks=summ['nfork'], assertions=summ['nassert'], assertions_by_rewriting=summ['nsynt'],
               solver_queries=summ['nq'], solver_seconds=round(summ['tq'], 2), solver_unknown=summ['unk'], encode_seconds=round(t_enc, 2),
               cbmc_obligations=summ['obligations'], cbmc_discharged=summ['discharged'],
               functions_encoded=sorted(f.lstrip('@') for f in funcs), candidates=len(cands), candidates_not_reproduced=unrepro[:5],
               trace_validation=val, trace_mismatches=mism[:5], jobs=perjob, bounds=META.get('bounds', ''), outside=META.get('outside', ''), method=META.get('method', ''), oracle=META.get('oracle', ''),
               exhaustive=bool(perjob) and all(p.get('complete') for p in perjob))
    if not samples:
        cov['samples'] = [dict(job=p['job'], reach=p.get('reach', [])) for p in perjob[:4]]
    write_evidence(prop, tier, P, cov, viols, t0, len(viols))
    inc = [p['job'] for p in perjob if not p.get('complete')]
    print('%s %s: jobs %d (inconclusive: %s) paths %d ok %d queries %d solver %.1fs asserts %d traces %d/%d candidates %d unreproduced %d wall %.1fs' % (
        prop, tier, len(perjob), ','.join(inc) or '-', summ['paths'], summ['ok'], summ['nq'], summ['tq'], summ['nassert'], val['agree'], val['run'], len(cands), len(unrepro), time.time() - t0))
    for p in perjob:
        if not p.get('complete'):
            print('  inconclusive', p['job'], {k: p[k] for k in ('paths', 'ok', 'timeout', 'engine', 'stopped', 'killed', 'unreached', 'skipped', 'errors', 'note') if p.get(k)})
    for m in mism[:5]:
        print('  trace mismatch', m)
    for u in unrepro[:5]:
        print('  not reproduced', u['job'], u['kind'], u['msg'], u['native'][-150:])
    for (k, rec) in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, rec['msg']))
    for rp, rec in viols:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s [%s] %s | %s' % (rec['job'], rec['kind'], rec['msg'], rec['native'].strip()[-300:]))
    return 1 if viols else 0


def trace_check(nat, j, tier, tr, work, n):
    b = nat.bin(j, tier, 'asan')
    wp = os.path.join(work, 'tr_%d' % n)
    open(wp, 'w').write(wit_lines(tr['witness']))
    rc, out = nat.exec(b, wp, log=wp + '.log')
    if rc == 3:
        return 'skipped', 'real-valued witness left the path'
    if rc != 0:
        if tr['real']:
            return 'skipped', 'rounding'
        return 'bad', 'native exit %d: %s' % (rc, out[-300:])
    log = [float.fromhex(l) if 'x' in l else float(l) for l in open(wp + '.log') if l[0] != '#']
    exp = [None if x is None else float.fromhex(x) for x in tr['log']]
    if len(log) != len(exp):
        if tr['real']:
            return 'skipped', 'rounding'
        return 'bad', 'log length %d vs %d' % (len(log), len(exp))
    ex = True
    for i, (a, b_) in enumerate(zip(log, exp)):
        if b_ is None or (a != a and b_ != b_):
            continue
        if a != b_:
            ex = False
            if abs(a - b_) > 1e-4 * max(1, abs(b_)):
                if tr['real']:
                    return 'skipped', 'rounding'
                return 'bad', 'entry %d: native %r engine %r' % (i, a, b_)
            if not tr['real']:
                return 'bad', 'entry %d not bit exact: native %r engine %r' % (i, a, b_)
    return ('exact' if ex else 'agree'), ''


def write_evidence(prop, tier, P, cov, viols, t0, nv):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov.setdefault('states', 0)
    cov.setdefault('transitions', 0)
    cov.setdefault('traces_validated_against_impl', 0)
    cov.setdefault('samples', [])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov,
              assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nv)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


COMMON_ASSUMPTIONS = [
    'clang -O0 LLVM IR of the current sources is the encoded program; intrinsics replaced by shim/*.h',
    'heap objects are distinct and malloc succeeds unless the harness enables faults',
    'sample values lie in [-1,1] and are finite',
]

if __name__ == '__main__':
    main()
