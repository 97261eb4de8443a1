"""CBMC jobs: bit-precise bounded model checking of the library sources (goto-cc compiles /repo's
current src/*.c with the same configuration and intrinsic shim as the symbolic executor)."""
import os, json, struct, subprocess, time, re


def parse_trace(p):
    wit, log = [], []
    for st in p.get('trace', []):
        if st.get('stepType') != 'assignment':
            continue
        lhs = st.get('lhs', '')
        if not lhs.startswith('vp_') or not st.get('sourceLocation', {}).get('function', '').startswith('vp_'):
            continue
        b = st['value'].get('binary')
        if lhs in ('vp_wit_i', 'vp_wit_u', 'vp_wit_U'):
            v = int(b, 2)
            if lhs == 'vp_wit_i':
                wit.append(['i', v - (1 << len(b)) if b[0] == '1' else v])
            else:
                wit.append([lhs[-1], v])
        elif lhs == 'vp_logv':
            log.append(struct.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0].hex())
    return wit, log


def run_job(j, tier, work, REPO, VERIF):
    import driver
    t0 = time.time()
    out = dict(job=j['name'], harness=j['h'], engine='cbmc', bounds=j.get('bounds', ''), defines=driver.defs(j, tier), complete=False,
               queries=0, solver_s=0.0, reach=[], steps=0, vccs=0, variables=0, clauses=0, obligations=0, discharged=0, functions=[])
    budget = j.get('budget', 200)
    budget = budget.get(tier, 200) if isinstance(budget, dict) else budget
    try:
        src = driver.make_variant(j.get('v', 'real'), work)
        gb = os.path.join(work, 'cb_%s.gb' % j['name'])
        D = ['-D%s=%s' % kv for kv in driver.defs(j, tier).items()]
        inc = ['-I', VERIF + '/shim', '-I', VERIF + '/harness', '-I', VERIF + '/cfg', '-I', REPO + '/include', '-I', src]
        files = [f for f in driver.csources(src) if os.path.basename(f) in j.get('files', os.path.basename(f))]
        driver.run(['goto-cc', '--function', 'harness', '-DHAVE_CONFIG_H', '-D__CPROVER__', '-fno-builtin', '-w'] + D + inc +
                   [os.path.join(VERIF, 'harness', j['h']), os.path.join(VERIF, 'harness', 'vp_cbmc.c')] + files + ['-o', gb])
        driver.run(['goto-instrument', '--drop-unused-functions', gb, gb + '2'])
        gb += '2'
        cmd = ['cbmc', gb, '--json-ui', '--trace', '--unwind', str(j.get('unwind', 8)), '--unwinding-assertions',
               '--no-malloc-may-fail', '--verbosity', '8', '--object-bits', '12'] + j.get('flags', [])
        deeper = []
        while 1:
            r = subprocess.run(cmd + (['--unwindset', ','.join(deeper)] if deeper else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(1, budget - (time.time() - t0)))
            data = json.loads(r.stdout)
            # loops the given bound does not cover: once more, as deep as they go
            more = ['%s.%s:%d' % (m.group(1), m.group(2), 20000) for x in data if 'result' in x for p in x['result'] if p['status'] != 'SUCCESS'
                    for m in [re.match(r'(.*)\.unwind\.(\d+)$', p.get('property', ''))] if m]
            more = [x for x in more if x not in deeper]
            if not more:
                break
            deeper += more
        out['deeper'] = deeper
    except subprocess.TimeoutExpired:
        out['note'] = 'timeout'
        out['wall'] = round(time.time() - t0, 2)
        return dict(summary=out, cands=[])
    except driver.Fail as e:
        # does the plain compiler take it? then the front end is the limit
        out['note'] = 'goto-cc: ' + str(e)[-600:]
        return dict(summary=out, cands=[])
    except ValueError as e:
        out['note'] = 'cbmc output: %s %s' % (e, r.stderr[-400:])
        return dict(summary=out, cands=[])
    res = None
    funcs = set()
    for m in data:
        if 'result' in m:
            res = m['result']
        t = m.get('messageText', '')
        x = re.match(r'Runtime Solver: ([\d.e+-]+)s', t) or re.match(r'Runtime decision procedure: ([\d.e+-]+)s', t)
        if x:
            if t.startswith('Runtime Solver'):
                out['queries'] += 1
                out['solver_s'] += float(x.group(1))
        x = re.match(r'size of program expression: (\d+) steps', t)
        if x:
            out['steps'] = int(x.group(1))
        x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        if x:
            out['vccs'] = int(x.group(1))
        x = re.match(r'(\d+) variables, (\d+) clauses', t)
        if x:
            out['variables'], out['clauses'] = int(x.group(1)), int(x.group(2))
        if m.get('messageType') == 'ERROR':
            out['note'] = t[:300]
    cands = []
    traces = []
    if res is None:
        out['note'] = out.get('note', 'no result') + r.stderr[-300:]
        return dict(summary=out, cands=[])
    bad_unwind = False
    if os.environ.get('VP_DEBUG'):
        print([(p.get('property'), p.get('description'), p['status']) for p in res if p['status'] != 'SUCCESS'])
    for p in res:
        d = p.get('description', '')
        fn = p.get('sourceLocation', {}).get('function', '')
        if p.get('sourceLocation', {}).get('file', '').startswith(src):
            funcs.add(fn)
        if 'same object' in d:
            continue
        if d.startswith('vp-reach'):
            if p['status'] == 'FAILURE':
                out['reach'].append(d[10:])
                wit, log = parse_trace(p)
                traces.append(dict(real=False, witness=wit, log=log))
            else:
                bad_unwind = True
            continue
        out['obligations'] += 1
        if p['status'] == 'SUCCESS':
            out['discharged'] += 1
            continue
        if 'no body for callee' in d:
            bad_unwind = True
            out['note'] = d
            continue
        if 'unwinding assertion' in d or 'recursion unwinding' in d:
            bad_unwind = True
            continue
        if p['status'] != 'FAILURE':
            bad_unwind = True
            continue
        wit, _ = parse_trace(p)
        if os.environ.get('VP_DEBUG'):
            json.dump(p, open(os.environ['VP_DEBUG'] + '.trace', 'w'), indent=1)
        cands.append(dict(kind='assert' if d.startswith('vp: ') else 'memory', msg=d.replace('vp: ', ''), witness=wit))
    out['functions'] = sorted(f for f in funcs if f)
    out['complete'] = not bad_unwind
    if bad_unwind:
        out.setdefault('note', 'unwinding bound too small or scenario unreachable')
    out['solver_s'] = round(out['solver_s'], 3)
    out['wall'] = round(time.time() - t0, 2)
    return dict(summary=out, cands=cands, traces=traces)
