#!/usr/bin/env python3
"""ccv - contract checker: discharges, function by function, the verification conditions of
the contracts in /verif/contracts against the current sources in /repo/asn1crt.

usage: ccv.py check <PROPERTY>          decide one property (VERIF_TIER, VERIF_SEED from the environment)
       ccv.py fn <FUNCTION>...          debug: discharge single contracts
       ccv.py setup                     compile everything once (sanity)
"""
import os, sys, re, json, time, subprocess, tempfile, shutil, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import dsl
REPO = os.environ.get('CCV_REPO', '/repo')
CRT = os.path.join(REPO, 'asn1crt')
CONTRACTS = os.path.join(VERIF, 'contracts')
SRCS = ['asn1crt.c', 'asn1crt_encoding.c', 'asn1crt_encoding_uper.c', 'asn1crt_encoding_acn.c', 'asn1crt_encoding_ber.c', 'asn1crt_encoding_xer.c']
JOBS = int(os.environ.get('CCV_JOBS', '8'))
SEM = threading.BoundedSemaphore(JOBS)       # solver processes at a time
CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--undefined-shift-check', '--unwinding-assertions', '--no-standard-checks']
# generated-property classes that are switched off, with the reason (repeated in the evidence)
IGNORED = [
    (re.compile(r'shift operand is negative'), 'left shift of a negative signed value: defined as multiplication by a power of two by gcc/clang'),
    (re.compile(r'arithmetic overflow on signed shl'), 'signed left shift into the sign bit: wraps on gcc/clang'),
]

STOP = threading.Event()                     # a violation with a failing input is established: the rest need not run
LIMIT = [None]                               # absolute time after which no solver run goes on
LIVE = set()
def stop_all():
    STOP.set()
    for p in list(LIVE):
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass

def sh(cmd, timeout=600, cwd=None, mem_gb=None, group=None):
    if STOP.is_set(): return 'timeout', '', 'stopped'
    if LIMIT[0]: timeout = min(timeout, LIMIT[0] - time.time())
    if timeout <= 0: return 'timeout', '', 'time budget used up'
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre)
    LIVE.add(p)
    if group is not None: group.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        if STOP.is_set() and p.returncode < 0: return 'timeout', '', 'stopped'
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 'timeout', o.decode(errors='replace'), e.decode(errors='replace')
    finally: LIVE.discard(p)

# functions defined in headers: one file-local copy per translation unit
def UNHDR(t): return re.sub(r'__CPROVER_file_local_\w+?_h_', '', t)

class ToolError(Exception): pass

class Config:
    """one build configuration of the runtime"""
    def __init__(s, name='w8', defs=()):
        s.name, s.defs = name, list(defs)

CONFIGS = {'w8': Config('w8'), 'w4': Config('w4', ['-DWORD_SIZE=4']), 'fp4': Config('fp4', ['-DFP_WORD_SIZE=4']),
           'stream': Config('stream', ['-DASN1SCC_STREAMING'])}

LEVELS = ('con', 'abs', 'wid', 'wat', 'big', 'dec')
LEVDEF = {'con': [], 'abs': ['-DCCV_ABS'], 'wid': ['-DCCV_ABS', '-DCCV_WID'], 'wat': ['-DCCV_ABS', '-DCCV_WAT'], 'big': ['-DCCV_BIG'], 'dec': ['-DCCV_ABS', '-DCCV_WID', '-DCCV_DEC']}

class Build:
    """goto binaries of the current /repo sources plus the generated verification conditions"""
    def __init__(s, work, cfg, contracts):
        s.work, s.cfg = work, cfg
        s.contracts = {c.name: c for c in contracts if not getattr(c, 'cfgs', None) or cfg.name in c.cfgs}
        s.loops = True
        s._compiled = {}; s._natobj = {}; s._natlock = threading.Lock()

    def _goto_srcs(s, kind):
        """kind nl: the sources as every build compiles them; con / abs: with the loop contracts of that level"""
        out = []
        def one(src):
            gb = os.path.join(s.work, '%s.%s.gb' % (src, kind))
            cmd = ['goto-cc', '-c', '--export-file-local-symbols', '-I', CRT, *s.cfg.defs]
            if kind != 'nl': cmd += ['-DASN1SCC_VERIF', '-include', os.path.join(CONTRACTS, 'loops.h')] + LEVDEF[kind]
            # a loop contract may name a scratch variable that the code now declares inside the loop body (or no longer has):
            # an unused global of that name stands in for it - what an invariant says about it still has to be proved
            miss = []
            while True:
                r = sh(cmd + [os.path.join(CRT, src), '-o', gb])
                m = kind != 'nl' and r[0] != 0 and len(miss) < 8 and re.search(r"failed to find symbol '(\w+)'", UNHDR(r[1] + r[2]))
                if not m or m.group(1) in miss: return src, gb, r
                miss.append(m.group(1)); dh = gb + '.miss.h'
                open(dh, 'w').write(''.join('int %s;\n' % x for x in miss))
                if len(miss) == 1: cmd += ['-include', dh]
        with ThreadPoolExecutor(JOBS) as ex:
            for src, gb, (rc, o, e) in ex.map(one, [x for x in SRCS if os.path.exists(os.path.join(CRT, x))]):
                if rc != 0: raise ToolError('goto-cc %s failed:\n%s%s' % (src, o, e))
                out.append(gb)
        return out

    def gen_cbmc(s, lev):
        o = ['#define %s 1' % d[2:] for d in LEVDEF[lev]] + [dsl.CBMC_PRELUDE]
        for n in s.need:
            c = s.contracts[n]
            o.append('/* ---- %s ---- */' % c.name)
            o.append('#undef IN_W\n#define IN_W(p) in_%s__##p##_w' % c.name)
            o.append(dsl.gen_common(c)); 
            if not c.lemma: o.append(dsl.gen_stub(c, lev))
            if c.level == lev: o.append(dsl.gen_harness(c, lev))
        p = os.path.join(s.work, 'vc_%s.c' % lev); open(p, 'w').write('\n'.join(o)); return p

    def build(s, roots=None):
        """roots: contracts to be decided; only what they depend on is generated"""
        if s._compiled: return
        hdr = os.path.join(s.work, 'hdr.c'); open(hdr, 'w').write('#include "spec.h"\n')
        rc, o, e = sh(['goto-cc', '-c', '--export-file-local-symbols', '-I', CRT, '-I', CONTRACTS, *s.cfg.defs, hdr, '-o', hdr + '.gb'])
        if rc != 0: raise ToolError('goto-cc headers failed:\n' + o + e)
        srcs = {'nl': s._goto_srcs('nl')}
        s.absent = s._drop_absent(srcs['nl'] + [hdr + '.gb'])
        s.graph = {}
        with ThreadPoolExecutor(JOBS) as ex:
            for rc, o, e in ex.map(lambda g: sh(['goto-instrument', '--call-graph', g]), srcs['nl'] + [hdr + '.gb']):
                for m in re.finditer(r'^(\S+) -> (\S+)$', UNHDR(o), re.M): s.graph.setdefault(m.group(1), set()).add(m.group(2))
        s.bysym = {c.sym: n for n, c in s.contracts.items() if not c.lemma and not c.call}
        s.need = s.closure([r for r in roots if r in s.contracts] if roots is not None else list(s.contracts))
        s.noloops = None
        levs = [l for l in LEVELS if any(s.contracts[n].level == l for n in s.need)]
        kinds = [(lev, '') for lev in levs]
        for lev in sorted({s.contracts[n].level for n in s.need if s.contracts[n].loopinv}):
            try: srcs[lev] = s._goto_srcs(lev); kinds.append((lev, '_loops'))
            except ToolError as e: s.noloops = str(e)
        vcs = {}
        def vc(k):
            lev, lp = k
            src = s.gen_cbmc(lev) if not lp else os.path.join(s.work, 'vc_%s.c' % lev); gb = os.path.join(s.work, 'vc_%s%s.gb' % k)
            rc, o, e = sh(['goto-cc', '-c', '-I', CRT, '-I', CONTRACTS, *s.cfg.defs, *(['-DASN1SCC_VERIF', *LEVDEF[lev], '-include', os.path.join(CONTRACTS, 'loops.h')] if lp else []), src, '-o', gb])
            if rc != 0:
                if lp: return k, None
                raise ToolError('goto-cc %s failed:\n' % src + o + e)
            return k, gb
        def link(k):
            lev, lp = k
            allgb = os.path.join(s.work, 'all_%s%s.gb' % k)
            rc, o, e = sh(['goto-cc', vcs[k], *srcs[lev if lp else 'nl'], '-o', allgb])
            if rc != 0: raise ToolError('goto-cc link failed:\n' + o + e)
            return lev + lp, allgb
        with ThreadPoolExecutor(JOBS) as ex:
            vcs = dict(ex.map(vc, [k for k in kinds if not k[1]]))
            vcs.update(ex.map(vc, [k for k in kinds if k[1]]))
            if None in vcs.values(): s.noloops = 'loop contracts in headers do not compile'; kinds = [k for k in kinds if vcs[k]]
            s._compiled = dict(ex.map(link, kinds))

    def _drop_absent(s, srcs):
        """contracts of functions the current sources no longer define (a renamed or inlined helper) are left out:
        their callers are then proved against the code itself"""
        have = set()
        for g in srcs:
            rc, o, e = sh(['goto-instrument', '--list-goto-functions', g])
            have |= set(m.group(2) for m in re.finditer(r'^(\S+) /\* (\w+) \*/$', UNHDR(o), re.M))
        gone = [n for n, c in s.contracts.items() if not c.lemma and c.sym not in have]
        for n in gone: del s.contracts[n]
        return gone

    def loops_of_code(s, gb):
        """loops of everything that is not specification text (those have constant bounds and unwind fully)"""
        rc, o, e = sh(['goto-instrument', '--show-loops', gb])
        out = []
        for m in re.finditer(r'^Loop (\S+):\n\s*file (\S+)', o, re.M):
            if not m.group(2).startswith(s.work) and not m.group(2).startswith(CONTRACTS): out.append(m.group(1))
        return out

    def callees(s, f):
        """contract functions called by f, looking through uncontracted / inlined helpers"""
        c = s.contracts[f]; seen, out, todo = set(), set(), [c.sym]
        todo += list(c.uses)
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g)
            for h in s.graph.get(g, ()):
                if h == c.sym: continue
                k = s.contracts.get(s.bysym.get(h))
                if k and not k.lemma and not k.noreplace and k.name not in c.inline: out.add(k.name)
                elif not h.endswith(('__harness', '__stub')): todo.append(h)
        if c.lemma:
            for u in c.uses:
                k = s.contracts.get(u)
                if k and u not in c.inline and not k.noreplace: out.add(u)
        return out

    def closure(s, roots):
        seen, todo = [], list(roots)
        while todo:
            f = todo.pop(0)
            if f in seen: continue
            seen.append(f)
            todo += sorted(s.callees(f))
        return seen

def parse_plain(out):
    """cbmc's text output (no traces are built for it)"""
    if '** Results:' not in out: return None
    vt = sum(float(x) for x in re.findall(r'Runtime (?:decision procedure|Symex)[^:\n]*: ([\d.]+)s', out))
    res = []; file = fn = ''
    for l in out[out.index('** Results:'):].split('\n'):
        m = re.match(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m: res.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4), 'sourceLocation': {'file': file, 'function': fn, 'line': m.group(2) or '?'}}); continue
        m = re.match(r'^(\S+) function (\S+)$', l)
        if m: file, fn = m.groups()
    return (res, vt, []) if res else None

def parse_cbmc(out):
    if not out.lstrip().startswith('['): return parse_plain(out)
    try: js = json.loads(out)
    except Exception:
        return None
    res = None; trace = None; vt = 0.0; msgs = []
    for it in js:
        if 'result' in it: res = it['result']
        if 'messageText' in it:
            msgs.append(it['messageText'])
            m = re.search(r'Runtime (?:decision procedure|Symex)[^:]*: ([\d.]+)s', it['messageText'])
            if m: vt += float(m.group(1))
    return res, vt, msgs

class Result:
    def __init__(s): s.fn = None; s.ok = None; s.n = 0; s.failed = []; s.undecided = None; s.time = 0; s.solver = 0; s.replaced = []; s.ignored = 0; s.bounded = None; s.cmd = ''; s.kinds = {}; s.unknown = 0; s.proof_only = False

def discharge(b, f, loops=None):
    """one contract: all obligations of the real function against its contract.  An unwinding bound that turns out too
    small for the current code, or a solver that runs out of time, is a limit of the tool: retried with more"""
    c = b.contracts[f]
    r = discharge1(b, f, loops=loops)
    if r.failed and c.loopinv and not r.bounded: r.proof_only = True; return r      # replay looks for an input
    if r.failed and any('unwind' in p for p, d, l, st in r.failed):
        for mul in (3, 8):
            r2 = discharge1(b, f, loops=loops, unwind_mul=mul)
            r2.time += r.time; r2.solver += r.solver
            if r2.ok is None: break
            r = r2
            if not any('unwind' in p for p, d, l, st in r.failed): break
        if c.loopinv and r.bounded and r.failed and all('unwind' in p for p, d, l, st in r.failed):
            # the sources no longer carry this loop's contract: what is left is a bounded check
            r.n -= len(r.failed); r.failed = []; r.ok = True
    if r.undecided and 'timeout' in r.undecided and not c.split and not STOP.is_set():
        r2 = discharge1(b, f, loops=loops, solver='minisat' if c.solver else 'cadical'); r2.time += r.time
        if r2.ok is not None: r = r2
    return r

def solve_split(r, base, gb, c):
    """the obligations of one function in groups, each group a solver run of its own"""
    with SEM: rc, o, e = sh(base + ['--show-properties', gb], timeout=c.timeout, mem_gb=12)
    one, calls, rest = [], [], []
    for m in re.finditer(r'^Property (\S+):\n(.*)\n  (.*)\n', o, re.M):
        d = m.group(3)
        if any(rx.search(d) for rx, _ in IGNORED): r.ignored += 1
        elif 'loop invariant' in d or d.startswith('ensures') or d == 'CCV_VACUITY': one.append([m.group(1)])
        elif d.startswith(('call of', 'frame')): calls.append(m.group(1))
        else: rest.append(m.group(1))
    groups = one + [calls[i::4] for i in range(4)] + [rest[i::3] for i in range(3)]
    groups = [g for g in groups if g]
    if not groups: return rc, o, e, None
    procs = set(); over = threading.Event()
    def go(g):
        with SEM:
            if over.is_set(): return 'timeout', '', 'another group failed'
            rc, o, e = sh(base + sum([['--property', k] for k in g], []) + [gb], timeout=c.timeout, mem_gb=12, group=procs)
        pr = parse_cbmc(o) if rc != 'timeout' else None
        if pr and pr[0] and any(p['status'] == 'FAILURE' and p.get('description') != 'CCV_VACUITY' for p in pr[0]) and not over.is_set():
            over.set()
            for p in list(procs):
                if p.poll() is None:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError): pass
        return rc, o, e
    res = []; vt = 0.0; last = (0, '', '')
    with ThreadPoolExecutor(len(groups)) as ex:
        for g, (rc, o, e) in zip(groups, ex.map(go, groups)):
            pr = parse_cbmc(o)
            if not pr or pr[0] is None: last = (rc, o, e); res += [{'property': k, 'description': '?', 'status': 'UNKNOWN'} for k in g]
            else: res += pr[0]; vt += pr[1]
    if last[0] == 'timeout' and not any(p['status'] == 'FAILURE' and p.get('description') != 'CCV_VACUITY' for p in res): return 'timeout', last[1], last[2], None
    return 0, '', '', (res, vt, [])

def discharge1(b, f, loops=None, unwind_mul=1, solver=None, cap=None):
    c = b.contracts[f]; tmo = min(c.timeout, cap or c.timeout)
    r = Result(); r.fn = f; r.bounded = c.bounded
    t0 = time.time()
    use_loops = (c.loopinv and not b.noloops) if loops is None else loops
    if c.loopinv and not use_loops: r.bounded = r.bounded or 'loop contract not applied; loops unwound %d times' % (c.unwind * unwind_mul)
    allgb = b._compiled[c.level + ('_loops' if use_loops else '')]
    gb = os.path.join(b.work, f + '.gb')
    rep = sorted(b.callees(f)); r.replaced = rep
    cur = allgb
    if rep:
        rc, o, e = sh(['goto-instrument'] + sum([['--replace-calls', '%s:%s__stub' % (b.contracts[g].sym, g)] for g in rep], []) + [cur, gb])
        if rc != 0: raise ToolError('goto-instrument %s: %s%s' % (f, o, e))
        cur = gb
    if use_loops:
        rc, o, e = sh(['goto-cc', '--function', f + '__harness', cur, '-o', gb + '.e'])
        if rc != 0: raise ToolError('goto-cc entry %s: %s%s' % (f, o[-2000:], e[-2000:]))
        rc, o, e = sh(['goto-instrument', '--drop-unused-functions', gb + '.e', gb])
        if rc != 0: raise ToolError('drop-unused-functions %s: %s%s' % (f, o[-2000:], e[-2000:]))
        rc, o, e = sh(['goto-instrument', '--apply-loop-contracts', gb, gb])
        if rc != 0: raise ToolError('apply-loop-contracts %s: %s%s' % (f, o[-2000:], e[-2000:]))
        cur = gb
    entry = f + '__harness'
    base = ['cbmc', '--function', entry, '--drop-unused-functions', '--verbosity', '8', *CHECKS]
    us = dict((l, unwind_mul * c.unwindset.get(l, c.unwindset.get(l.rsplit('.', 1)[0], c.unwind))) for l in b.loops_of_code(cur))
    if us: base += ['--unwindset', ','.join('%s:%d' % kv for kv in us.items())]
    solver = solver or c.solver or ''
    if solver == 'cadical': base += ['--sat-solver', 'cadical']
    elif solver == 'cvc5': base += ['--cvc5']
    elif solver == 'z3': base += ['--z3']
    base += c.flags
    r.cmd = ' '.join(base + [os.path.basename(cur)]); r.solver_name = solver or 'minisat'
    r._gb, r._base = cur, base
    if c.split:
        rc, o, e, pr = solve_split(r, base, cur, c)
    else:
        with SEM: rc, o, e = sh(base + [cur], timeout=tmo, mem_gb=12)
    if rc != 'timeout' and not c.split:
        pr = parse_cbmc(o)
        if pr and pr[0] and any(p['status'] == 'FAILURE' and any(rx.search(p.get('description', '')) for rx, _ in IGNORED) for p in pr[0]) and any(p['status'] not in ('SUCCESS', 'FAILURE') for p in pr[0]):
            keep = [p['property'] for p in pr[0] if '.unwind.' not in p['property'] and not any(rx.search(p.get('description', '')) for rx, _ in IGNORED)]
            with SEM: rc, o, e = sh(base + sum([['--property', k] for k in keep], []) + [cur], timeout=tmo, mem_gb=12)
    r.time = time.time() - t0
    if rc == 'timeout': r.undecided = 'solver timeout after %ds' % tmo; return r
    if not c.split: pr = parse_cbmc(o)
    if not pr or pr[0] is None:
        r.undecided = 'cbmc gave no result (rc %s): %s' % (rc, (o[-1500:] + e[-500:])); return r
    res, r.solver, msgs = pr
    vac_ok = False; unk = 0
    for p in res:
        d = p.get('description', '')
        if d == 'CCV_VACUITY':
            vac_ok = p['status'] == 'FAILURE'; continue
        if any(rx.search(d) for rx, _ in IGNORED): r.ignored += 1; continue
        r.n += 1
        fl = p.get('sourceLocation', {}).get('file', '')
        kind = 'contract' if d.startswith(('ensures ', 'frame: ', 'call of ')) or 'loop' in p['property'] or 'loop invariant' in d or 'is assignable' in d else 'code' if 'asn1crt' in fl else 'spec'
        r.kinds[kind] = r.kinds.get(kind, 0) + 1
        if p['status'] == 'FAILURE': r.failed.append((p['property'], d, p.get('sourceLocation', {}), p['status']))
        elif p['status'] != 'SUCCESS': unk += 1
    r.unknown = unk
    r.ok = not r.failed and not unk
    if unk and not r.failed: r.undecided = '%d obligations undecided' % unk; r.ok = None
    if r.ok and not vac_ok:
        r.undecided = 'vacuous: the point after the call is unreachable under the precondition'; r.ok = None
    if not r.n: r.undecided = 'no obligations generated'; r.ok = None
    return r

# ---------------------------------------------------------------------------------- replay
def lit_bytes(v):
    """json trace value -> little endian bytes"""
    if 'binary' in v:
        bits = v['binary']; n = max(1, (len(bits) + 7) // 8)
        return int(bits, 2).to_bytes(n, 'little')
    if 'elements' in v: return b''.join(lit_bytes(x['value']) for x in v['elements'])
    if 'members' in v: return b''.join(lit_bytes(x['value']) for x in v['members'])
    if v.get('data') in ('TRUE', 'true', True): return b'\1'
    if v.get('data') in ('FALSE', 'false', False): return b'\0'
    return b'\0'

def extract_inputs(js, f, prop=None):
    vals, arrs = {}, {}
    pre = 'in_%s__' % f
    for it in js:
        for p in it.get('result', []):
            if prop and p.get('property') != prop: continue      # unwinding assertions come along with --property
            for st in p.get('trace', []):
                if st.get('stepType') != 'assignment': continue
                lhs = st.get('lhs', '')
                if not lhs.startswith(pre): continue
                nm = lhs[len(pre):]
                m = re.match(r'^(\w+)\[(\d+)\w*\]$', nm)
                if m: arrs.setdefault(m.group(1), {})[int(m.group(2))] = lit_bytes(st['value'])
                elif re.match(r'^\w+$', nm):
                    if 'elements' in st['value']:
                        for k, x in enumerate(st['value']['elements']): arrs.setdefault(nm, {})[k] = lit_bytes(x['value'])
                    else: vals[nm] = lit_bytes(st['value'])
    for n, d in arrs.items():
        w = max(len(x) for x in d.values())
        vals[n] = b''.join(d.get(i, b'\0' * w) for i in range(max(d) + 1))
    return vals

NATIVE_FLAGS = ['-g', '-O0', '-fsanitize=address,bounds,null,shift-exponent,integer-divide-by-zero,object-size', '-fno-sanitize-recover=all', '-w']
def native_build(b, f):
    c = b.contracts[f]
    src = os.path.join(b.work, 'nat_%s.c' % f)
    open(src, 'w').write('\n'.join([dsl.NATIVE_PRELUDE, dsl.gen_common(c), dsl.gen_native(c)]))
    mp = os.path.join(b.work, 'nat_main.c')
    if not os.path.exists(mp): open(mp, 'w').write(dsl.NATIVE_MAIN)
    exe = os.path.join(b.work, 'nat_' + f)
    cc = ['clang', '-DCCV_WID'] if c.level in ('wid', 'dec') else ['gcc']
    objs = native_objs(b, cc[0])
    if not objs: return None, b._natobj[cc[0]][1]
    # a static function is made visible to the harness (the object code stays what the compiler made of it)
    with b._natlock:
        if c.static:
            o2 = [os.path.join(b.work, 'natg_%s.%s.o' % (f, cc[0]))]
            sh(['objcopy', '--globalize-symbol=' + c.name, os.path.join(b.work, 'nat_%s.%s.o' % (c.static, cc[0])), o2[0]])
            objs = [o for o in objs if not o.endswith('nat_%s.%s.o' % (c.static, cc[0]))] + o2
    for proto in (['-DCCV_PROTO'], []):
        rc, o, e = sh(cc + [*NATIVE_FLAGS, *proto, '-I', CRT, '-I', CONTRACTS, *b.cfg.defs, '-DCCV_ENTRY=%s__native' % f, src, mp] + objs + ['-o', exe, '-lm'])
        if rc == 0: return exe, ''
    return None, o + e

def native_objs(b, cc):
    with b._natlock:
        if cc not in b._natobj:
            out = []; err = ''
            def one(x):
                o = os.path.join(b.work, 'nat_%s.%s.o' % (x, cc)); return o, sh([cc, *NATIVE_FLAGS, '-I', CRT, *b.cfg.defs, '-c', os.path.join(CRT, x), '-o', o])
            with ThreadPoolExecutor(len(SRCS)) as ex:
                for o, (rc, so, se) in ex.map(one, [x for x in SRCS if os.path.exists(os.path.join(CRT, x))]):
                    out.append(o)
                    if rc != 0: err += se
            b._natobj[cc] = ([] if err else out, err)
        return b._natobj[cc][0]

def native_run(exe, inp, secs=60):
    env = ['env', 'ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1', 'LSAN_OPTIONS=detect_leaks=0']
    rc, o, e = sh(env + [exe] + (inp if isinstance(inp, list) else [inp]), timeout=secs)
    if rc == 'timeout': return ('stopped' if STOP.is_set() or (LIMIT[0] and time.time() > LIMIT[0]) else 'hang'), 'no termination within %d s' % secs
    return rc, o + e

GOOD = (0, 77, 78, 79, 'stopped')            # what a native run returns when it shows no violation
SEEDS = 4
def native_search(exe, c, inp, secs):
    """random and boundary inputs satisfying the precondition, several seeds side by side"""
    s0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    def one(k):
        i = '%s.%d' % (inp, k)
        return i, native_run(exe, ['--random', str(s0 + 1000 * k), str(int(secs)), str(c.maxcount), i], secs + 40)
    res = None
    with ThreadPoolExecutor(SEEDS) as ex:
        for i, (rc, out) in ex.map(one, range(SEEDS)):
            if rc not in GOOD and not res:
                res = (rc, out)
                if os.path.exists(i): os.replace(i, inp)
            elif os.path.exists(i): os.unlink(i)
            last = (rc, out)
    return res or (0, last[1])

def replay(b, r, prop, deadline):
    """returns (path, reproduced)"""
    f = r.fn; c = b.contracts[f]
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.txt' % (prop, f, b.cfg.name))
    log = ['property %s' % prop, 'function under contract: %s (configuration %s)' % (f, b.cfg.name), 'failed obligations:']
    for p, desc, loc, st in r.failed[:40]: log.append('  [%s] %s  (%s:%s) %s' % (p, desc, os.path.basename(loc.get('file', '?')), loc.get('line', '?'), st))
    if r.undecided: log.append('  undecided: %s' % r.undecided)
    log.append('verifier: %s' % r.cmd[:400])
    exe, err = native_build(b, f)
    rep = [False]; tried = set(); inp = path + '.input'
    late = lambda: STOP.is_set() or (deadline and time.time() > deadline)
    def search():
        secs = 25 if not deadline else max(5, min(25, int(deadline - time.time())))
        rc, out = native_search(exe, c, inp, secs)
        log.append('--- native search over inputs satisfying the precondition: exit %s' % rc); log.append(out[-3000:])
        if rc not in GOOD:
            rep[0] = True
            if os.path.exists(inp): log.append('input: %s' % inp); log.append(open(inp).read()[:4000])
    def traces(r, total):
        base = list(r._base); end = time.time() + total
        order = sorted(r.failed, key=lambda x: ('unwind' in x[0], 'pointer' in x[0]))[:8]
        for small in (True, False):
            for p, desc, loc, st in order:
                left = end - time.time()
                if rep[0] or late() or left <= 0: return
                cmd = list(base)
                if small: cmd[cmd.index('--function') + 1] = f + '__harness_small'
                rc, o, e = sh(cmd + ['--json-ui', '--trace', '--property', p, r._gb], timeout=min(c.timeout, 60, left), mem_gb=12)
                try: js = json.loads(o)
                except Exception: continue
                vals = extract_inputs(js, f, p)
                if not vals: continue
                txt = ''.join('%s %s\n' % (k, v.hex()) for k, v in sorted(vals.items()))
                if txt in tried: continue
                tried.add(txt)
                open(inp, 'w').write(txt)
                rc, out = native_run(exe, inp)
                log.append('--- counterexample for [%s] %s replayed natively: exit %s' % (p, desc, rc))
                log.append(txt + out[-3000:])
                if rc not in GOOD: rep[0] = True
    if exe is None: log.append('native replay build failed: ' + err[-1500:])
    elif r.proof_only or not r.failed:
        if not late(): search()
        if not rep[0] and not late() and r.failed and not c.split:
            # the same obligations with the loops unwound instead of cut by their invariants
            r2 = discharge1(b, f, loops=False, cap=100)
            r2.failed = [x for x in r2.failed if 'unwind' not in x[0]]
            if r2.failed: traces(r2, 150)
    else:
        traces(r, 180)
        if not rep[0] and not late(): search()
    if not rep[0]:
        log.append('no counterexample input reproduced on the real code; verifier output above')
    open(path, 'w').write('\n'.join(log) + '\n')
    return path, rep[0]

# ---------------------------------------------------------------------------------- drivers
def show(r):
    st = 'ok' if r.ok else ('UNDECIDED' if r.ok is None else 'FAILED')
    print('%-10s %-48s %4d obligations %6.1fs (solver %.1fs) stubs: %s' % (st, r.fn, r.n, r.time, r.solver, ','.join(r.replaced)))
    if r.undecided: print('     ', r.undecided[:1500])
    for p, d, loc, s in r.failed[:12]: print('      [%s] %s (%s:%s) %s' % (p, d, os.path.basename(loc.get('file', '?')), loc.get('line', '?'), s))
    sys.stdout.flush()

def main():
    a = sys.argv[1:]
    work = tempfile.mkdtemp(prefix='ccv.', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        cs = dsl.load(CONTRACTS)
        if a[0] == 'fn':
            cfg = 'w8'; rp = False; names = []
            for x in a[1:]:
                if x.startswith('--cfg='): cfg = x[6:]
                elif x == '--replay': rp = True
                else: names.append(x)
            import fnmatch
            b = Build(work, CONFIGS[cfg], cs)
            names = [n for n in b.contracts if any(fnmatch.fnmatch(n, p) for p in names) or names == ['all']]
            b.build(names); names = [n for n in names if n in b.contracts]
            with ThreadPoolExecutor(JOBS) as ex:
                for r in ex.map(lambda n: discharge(b, n), names):
                    show(r)
                    if rp and r.failed: 
                        r.cfg = cfg; p, ok = replay(b, r, 'DBG', None); print(open(p).read()); print('reproduced:', ok)
        elif a[0] == 'natives':
            # sanity of the native side: every harness builds, and random inputs on the current code satisfy the contract
            b = Build(work, CONFIGS['w8'], cs); secs = a[1] if len(a) > 1 else '2'
            def one(c):
                if c.lemma or (len(a) > 2 and not __import__("fnmatch").fnmatch(c.name, a[2])): return c.name, 'lemma', ''
                exe, err = native_build(b, c.name)
                if not exe: return c.name, 'build failed', err[-600:]
                return (c.name,) + native_run(exe, ['--random', '1', secs, str(c.maxcount), os.path.join(work, c.name + '.in')], 90)
            with ThreadPoolExecutor(JOBS) as ex:
                for n, rc, out in ex.map(one, cs): print(n, rc, out.strip()[-300 if rc == 0 else -1200:], flush=True)
        else:
            import check
            sys.exit(check.run(a, work, cs))
    finally:
        if os.environ.get('CCV_KEEP'): print('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.modules['ccv'] = sys.modules['__main__']
    main()
