"""decide one property: discharge the contracts it depends on, replay failures, write the evidence"""
import os, sys, re, json, time, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed
import ccv, dsl

def known_findings():
    p = os.path.join(ccv.VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) id=(\S+) (.*)$', l.strip())
            if m: out.append(m.groups())
    return out

def prop_def(pid):
    import props
    return props.P[pid]

def native_findings(b, pid):
    """known findings are demonstrated natively against the real code on every run: contracts/findings/<id>.c"""
    out = []
    for prop, fid, desc in known_findings():
        if prop != pid: continue
        src = os.path.join(ccv.CONTRACTS, 'findings', fid + '.c')
        exe = os.path.join(b.work, 'kf_' + fid)
        rc, o, e = ccv.sh(['gcc', '-g', '-O0', '-fsanitize=address,bounds', '-w', '-I', ccv.CRT, src] + [os.path.join(ccv.CRT, x) for x in ccv.SRCS] + ['-o', exe, '-lm'])
        if rc != 0: out.append((fid, desc, 'build failed: ' + e[-300:])); continue
        rc, o, e = ccv.sh([exe], timeout=60)
        out.append((fid, desc, 'fails' if rc != 0 else 'no longer fails'))
    return out

def run(argv, work, contracts):
    if argv[0] == 'setup':
        b = ccv.Build(work, ccv.CONFIGS['w8'], contracts); b.build(); print('setup ok: %d contracts compile against %s' % (len(contracts), ccv.CRT)); return 0
    if argv[0] != 'check': print(__doc__); return 2
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); pd = prop_def(pid)
    cfgs = pd.get('configs', ['w8']) + ([c for c in pd['thorough_configs'] if c not in pd['configs']] if tier == 'thorough' else [])
    allres = []; lines = []; errors = []; builds = {}; kf = []; notes = []
    deadline = t0 + float(os.environ.get('CCV_DEADLINE', '780'))
    try:
        jobs = []
        for cname in cfgs:
            w = os.path.join(work, cname); os.makedirs(w)
            b = ccv.Build(w, ccv.CONFIGS[cname], contracts); builds[cname] = b
            b.build([n for n, c in b.contracts.items() if pid in c.props])
            if b.absent: notes.append('%s: not in the current sources, callers proved against the code itself: %s' % (cname, ', '.join(b.absent)))
            roots = [n for n, c in b.contracts.items() if pid in c.props]
            for f in b.closure(roots): jobs.append((b, f))
        if not jobs: raise ccv.ToolError('no contracts for property %s' % pid)
        results = {}; reps = {}; rex = ThreadPoolExecutor(2); ccv.LIMIT[0] = deadline - 60
        def look(r):
            if ccv.STOP.is_set(): return None
            path, rep = ccv.replay(r.build, r, pid, deadline - 20)
            if rep and not ccv.STOP.is_set(): ccv.stop_all(); return path, True
            return path, rep
        while jobs and not ccv.STOP.is_set():
            jobs.sort(key=lambda j: -j[0].contracts[j[1]].weight)
            redo = []
            with ThreadPoolExecutor(ccv.JOBS) as ex:
                futs = {ex.submit(ccv.discharge, b, f): (b, f) for b, f in jobs}
                for fu in as_completed(futs):
                    b, f = futs[fu]
                    try: r = fu.result()
                    except ccv.ToolError as e:
                        r = ccv.Result(); r.fn = f; r.undecided = str(e)
                    r.cfg = b.cfg.name; r.build = b
                    if not os.environ.get('CCV_QUIET'): ccv.show(r)
                    results[b.cfg.name, f] = r
                    # a violation is looked at as soon as it is there; with a failing input in hand the rest is stopped
                    if r.failed and not b.contracts[f].internal: reps[b.cfg.name, f] = rex.submit(look, r)
            # a helper whose own contract no longer holds is not a violation by itself: its callers are proved again
            # with the helper's code in place of the contract, and they decide
            bad = [(b, f) for (b, f) in jobs if b.contracts[f].internal and not results[b.cfg.name, f].ok]
            for b, f in bad:
                b.contracts[f].noreplace = True
                notes.append('%s: helper contract %s not established (%s), its code is used instead' % (b.cfg.name, f, results[b.cfg.name, f].undecided or results[b.cfg.name, f].failed[:1]))
                del results[b.cfg.name, f]
            jobs = [(r.build, r.fn) for r in results.values() if any(r.build is b and f in r.replaced for b, f in bad)]
        allres = list(results.values()); ccv.LIMIT[0] = deadline
        if any(r.failed for r in allres):
            for r in sorted(allres, key=lambda r: (len(r.replaced), r.fn)):
                if r.failed and (r.cfg, r.fn) not in reps: reps[r.cfg, r.fn] = rex.submit(look, r)
        else:
            # a proof that could not be redone on the current code is reported like a failed one
            for r in allres:
                if r.ok is None: reps[r.cfg, r.fn] = rex.submit(look, r)
        found = []
        for k, fu in reps.items():
            res = fu.result()
            if res and k in results: found.append((k,) + res)
        if any(rep for k, path, rep in found): found = [x for x in found if x[2]]
        for k, path, rep in found:
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if rep else ' no-failing-input-found'))
        if lines and ccv.STOP.is_set(): notes.append('stopped after the first violation with a failing input; contracts without a result were not decided in this run')
        ccv.STOP.clear(); ccv.LIMIT[0] = None
        kf = native_findings(builds[cfgs[0]], pid)
    except ccv.ToolError as e:
        errors.append(str(e))
    ccv.STOP.clear(); ccv.LIMIT[0] = None
    for fid, desc, st in kf:
        if st == 'fails': print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, desc))
        elif st.startswith('build'): errors.append('known finding %s: %s' % (fid, st))
    proved = [r for r in allres if r.ok and not r.bounded]
    bounded = [r for r in allres if r.ok and r.bounded]
    trusted = json.load(open(os.path.join(ccv.VERIF, 'contracts', 'trusted.json')))
    ncode = lambda r: r.n - r.kinds.get('spec', 0)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': pd['level'],
          'coverage': {
              'obligations': sum(ncode(r) for r in allres), 'discharged': sum(ncode(r) - len(r.failed) - r.unknown for r in allres if r.kinds),
              'checker_cmd': 'cbmc (self-generated contract VCs, one run per function; callees replaced by their contracts with goto-instrument --replace-calls)',
              'trusted_base': trusted['trusted_base'],
              'obligations_by_kind': {k: sum(r.kinds.get(k, 0) for r in allres) for k in ('contract', 'code', 'spec')},
              'notes': notes,
              'functions_under_contract': len({r.fn for r in allres}), 'functions_proved': sorted({r.fn for r in proved}),
              'functions_bounded': {r.fn: r.bounded for r in bounded},
              'functions_failed': sorted({r.fn for r in allres if r.failed}),
              'configurations': cfgs,
              'obligations_switched_off': sum(r.ignored for r in allres),
              'solver_s': round(sum(r.solver for r in allres), 1), 'verifier_wall_s': round(sum(r.time for r in allres), 1),
              'back_end': 'CBMC 6.11.0 bit-precise VC generation, MiniSat 2.2.1 / CaDiCaL; loops bounded by operand width unwound completely (unwinding assertions discharged), input-length loops by loop contracts',
              'per_function': [{'function': r.fn, 'configuration': r.cfg, 'obligations': r.n, 'undischarged': len(r.failed), 'seconds': round(r.time, 1), 'callee_contracts_used': r.replaced, 'cmd': r.cmd[:300]} for r in sorted(allres, key=lambda r: r.fn)],
              'known_findings': ['%s: %s' % (f, s) for f, d, s in kf],
              'samples': ['%s: %d obligations' % (r.fn, r.n) for r in allres[:3]],
              'explanation': 'every obligation of every contract the property depends on, regenerated from the current sources',
          },
          'assumptions': trusted['assumptions'] + pd.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(lines)}
    if not bounded: ev['coverage'].pop('functions_bounded')
    os.makedirs(os.path.join(ccv.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ccv.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in sorted(set(lines)): print(l)
    if lines: return 1
    if errors:
        for e in errors: print('ERROR', e[:3000])
        return 2
    print('property %s holds: %d obligations over %d functions discharged in %.0f s (%d functions bounded)' % (pid, ev['coverage']['obligations'], len(allres), ev['wall_s'], len(bounded)))
    return 0
