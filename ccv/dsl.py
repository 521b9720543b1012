"""Parser for the contract files (contracts/*.ccv) and generator of the C text of the
verification conditions: for every contract F
   F__req        precondition                      (C predicate)
   F__ens_<i>    postconditions over old snapshots (C predicates)
   F__stub       the contract as seen by callers:  assert req; havoc frame; assume ens
   F__harness    the obligation:                   assume req; call the real F; assert ens + frame
   F__native     replay driver running the real F natively on recorded inputs
"""
import re, glob, os, copy

ABSTRACT = ('abs', 'wid', 'wat', 'dec')       # levels at which the buffer is ghost state, not memory
WATCH = ('wat', 'big')                 # levels that watch one arbitrary bit of the stream and one arbitrary element of an array
# which contracts (by their level) a proof at a given level may use for its callees
USABLE = {'con': ('con', 'abs'), 'abs': ('con', 'abs'), 'wid': ('con', 'abs', 'wid'), 'wat': ('con', 'abs', 'wat', 'big'), 'big': ('con', 'big'), 'dec': ('con', 'abs', 'wid', 'dec')}
class Param:
    def __init__(s, ctype, name):
        s.ctype, s.name, s.kind, s.opts = ctype.strip(), name, 'scalar', {}
    @property
    def base(s):           # pointee type
        t = s.ctype.replace('const', '').strip()
        return t[:-1].strip() if t.endswith('*') else t

class Contract:
    def __init__(s, name, fileno):
        s.name = name; s.where = fileno
        s.ret = 'void'; s.params = []; s.req = []; s.ens = []; s.mod = []
        s.unwind = 12; s.inline = set(); s.props = []; s.bounded = None; s.noreplace = False
        s.flags = []; s.unwindset = {}; s.timeout = 300; s.pre = []; s.loopinv = False
        s.solver = None; s.native_only = False; s.quickbound = None; s.split = False
        s.call = None; s.lemma = False; s.uses = []
        s.post = []; s.level = 'con'; s.cfgs = None; s.ghost = []; s.internal = False; s.weight = 0; s.static = None; s.narrow = []; s.header = False; s.rand = []; s.randbuf = []; s.maxcount = 64; s.inst = []; s.effect = []

    @property
    def sym(s):
        """linker symbol of the function under contract in the goto binaries (file-local functions are mangled)"""
        n = s.call or s.name
        return '__CPROVER_file_local_%s_%s' % (s.static.replace('.', '_'), n) if s.static else n

def split_args(txt):
    out, depth, cur = [], 0, ''
    for ch in txt:
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
        else:
            depth += ch in '([{'; depth -= ch in ')]}'
            cur += ch
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

def parse_param(txt):
    m = re.match(r'^(.*?)([A-Za-z_]\w*)\s*(\[\s*\w*\s*\])?$', txt.strip(), re.S)
    ct, nm, arr = m.group(1).strip(), m.group(2), m.group(3)
    if arr: ct = ct + '*'
    return Param(re.sub(r'\s*\*', '*', ct), nm)

KEYS = ('sig', 'given', 'requires', 'ensures', 'modifies', 'unwind', 'unwindset', 'inline', 'props', 'bounded', 'noreplace',
        'flags', 'timeout', 'loopinv', 'solver', 'split', 'call', 'lemma', 'uses', 'pre', 'post', 'level', 'cfgs', 'internal', 'static', 'weight', 'ghost', 'narrow', 'header', 'rand', 'randbuf', 'instance', 'effect', 'end')

def parse_text(text, fname, macros=None):
    # parametrised families:  foreach A B C : (1 2 3) (4 5 6) ... endfor
    def expand(m):
        names = m.group(1).split()
        rows = re.findall(r'\(((?:[^()]|\([^()]*\))*)\)', m.group(2))
        body = m.group(3); out = ''
        for r in rows:
            vals = [x.strip() for x in r.split('|')]
            b = body
            for n, v in zip(names, vals): b = b.replace('$' + n, v)
            out += b + '\n'
        return out
    text = re.sub(r'^\s*#[^\n]*$', '', text, flags=re.M)
    text = re.sub(r'^foreach ([\w ]+):\s*((?:\((?:[^()]|\([^()]*\))*\)\s*?)+)\n(.*?)^endfor\s*$', expand, text, flags=re.S | re.M)
    cs, cur, stmts = [], None, []
    # join continuation lines: a line not starting with a keyword continues the previous one
    for ln, line in enumerate(text.split('\n'), 1):
        st = line.strip()
        if not st: continue
        w = st.split(None, 1)[0].rstrip(':')
        if w == 'contract':
            cur = Contract(st.split()[1], fname); cs.append(cur); stmts = []; cur._st = stmts
        elif cur is None:
            raise SystemExit('%s: text outside contract: %s' % (fname, st))
        elif w in KEYS:
            if w == 'end': cur = None
            else: stmts.append([w, st[len(w):].strip()])
        else:
            stmts[-1][1] += ' ' + st
    for c in cs:
        for k, v in c._st:
            if k == 'sig':
                m = re.match(r'^(.*?)\s*\((.*)\)$', v, re.S)
                c.ret = m.group(1).strip()
                ps = m.group(2).strip()
                c.params = [parse_param(x) for x in split_args(ps)] if ps and ps != 'void' else []
                for p in c.params:
                    if p.base == 'BitStream' and p.ctype.endswith('*'): p.kind = 'bs'; p.opts = {'n': '12'}
                    elif p.base == 'ByteStream' and p.ctype.endswith('*'): p.kind = 'ys'; p.opts = {'n': '24'}
                    elif p.ctype.endswith('*'): p.kind = 'out'
            elif k == 'given':
                nm, rest = [x.strip() for x in v.split(':', 1)]
                p = next(x for x in c.params if x.name == nm)
                ws = rest.split(None, 1)
                p.kind = ws[0]; p.opts = {'n': ws[1].strip()} if len(ws) > 1 else p.opts
                if p.kind == 'zstr': p.kind = 'mem'; p.opts = {'n': 'ZLEN(%s)' % p.name, 'z': 1}      # string with the terminator at index Z
                if p.kind == 'bs' and '@' in p.opts['n']:      # window anchored at a recorded position instead of the cursor
                    n, at = p.opts['n'].split('@'); p.opts = {'n': n.strip(), 'at': at.strip()}
            elif k == 'requires': c.req.append(v)
            elif k == 'ensures':
                m = re.match(r'^\[(.*?)\]\s*(.*)$', v, re.S)
                c.ens.append((m.group(1), m.group(2)) if m else ('post%d' % (len(c.ens) + 1), v))
            elif k == 'modifies': c.mod += [x.strip() for x in v.split(';') if x.strip()]
            elif k == 'unwind': c.unwind = int(v)
            elif k == 'unwindset':
                for x in v.split(): a, b = x.split(':'); c.unwindset[a] = int(b)
            elif k == 'inline': c.inline |= set(v.split())
            elif k == 'props': c.props += v.split()
            elif k == 'bounded': c.bounded = v
            elif k == 'noreplace': c.noreplace = True
            elif k == 'flags': c.flags += v.split()
            elif k == 'timeout': c.timeout = int(v)
            elif k == 'loopinv': c.loopinv = True
            elif k == 'solver': c.solver = v
            elif k == 'split': c.split = True
            elif k == 'call': c.call = v
            elif k == 'lemma': c.lemma = True
            elif k == 'uses': c.uses += v.split()
            elif k == 'pre': c.pre.append(v)
            elif k == 'post': c.post.append(v)
            elif k == 'level': c.level = v
            elif k == 'cfgs': c.cfgs = v.split()
            elif k == 'ghost': c.ghost.append(v)
            elif k == 'rand' and v.startswith('maxcount '): c.maxcount = int(v.split()[1])
            elif k == 'rand': c.rand.append(v)
            elif k == 'randbuf': c.randbuf.append(v)
            elif k == 'instance': c.inst.append(v)
            elif k == 'header': c.header = True
            elif k == 'effect': c.effect.append(v)
            elif k == 'narrow': c.narrow = v.split()
            elif k == 'weight': c.weight = int(v)
            elif k == 'internal': c.internal = True
            elif k == 'static': c.static = v; c.internal = True
        del c._st
    return cs

def load(d):
    out = []
    for f in sorted(glob.glob(os.path.join(d, '*.ccv'))):
        for c in parse_text(open(f).read(), os.path.basename(f)):
            out.append(c); out += [narrowed(c, t) for t in c.narrow]
    names = [c.name for c in out]
    dup = {n for n in names if names.count(n) > 1}
    if dup: raise SystemExit('duplicate contracts: %s' % dup)
    return out

def narrowed(c, suf):
    """contract of the narrow-width variant of a decoder: same bits, same verdict, same value - and failure, instead of
    another value, when the value does not fit"""
    n = copy.deepcopy(c); n.name = c.name + suf; n.narrow = []; n.props = ['P14']; n.bounded = None
    n.loopinv = False; n.inline = set(); n.timeout = 200; n.weight = 0; n.solver = None; n.level = c.level if c.level in ('wid', 'dec') else 'abs'
    t = '%sint%s_t' % ('u' if suf[0] == 'U' else '', re.sub(r'\D', '', suf))
    p = next(x for x in n.params if x.kind == 'out'); wide = p.base; p.ctype = t + '*'
    d = dict(n.ens); C = re.match(r'^RET == (.*)$', d['ret'], re.S).group(1)
    m = re.match(r'^!RET \|\| \((.*) && \*%s == (.*)\)$' % p.name, d['value'], re.S); A, E = m.group(1), '((%s)(%s))' % (wide, m.group(2))
    n.ens = [('ret', 'RET == ((%s) && (%s)%s == %s)' % (C, t, E, E)), ('value', '!RET || (%s && *%s == %s)' % (A, p.name, E))]
    return n

# ------------------------------------------------------------------------------------------
def snap_type(p):
    if p.kind == 'bs': return 'BSnap'
    if p.kind == 'ys': return 'YSnap'
    if p.kind == 'mem': return 'struct { const %s *p; %s a; }' % (p.base, p.base)
    if p.kind == 'out': return p.base
    if p.kind == 'arr': return 'struct { %s a[%s]; }' % (p.base, p.opts['n'])
    return None

def ptr_params(c): return [p for p in c.params if p.kind != 'scalar' and p.kind != 'null']

def old_decl(c):
    """C parameter list of the predicates: the arguments, the old snapshots O_<p>, RET"""
    a = ['%s %s' % (p.ctype, p.name) for p in c.params]
    return a

def pred_params(c, post):
    a = ['%s %s' % (p.ctype, p.name) for p in c.params]
    if post:
        a += ['const struct %s__old *OLD' % c.name]
        if c.ret != 'void': a.append('%s RET' % c.ret)
    return ', '.join(a) or 'void'

def pred_args(c, post):
    a = [p.name for p in c.params]
    if post:
        a.append('&OLD_')
        if c.ret != 'void': a.append('RET_')
    return ', '.join(a)

def gen_common(c):
    o = []
    o.append('struct %s__old { char dummy_;' % c.name)
    for p in ptr_params(c):
        o.append('  %s %s;' % (snap_type(p), p.name))
    o.append('};')
    o += c.pre
    o.append('static inline flag %s__req(%s) { return %s; }' % (c.name, pred_params(c, False), ' && '.join('(%s)' % r for r in c.req) or '1'))
    if c.ens:
        for i, (lab, e) in enumerate(c.ens):
            o.append('static inline flag %s__ens_%d(%s) { (void)OLD; return (%s); }' % (c.name, i, pred_params(c, True), e))
    o += c.post
    return '\n'.join(o)

def gen_take(c, var='OLD_'):
    o = []
    for p in ptr_params(c):
        n = p.opts.get('n', '')
        if p.kind == 'bs' and 'at' in p.opts: o.append('  { BitStream t_ = *%s; t_.currentByte = (%s).currentByte; t_.currentBit = (%s).currentBit; ccv_bsnap(&%s.%s, &t_, %s); }' % (p.name, p.opts['at'], p.opts['at'], var, p.name, n))
        elif p.kind == 'bs': o.append('  ccv_bsnap(&%s.%s, %s, %s);' % (var, p.name, p.name, n))
        elif p.kind == 'ys': o.append('  ccv_ysnap(&%s.%s, %s, %s);' % (var, p.name, p.name, n))
        elif p.kind == 'out': o.append('  %s.%s = *%s;' % (var, p.name, p.name))
        elif p.kind == 'mem' and 'const' not in p.ctype: o.append('  CCV_MEMSNAP(%s.%s, %s, (%s));' % (var, p.name, p.name, n))
        elif p.kind == 'arr': o.append('  for (int i_ = 0; i_ < (%s); i_++) %s.%s.a[i_] = %s[i_];' % (n, var, p.name, p.name))
    return '\n'.join(o)

def mods(c):
    d = {}
    for m in c.mod:
        mm = re.match(r'^(BITS|POS|ALL|BYTES|PATCH|PEEK)\((\w+)(?:,\s*(.*))?\)$', m)
        if mm: d.setdefault(mm.group(2), []).append((mm.group(1), mm.group(3))); continue
        mm = re.match(r'^\*\s*(\w+)$', m)
        if mm: d.setdefault(mm.group(1), []).append(('LV', None)); continue
        mm = re.match(r'^(\w+)\[(.*?)\.\.(.*)\]$', m)
        if mm: d.setdefault(mm.group(1), []).append(('RNG', (mm.group(2), mm.group(3)))); continue
        raise SystemExit('%s: bad modifies %r' % (c.name, m))
    return d

def gen_stub(c, lev):
    """the contract as the caller's proof sees it"""
    o = []
    sig = ', '.join('%s %s' % (p.ctype, p.name) for p in c.params) or 'void'
    ext = []
    nd = lambda t, i: 'nondet_s_%s_%s()' % (c.name, i)
    def ndfun(t, i):
        ext.append('extern %s nondet_s_%s_%s(void);' % (t, c.name, i)); return nd(t, i)
    o.append('%s %s__stub(%s) {' % (c.ret, c.name, sig))
    o.append('  __CPROVER_assert(%s__req(%s), "call of %s satisfies its precondition");' % (c.name, pred_args(c, False), c.name))
    if lev in ABSTRACT:
        for p in c.params:
            if p.kind in ('bs', 'ys'): o.append('  __CPROVER_assert((const void *)%s == CCV_G.of && %s_pos(%s) == CCV_G.p, "%s is given the stream whose contents are tracked, at the tracked position");' % (p.name, p.kind, p.name, c.name))
    if c.level not in USABLE[lev]: o.append('  __CPROVER_assert(0, "the contract of %s is not usable at level %s");' % (c.name, lev))
    for p in c.params:
        if 'z' in p.opts: o.append('  __CPROVER_assert(%s == CCV_G.zp && %s[CCV_G.Z] == 0, "%s of %s is the zero-terminated string");' % (p.name, p.name, p.name, c.name))
        elif p.kind == 'mem': o.append('  { long n_ = (%s); __CPROVER_assert(n_ <= CCV_MAXCOUNT && (n_ <= 0 || __CPROVER_%s_ok(%s, n_ * sizeof *%s)), "%s of %s points to enough elements"); }' % (p.opts['n'], 'r' if 'const' in p.ctype else 'w', p.name, p.name, p.name, c.name))
    o.append('  struct %s__old OLD_;' % c.name)
    if 'PATCH' in str(c.mod): o.append('  __CPROVER_assert(0, "%s is not called from a function under contract");' % c.name)
    o.append(gen_take(c))
    M = mods(c)
    for p in ptr_params(c):
        for (k, a) in M.get(p.name, []):
            if p.kind == 'bs':
                o.append('  { long cb_ = %s->currentByte;' % p.name)
                if k == 'BITS' and c.level == 'big' and lev == 'big':
                    o.append('    long n_ = TOUCHED(%s->currentBit, (%s)); if (n_ > %s->count - cb_) n_ = %s->count - cb_; if (n_ > 0) __CPROVER_havoc_slice(%s->buf + cb_, n_);' % (p.name, a, p.name, p.name, p.name))
                elif k == 'BITS' and lev in ('con', 'big'):
                    o.append('    long t_ = TOUCHED(%s->currentBit, (%s));' % (p.name, a))
                    o.append('    for (int i_ = 0; i_ < (%s); i_++) if (i_ < t_ && cb_ + i_ < %s->count) %s->buf[cb_ + i_] = %s;' % (p.opts['n'], p.name, p.name, ndfun('byte', p.name + 'b')))
                o.append('    %s->currentByte = %s; %s->currentBit = %s; }' % (p.name, ndfun('long', p.name + 'p'), p.name, ndfun('int', p.name + 'q')))
                if lev in ABSTRACT: o.append('  CCV_G.g = %s; CCV_G.r = %s; CCV_G.p = %s;' % (ndfun('GW', p.name + 'g'), ndfun('GW', p.name + 'r'), ndfun('long', p.name + 'gp')))
                if lev == 'wat' and k == 'BITS': o.append('  CCV_G.w = %s;' % ndfun('_Bool', p.name + 'gw'))
            elif p.kind == 'ys':
                o.append('  { long cb_ = %s->currentByte;' % p.name)
                if k == 'BYTES' and lev == 'con':
                    o.append('    long t_ = (%s);' % a)
                    o.append('    for (int i_ = 0; i_ < (%s); i_++) if (i_ < t_ && cb_ + i_ < %s->count) %s->buf[cb_ + i_] = %s;' % (p.opts['n'], p.name, p.name, ndfun('byte', p.name + 'b')))
                o.append('    %s->currentByte = %s; }' % (p.name, ndfun('long', p.name + 'p')))
                if lev in ABSTRACT: o.append('  CCV_G.g = %s; CCV_G.r = %s; CCV_G.p = %s;' % (ndfun('GW', p.name + 'g'), ndfun('GW', p.name + 'r'), ndfun('long', p.name + 'gp')))
            elif k == 'LV': o.append('  *%s = %s;' % (p.name, ndfun(p.base, p.name)))
            elif k == 'RNG' and p.kind == 'mem':
                lo, hi = a
                o.append('  { long lo_ = (%s), hi_ = (%s); if (lo_ < hi_) __CPROVER_havoc_slice(%s + lo_, (hi_ - lo_) * sizeof *%s); }' % (lo, hi, p.name, p.name))
            elif k == 'RNG':
                lo, hi = a
                o.append('  for (long i_ = 0; i_ < (%s); i_++) if (i_ >= (%s) && i_ < (%s)) %s[i_] = %s;' % (p.opts['n'], lo, hi, p.name, ndfun(p.base, p.name)))
    if lev == 'dec' and c.level == 'dec' and any(p.kind == 'bs' and M.get(p.name) for p in c.params): o.append('  CCV_G.dp = %s; CCV_G.dn = %s; CCV_G.dr = %s; CCV_G.dl = %s; CCV_G.dh = %s; CCV_G.du = %s; CCV_G.dv = %s; CCV_G.dok = %s; CCV_G.dt = %s;' % (ndfun('long', 'dp'), ndfun('long', 'dn'), ndfun('long', 'dr'), ndfun('long', 'dl'), ndfun('u128', 'dh'), ndfun('int', 'du'), ndfun('UI', 'dv'), ndfun('_Bool', 'dok'), ndfun('_Bool', 'dt')))
    if c.ret != 'void': o.append('  %s RET_ = %s;' % (c.ret, ndfun(c.ret, 'ret')))
    for i, (lab, e) in enumerate(c.ens):
        o.append('  __CPROVER_assume(%s__ens_%d(%s));' % (c.name, i, pred_args(c, True)))
    if lev in ABSTRACT:
        for p in c.params:
            if p.kind in ('bs', 'ys') and M.get(p.name): o.append('  __CPROVER_assume(CCV_G.p == %s_pos(%s));' % (p.kind, p.name))
    if lev in WATCH:
        for p in c.params:
            if p.kind != 'bs': continue
            bits = [a for k, a in M.get(p.name, []) if k == 'BITS']
            if lev == 'wat' and bits: o.append('  __CPROVER_assume(IN_BITS(&OLD_.%s, (%s)) || WBIT(%s) == OLD_.%s.wb);' % (p.name, bits[0], p.name, p.name))
            if lev == 'wat': o.append('  __CPROVER_assume(RCONS());')
    if lev == 'dec' and c.level != 'dec': o += ['  %s;' % x for x in c.effect]
    o.append('  return%s;' % (' RET_' if c.ret != 'void' else ''))
    o.append('}')
    return '\n'.join(dict.fromkeys(ext)) + '\n' + '\n'.join(o)

def gen_inputs(c, lev):
    """declarations of the recorded inputs"""
    o = []
    for p in c.params:
        pre = 'in_%s' % p.name
        if p.kind == 'scalar': o.append('%s %s;' % (p.ctype.replace('const', ''), pre))
        elif p.kind == 'bs':
            o.append('long %s_count, %s_cb, %s_base; int %s_bit; ' % (pre, pre, pre, pre) + ('byte %s_w[%s];' % (pre, p.opts['n']) if lev not in ABSTRACT else 'GW %s_r;' % pre))
        elif p.kind == 'ys':
            o.append('long %s_count, %s_cb; flag %s_ws; ' % (pre, pre, pre) + ('byte %s_w[%s];' % (pre, p.opts['n']) if lev not in ABSTRACT else 'GW %s_r;' % pre))
        elif p.kind == 'out': o.append('%s %s;' % (p.base, pre))
        elif p.kind == 'arr': o.append('%s %s[%s];' % (p.base, pre, p.opts['n']))
        elif p.kind == 'mem': o.append('%s %s_m[24];' % (p.base, pre))
    return o

def gen_frame(c, check, lev='con', skip=''):
    """check(cond, label) -> statement"""
    o = []
    M = mods(c)
    for p in ptr_params(c):
        ks = M.get(p.name, [])
        n = p.opts.get('n')
        if skip and (p.kind == 'mem') == (skip == 'mem'): continue
        if p.kind == 'bs':
            bits = [a for k, a in ks if k in ('BITS', 'PATCH')]
            patch = [a for k, a in ks if k == 'PATCH']
            if lev in WATCH: o.append('  ' + check(('IN_BITS(&OLD_.%s, (%s)) || ' % (p.name, bits[0]) if bits else '') + 'WBIT(%s) == OWBIT(&OLD_.%s)' % (p.name, p.name), 'frame: bits of the stream outside the written range unchanged'))
            if lev == 'big':
                o.append('  ' + check('%s->count == OLD_.%s.s.count && %s->buf == OLD_.%s.s.buf && %s->pushDataPrm == OLD_.%s.s.pushDataPrm && %s->fetchDataPrm == OLD_.%s.s.fetchDataPrm' % ((p.name,) * 8), 'frame: stream header unchanged'))
                if not ks: o.append('  ' + check('%s->currentByte == OLD_.%s.s.currentByte && %s->currentBit == OLD_.%s.s.currentBit' % ((p.name,) * 4), 'frame: cursor unchanged'))
                continue
            if lev in ABSTRACT:
                o.append('  ' + check('%s->count == OLD_.%s.s.count && %s->buf == OLD_.%s.s.buf && %s->pushDataPrm == OLD_.%s.s.pushDataPrm && %s->fetchDataPrm == OLD_.%s.s.fetchDataPrm' % ((p.name,) * 8), 'frame: stream header unchanged'))
                if not ks: o.append('  ' + check('%s->currentByte == OLD_.%s.s.currentByte && %s->currentBit == OLD_.%s.s.currentBit && CCV_G.g == OLD_.%s.g' % ((p.name,) * 5), 'frame: stream unchanged'))
                if patch: o.append('  ' + check('%s->currentByte == cur_%s.currentByte && %s->currentBit == cur_%s.currentBit && (CCV_G.p == bs_pos(&OLD_.%s.s) + (%s))' % ((p.name,) * 5 + (patch[0],)), 'frame: cursor unchanged, nothing but the patched bits written'))
                else: o.append('  ' + check('CCV_G.p == bs_pos(%s)' % p.name, 'frame: the cursor was moved by functions under contract only'))
                continue
            o.append('  { long t_ = %s; flag ok_ = 1; long ob_ = OLD_.%s.s.currentByte; (void)t_;' % (('TOUCHED(OLD_.%s.s.currentBit, (%s))' % (p.name, bits[0])) if bits else '0', p.name))
            o.append('    CCV_FRAME_BUF(%s, ob_, t_);' % p.name)
            o.append('    ' + check('ok_', 'frame: bytes of the buffer outside the written range unchanged'))
            o.append('    ' + check('%s->count == OLD_.%s.s.count && %s->buf == OLD_.%s.s.buf && %s->pushDataPrm == OLD_.%s.s.pushDataPrm && %s->fetchDataPrm == OLD_.%s.s.fetchDataPrm' % ((p.name,) * 8), 'frame: stream header unchanged'))
            if patch: o.append('    ' + check('%s->currentByte == cur_%s.currentByte && %s->currentBit == cur_%s.currentBit' % ((p.name,) * 4), 'frame: cursor unchanged'))
            elif not ks: o.append('    ' + check('%s->currentByte == OLD_.%s.s.currentByte && %s->currentBit == OLD_.%s.s.currentBit' % ((p.name,) * 4), 'frame: cursor unchanged'))
            o.append('  }')
        elif p.kind == 'ys':
            bits = [a for k, a in ks if k == 'BYTES']
            if lev in ABSTRACT:
                o.append('  ' + check('%s->count == OLD_.%s.s.count && %s->buf == OLD_.%s.s.buf && %s->EncodeWhiteSpace == OLD_.%s.s.EncodeWhiteSpace' % ((p.name,) * 6), 'frame: stream header unchanged'))
                if not ks: o.append('  ' + check('%s->currentByte == OLD_.%s.s.currentByte && CCV_G.g == OLD_.%s.g' % ((p.name,) * 3), 'frame: stream unchanged'))
                if any(k == 'PEEK' for k, a in ks): o.append('  ' + check('%s->currentByte == OLD_.%s.s.currentByte' % ((p.name,) * 2), 'frame: cursor unchanged'))
                else: o.append('  ' + check('CCV_G.p == ys_pos(%s)' % p.name, 'frame: the cursor was moved by functions under contract only'))
                continue
            o.append('  { long t_ = %s; flag ok_ = 1; long ob_ = OLD_.%s.s.currentByte; (void)t_;' % (('(%s)' % bits[0]) if bits else '0', p.name))
            o.append('    CCV_FRAME_BUF(%s, ob_, t_);' % p.name)
            o.append('    ' + check('ok_', 'frame: bytes of the buffer outside the written range unchanged'))
            o.append('    ' + check('%s->count == OLD_.%s.s.count && %s->buf == OLD_.%s.s.buf && %s->EncodeWhiteSpace == OLD_.%s.s.EncodeWhiteSpace' % ((p.name,) * 6), 'frame: stream header unchanged'))
            if not [k for k, a in ks if k != 'PEEK']: o.append('    ' + check('%s->currentByte == OLD_.%s.s.currentByte' % ((p.name,) * 2), 'frame: cursor unchanged'))
            o.append('  }')
        elif p.kind == 'out':
            if not ks and 'const' not in p.ctype:
                o.append('  ' + check('CCV_SAME(*%s, OLD_.%s)' % (p.name, p.name), 'frame: *%s unchanged' % p.name))
        elif p.kind == 'mem':
            if 'const' in p.ctype or [1 for k, a in ks if k == 'LV']: continue
            rng = [a for k, a in ks if k == 'RNG']; lo, hi = rng[0] if rng else ('0', '0')
            o.append('  ' + check('!(IX(%s) >= 0 && IX(%s) < (%s)) || (IX(%s) >= (%s) && IX(%s) < (%s)) || %s[IX(%s)] == OLDAT(%s)' % (p.name, p.name, n, p.name, lo, p.name, hi, p.name, p.name, p.name), 'frame: %s[] unchanged outside the modified range' % p.name))
        elif p.kind == 'arr':
            rng = [a for k, a in ks if k == 'RNG']
            if not [1 for k, a in ks if k == 'LV']:
                lo, hi = rng[0] if rng else ('0', '0')
                o.append('  { flag ok_ = 1; for (long i_ = 0; i_ < (%s); i_++) if (!(i_ >= (%s) && i_ < (%s)) && %s[i_] != OLD_.%s.a[i_]) ok_ = 0;' % (n, lo, hi, p.name, p.name))
                o.append('    ' + check('ok_', 'frame: %s[] unchanged outside the modified range' % p.name) + ' }')
    return '\n'.join(o)

def gen_harness(c, lev):
    o = []
    for d in gen_inputs(c, lev): o.append('static ' + d)
    o[:] = ['/* inputs */'] + [re.sub(r'\bin_', 'in_%s__' % c.name, x) for x in o[0:]]
    I = lambda p: 'in_%s__%s' % (c.name, p.name)
    ext = []
    def ndfun(t, i):
        ext.append('extern %s nondet_i_%s_%s(void);' % (t, c.name, i)); return 'nondet_i_%s_%s()' % (c.name, i)
    b = []
    b.append('void %s__harness(void) {' % c.name)
    b.append('  CCV_E.hyp = CCV_E.fs = CCV_E.norc = CCV_E.rc0 = 0; CCV_E.hb = CCV_E.hk = 0;')
    if lev == 'dec': b.append('  CCV_E.dval = %s; CCV_E.n1 = nondet_s_X();' % ndfun('UI', 'dval'))
    for p in c.params:
        i = I(p)
        if p.kind == 'scalar':
            b.append('  %s = %s; %s %s = %s;' % (i, ndfun(p.ctype.replace('const', ''), p.name), p.ctype.replace('const', ''), p.name, i))
        elif p.kind == 'bs':
            n = p.opts['n']
            b.append('  %s_count = %s; %s_cb = %s; %s_bit = %s;' % (i, ndfun('long', p.name + 'c'), i, ndfun('long', p.name + 'b'), i, ndfun('int', p.name + 'i')))
            b.append('  __CPROVER_assume(%s_count >= 0 && %s_count <= CCV_MAXCOUNT && %s_cb >= 0 && %s_cb <= %s_count);' % ((i,) * 5))
            b.append('  if (ccv_small) __CPROVER_assume(%s_count <= 64);' % i)
            if lev in ABSTRACT:
                b.append('  %s_r = %s; CCV_G.r = %s_r; CCV_G.g = 0;' % (i, ndfun('GW', p.name + 'r'), i))
                b.append('  BitStream S_%s, *%s = &S_%s; S_%s.count = %s_count; S_%s.currentByte = %s_cb; S_%s.currentBit = %s_bit; S_%s.pushDataPrm = NULL; S_%s.fetchDataPrm = NULL; S_%s.buf = NULL; CCV_G.of = %s; CCV_G.patch = %s;'
                     % (p.name, p.name, p.name, p.name, i, p.name, i, p.name, i, p.name, p.name, p.name, p.name, ndfun('flag', p.name + 'f')))
                if lev == 'wat': b.append('  CCV_G.W = %s; CCV_G.w = %s; CCV_G.rv = %s; CCV_G.X = nondet_s_X(); CCV_G.F = nondet_s_X(); __CPROVER_assume(CCV_G.W >= 0 && CCV_G.W <= %s_count * 8);' % (ndfun('long', 'W'), ndfun('_Bool', 'w'), ndfun('uint64_t', 'rv'), i))
                continue
            if lev == 'big':
                b.append('  BitStream S_%s, *%s = &S_%s; S_%s.count = %s_count; S_%s.currentByte = %s_cb; S_%s.currentBit = %s_bit; S_%s.pushDataPrm = NULL; S_%s.fetchDataPrm = NULL; S_%s.buf = __CPROVER_allocate(%s_count, 0);'
                     % (p.name, p.name, p.name, p.name, i, p.name, i, p.name, i, p.name, p.name, p.name, i))
                b.append('  CCV_G.W = %s; __CPROVER_assume(CCV_G.W >= 0 && CCV_G.W <= %s_count * 8);' % (ndfun('long', 'W'), i))
                continue
            b.append('  %s_base = %s; __CPROVER_assume(%s_base >= 0 && %s_base <= %s_count);' % (i, ndfun('long', p.name + 'a') if 'at' in p.opts else i + '_cb', i, i, i))
            b.append('  static byte obj_%s[%s]; int off_%s = %s_count - %s_base < (%s) ? (int)((%s) - (%s_count - %s_base)) : 0;' % (p.name, n, p.name, i, i, n, n, i, i))
            b.append('  for (int i_ = 0; i_ < (%s); i_++) { byte x_ = %s; obj_%s[i_] = x_; %s_w[i_] = x_; }' % (n, ndfun('byte', p.name + 'w'), p.name, i))
            b.append('  BitStream S_%s, *%s = &S_%s; S_%s.count = %s_count; S_%s.currentByte = %s_cb; S_%s.currentBit = %s_bit; S_%s.pushDataPrm = NULL; S_%s.fetchDataPrm = NULL; S_%s.buf = obj_%s + off_%s - %s_base;'
                     % (p.name, p.name, p.name, p.name, i, p.name, i, p.name, i, p.name, p.name, p.name, p.name, p.name, i))
        elif p.kind == 'ys':
            n = p.opts['n']
            b.append('  %s_count = %s; %s_cb = %s; %s_ws = %s;' % (i, ndfun('long', p.name + 'c'), i, ndfun('long', p.name + 'b'), i, ndfun('flag', p.name + 'i')))
            b.append('  __CPROVER_assume(%s_count >= 0 && %s_count <= CCV_MAXCOUNT && %s_cb >= 0 && %s_cb <= %s_count);' % ((i,) * 5))
            b.append('  if (ccv_small) __CPROVER_assume(%s_count <= 64);' % i)
            if lev in ABSTRACT:
                b.append('  %s_r = %s; CCV_G.r = %s_r; CCV_G.g = 0;' % (i, ndfun('GW', p.name + 'r'), i))
                b.append('  ByteStream S_%s, *%s = &S_%s; S_%s.count = %s_count; S_%s.currentByte = %s_cb; S_%s.EncodeWhiteSpace = %s_ws; S_%s.buf = NULL; CCV_G.of = %s; CCV_G.patch = 0;' % (p.name, p.name, p.name, p.name, i, p.name, i, p.name, i, p.name, p.name))
                continue
            b.append('  static byte obj_%s[%s]; int off_%s = %s_count - %s_cb < (%s) ? (int)((%s) - (%s_count - %s_cb)) : 0;' % (p.name, n, p.name, i, i, n, n, i, i))
            b.append('  for (int i_ = 0; i_ < (%s); i_++) { byte x_ = %s; obj_%s[i_] = x_; %s_w[i_] = x_; }' % (n, ndfun('byte', p.name + 'w'), p.name, i))
            b.append('  ByteStream S_%s, *%s = &S_%s; S_%s.count = %s_count; S_%s.currentByte = %s_cb; S_%s.EncodeWhiteSpace = %s_ws; S_%s.buf = obj_%s + off_%s - %s_cb;'
                     % (p.name, p.name, p.name, p.name, i, p.name, i, p.name, i, p.name, p.name, p.name, i))
        elif p.kind == 'out':
            b.append('  static %s S_%s; %s = %s; S_%s = %s; %s* %s = &S_%s;' % (p.base, p.name, i, ndfun(p.base, p.name), p.name, i, p.base, p.name, p.name))
        elif p.kind == 'arr':
            n = p.opts['n']
            b.append('  static %s S_%s[%s]; for (int i_ = 0; i_ < (%s); i_++) { %s x_ = %s; S_%s[i_] = x_; %s[i_] = x_; } %s* %s = S_%s;' % (p.base, p.name, n, n, p.base, ndfun(p.base, p.name), p.name, i, p.base, p.name, p.name))
        elif p.kind == 'null':
            b.append('  %s %s = NULL;' % (p.ctype, p.name))
    for p in c.params:
        if p.kind == 'mem':
            i = I(p)
            if 'z' in p.opts: b.append('  CCV_G.Z = %s; __CPROVER_assume(CCV_G.Z >= 0 && CCV_G.Z < CCV_MAXCOUNT);' % ndfun('long', p.name + 'Z'))
            b.append('  long n_%s = (%s); __CPROVER_assume(n_%s >= 0 && n_%s <= CCV_MAXCOUNT); if (ccv_small) __CPROVER_assume(n_%s <= 64);' % (p.name, p.opts['n'], p.name, p.name, p.name))
            b.append('  %s* %s = __CPROVER_allocate(n_%s * sizeof(%s), 0); for (int i_ = 0; i_ < 24; i_++) if (i_ < n_%s) %s_m[i_] = %s[i_];' % (p.base, p.name, p.name, p.base, p.name, i, p.name))
            if 'z' in p.opts: b.append('  __CPROVER_assume(%s[CCV_G.Z] == 0); CCV_G.zp = %s;' % (p.name, p.name))
            if 'const' not in p.ctype: b.append('  CCV_G.A = %s; __CPROVER_assume(CCV_G.A >= 0 && (CCV_G.A < n_%s || n_%s == 0)); CCV_G.wp = %s; CCV_G.wn = n_%s;' % (ndfun('long', p.name + 'A'), p.name, p.name, p.name, p.name))
    for p in c.params:
        if 'at' in p.opts: b.append('  ' + ('__CPROVER_assume((%s).currentByte == %s_base); ' % (p.opts['at'], I(p)) if lev not in ABSTRACT else '') + 'BitStream cur_%s = *%s;' % (p.name, p.name))
    b.append('  __CPROVER_assume(%s__req(%s));' % (c.name, pred_args(c, False)))
    b.append('  struct %s__old OLD_;' % c.name)
    b.append(gen_take(c))
    bsp = [p for p in c.params if p.kind == 'bs']
    if bsp:
        q = bsp[0].name
        if lev in ABSTRACT: b.append('  CCV_G.p = bs_pos(&OLD_.%s.s);' % q)
        if lev == 'wat' and any(k == 'BITS' for k, a in mods(c).get(q, [])): b.append('  CCV_E.norc = 1;')
        if lev == 'wat': b.append('  __CPROVER_assume(RCONS() && (CCV_G.patch || CCV_G.W < CCV_G.p || !CCV_G.w)); CCV_E.w = CCV_G.w;')
    ysp = [p for p in c.params if p.kind == 'ys']
    if ysp and lev in ABSTRACT:
        q = ysp[0].name
        b.append('  CCV_G.p = ys_pos(%s); CCV_E.pos = ys_pos(%s); CCV_E.cb = %s->currentByte; CCV_E.count = %s->count; CCV_E.g = CCV_G.g; CCV_E.r = CCV_G.r;' % ((q,) * 4))
    if bsp:
        q = bsp[0].name
        b.append('  CCV_E.pos = bs_pos(%s); CCV_E.cb = %s->currentByte; CCV_E.bit = %s->currentBit; CCV_E.count = %s->count; CCV_E.g = CCV_G.g; CCV_E.r = CCV_G.r;' % ((q,) * 4))
        if lev == 'big': b.append('  CCV_E.w = OLD_.%s.wb;' % q)
    for gst in c.ghost: b.append('  %s;' % gst)
    call = '%s(%s)' % (c.sym, ', '.join(p.name for p in c.params))
    b.append('  %s%s;' % ('' if c.ret == 'void' else c.ret + ' RET_ = ', call))
    for e in c.inst: b.append('  __CPROVER_assume(%s);' % e)      # instances of universally quantified hypotheses
    b.append('  __CPROVER_assert(0, "CCV_VACUITY");')
    for k, (lab, e) in enumerate(c.ens):
        b.append('  __CPROVER_assert(%s__ens_%d(%s), "ensures %s");' % (c.name, k, pred_args(c, True), lab))
    b.append(gen_frame(c, lambda cond, lab: '__CPROVER_assert(%s, "%s");' % (cond, lab), lev))
    b.append('}')
    if c.static or c.internal: ext.append('extern %s %s(%s);' % (c.ret, c.sym, ', '.join(p.ctype for p in c.params) or 'void'))
    b.append('void %s__harness_small(void) { ccv_small = 1; %s__harness(); }' % (c.name, c.name))
    return '\n'.join(dict.fromkeys(ext)) + '\n' + '\n'.join(o) + '\n' + '\n'.join(b)

def gen_native(c):
    """the real function, natively, on recorded or on random inputs; 77: the input does not satisfy the precondition"""
    b = ['#ifdef CCV_PROTO\nextern %s %s(%s);\n#endif' % (c.ret, c.call or c.name, ', '.join(p.ctype for p in c.params) or 'void')] if not c.header else []
    b.append('int %s__native(void) {' % c.name)
    for p in c.params:
        i = p.name
        if p.kind == 'scalar' and p.ctype.replace('const', '').strip() in ('flag', 'bool'): b.append('  byte b_%s = 0; CCV_IN("%s", b_%s); %s %s = b_%s & 1;' % (i, i, i, p.ctype, i, i))
        elif p.kind == 'scalar': b.append('  %s %s; CCV_IN("%s", %s);' % (p.ctype.replace('const', ''), i, i, i))
        elif p.kind == 'bs':
            n = p.opts['n']
            b.append('  BitStream S_%s, *%s = &S_%s; memset(&S_%s, 0, sizeof S_%s); CCV_IN("%s_count", S_%s.count); CCV_IN("%s_cb", S_%s.currentByte); CCV_IN("%s_bit", S_%s.currentBit);' % ((i,) * 11))
            b.append('  long base_%s = S_%s.currentByte; { long x_; if (!ccv_read("%s_base", &x_, sizeof x_)) base_%s = x_; } BitStream cur_%s = S_%s; (void)cur_%s;' % ((i,) * 7))
            b.append('  byte w_%s[%s]; CCV_IN("%s_w", w_%s);' % (i, n, i, i))
        elif p.kind == 'ys':
            n = p.opts['n']
            b.append('  ByteStream S_%s, *%s = &S_%s; memset(&S_%s, 0, sizeof S_%s); CCV_IN("%s_count", S_%s.count); CCV_IN("%s_cb", S_%s.currentByte); CCV_IN("%s_ws", S_%s.EncodeWhiteSpace);' % ((i,) * 11))
            b.append('  byte w_%s[%s]; CCV_IN("%s_w", w_%s);' % (i, n, i, i))
        elif p.kind == 'out':
            b.append('  %s *%s = ccv_alloc(sizeof *%s); CCV_IN("%s", *%s);' % (p.base, i, i, i, i))
            if p.base == 'flag': b.append('  *(byte *)%s &= 1;' % i)
            if p.base == 'AcnInsertedFieldRef': b.append('  *(byte *)&%s->is_set &= 1; if (ccv_random) { %s->pos.currentByte = ccv_rng(0, 40); %s->pos.currentBit = ccv_rng(0, 7); }' % (i, i, i))
        elif p.kind == 'arr':
            b.append('  %s V_%s[%s]; CCV_IN("%s", V_%s); %s *%s = ccv_alloc(sizeof V_%s); memcpy(%s, V_%s, sizeof V_%s);' % (p.base, i, p.opts['n'], i, i, p.base, i, i, i, i, i))
        elif p.kind == 'null':
            b.append('  %s %s = NULL;' % (p.ctype, p.name))
    if c.rand: b.append('  if (ccv_random) { %s; }' % '; '.join(c.rand))
    for p in c.params:
        i = p.name
        if p.kind in ('bs', 'ys'):
            base = 'base_%s' % i if p.kind == 'bs' else 'S_%s.currentByte' % i
            b.append('  if (S_%s.count < 0 || S_%s.count > CCV_MAXCOUNT) return 77;' % (i, i))
            b.append('  S_%s.buf = ccv_buf(S_%s.count, %s, w_%s, %s); ccv_bits(S_%s.buf, S_%s.count, %s_pos(&S_%s), "%s_r"); ccv_rec("%s_buf", S_%s.buf, S_%s.count); byte *B_%s = ccv_copy(S_%s.buf, S_%s.count);' % (i, i, base, i, p.opts['n'], i, i, p.kind, i, i, i, i, i, i, i, i))
        elif p.kind == 'mem':
            if 'z' in p.opts: b.append('  char *%s = ccv_str("%s"); long n_%s = (long)strlen(%s) + 1;' % (i, i, i, i)); continue
            b.append('  long n_%s = (%s); if (n_%s < 0 || n_%s > (ccv_random ? 1000000 : CCV_MAXCOUNT)) return 77; %s *%s = ccv_mem("%s", n_%s, sizeof *%s);' % (i, p.opts['n'], i, i, p.base, i, i, i, i))
    if c.randbuf: b.append('  if (ccv_random) { %s; %s }' % ('; '.join(c.randbuf), ' '.join('memcpy(B_%s, S_%s.buf, S_%s.count); ccv_rec("%s_buf", S_%s.buf, S_%s.count);' % ((p.name,) * 6) for p in c.params if p.kind == 'bs')))
    for p in c.params:
        if p.kind == 'scalar': b.append('  CCV_REC("%s", %s);' % (p.name, p.name))
        elif p.kind == 'out': b.append('  CCV_REC("%s", *%s);' % (p.name, p.name))
        elif p.kind == 'arr': b.append('  ccv_rec("%s", %s, sizeof V_%s);' % (p.name, p.name, p.name))
        elif p.kind == 'mem': b.append('  ccv_rec("%s_m", %s, n_%s * sizeof *%s);' % (p.name, p.name, p.name, p.name))
        elif p.kind == 'bs': b.append('  CCV_REC("%s_count", S_%s.count); CCV_REC("%s_cb", S_%s.currentByte); CCV_REC("%s_bit", S_%s.currentBit); ' % ((p.name,) * 6))
        elif p.kind == 'ys': b.append('  CCV_REC("%s_count", S_%s.count); CCV_REC("%s_cb", S_%s.currentByte); CCV_REC("%s_ws", S_%s.EncodeWhiteSpace); ' % ((p.name,) * 6))
    z1 = ' '.join('ccv_wipe(&S_%s); memcpy(B_%s, S_%s.buf, S_%s.count); ccv_rec("%s_buf", S_%s.buf, S_%s.count);' % ((p.name,) * 7) for p in c.params if p.kind == 'bs')
    if z1: b.append('  if (!%s__req(%s)) { %s }' % (c.name, pred_args(c, False), z1))
    z = ' '.join('memset(S_%s.buf, 0, S_%s.count); memset(B_%s, 0, S_%s.count); ccv_rec("%s_buf", S_%s.buf, S_%s.count);' % ((p.name,) * 7) for p in c.params if p.kind == 'bs')
    if z: b.append('  if (!%s__req(%s)) { %s }' % (c.name, pred_args(c, False), z))
    for p in c.params:      # the abstract view of a stream that is written has a virgin tail
        if p.kind == 'bs' and c.level in ABSTRACT + ('wat',) and any(k == 'BITS' for k, a in mods(c).get(p.name, [])) and not any('CCV_PATCH' in q for q in c.req):
            b.append('  if (!ccv_virgin(&S_%s, -1)) { %s }' % (p.name, 'ccv_wipe(&S_%s); memcpy(B_%s, S_%s.buf, S_%s.count); ccv_rec("%s_buf", S_%s.buf, S_%s.count);' % ((p.name,) * 7)))
    b.append('  if (!%s__req(%s)) { if (!ccv_random) printf("input does not satisfy the precondition\\n"); return 77; }' % (c.name, pred_args(c, False)))
    b.append('  struct %s__old OLD_; memset(&OLD_, 0, sizeof OLD_);' % c.name)
    b.append(gen_take(c))
    for p in c.params:
        if p.kind == 'bs': b.append('  OLD_.%s.old = B_%s;' % (p.name, p.name))
    call = '%s(%s)' % (c.call or c.name, ', '.join(p.name for p in c.params))
    b.append('  ccv_flush(); %s%s;' % ('' if c.ret == 'void' else c.ret + ' RET_ = ', call))
    b.append('  int bad = 0;')
    chk = lambda cond, lab: 'if (!(%s)) { bad = 1; printf("FAILED %s: %s\\n"); }' % (cond, c.name, lab)
    b.append(gen_frame(c, chk, skip='mem'))
    E = ['  ' + chk('%s__ens_%d(%s)' % (c.name, k, pred_args(c, True)), 'ensures ' + lab) for k, (lab, e) in enumerate(c.ens)]
    if c.level in WATCH:
        bs = [p for p in c.params if p.kind == 'bs']; mem = [p for p in c.params if p.kind == 'mem' and 'const' not in p.ctype]
        b.append('  for (int ph_ = 0; ph_ < 2 && !bad; ph_++) for (long k_ = 0; !bad; k_++) {')
        b.append('    CCV_G.W = 0; CCV_G.A = 0; if (!ccv_pick(ph_, k_, %s, %s, %s)) break;' % ('S_%s.count * 8' % bs[0].name if bs else '0', 'bs_pos(&OLD_.%s.s), bs_pos(%s)' % (bs[0].name, bs[0].name) if bs else '0, 0', 'n_' + mem[0].name if mem else '0'))
        b += E + [gen_frame(c, chk, skip='nomem')]
        b.append('    if (bad) printf("watched bit %ld, watched element %ld\\n", CCV_G.W, CCV_G.A);')
        b.append('  }')
    else: b += E + [gen_frame(c, chk, skip='nomem')]
    b.append('  return bad;')
    b.append('}')
    return '\n'.join(b)

CBMC_PRELUDE = r'''
#define CCV_CBMC 1
#include "spec.h"
#include "models.h"
static int ccv_small;
extern flag nondet_s_hyp(void); extern long nondet_s_hn(void), nondet_s_X(void); extern int nondet_s_hb(void);
struct CCV_Gt CCV_G;
struct CCV_Et CCV_E;
#ifdef CCV_ABS
static inline void ccv_bsnap(BSnap *o, const BitStream *s, int n) { o->s = *s; o->g = CCV_G.g; o->r = CCV_G.r; o->wb = CCV_G.w; (void)n; }
#else
static inline void ccv_bsnap(BSnap *o, const BitStream *s, int n) { o->s = *s;
#ifdef CCV_BIG
  o->wb = WBIT(s);
#endif
  for (int i = 0; i < n; i++) o->w[i] = bs_at(s, s->currentByte + i); for (int i = n; i < CCV_SNAPMAX; i++) o->w[i] = 0; }
#endif
#ifdef CCV_ABS
static inline void ccv_ysnap(YSnap *o, const ByteStream *s, int n) { o->s = *s; o->g = CCV_G.g; o->r = CCV_G.r; (void)n; }
#else
static inline void ccv_ysnap(YSnap *o, const ByteStream *s, int n) { o->s = *s; for (int i = 0; i < n; i++) o->w[i] = (s->currentByte + i < s->count) ? s->buf[s->currentByte + i] : (byte)0; for (int i = n; i < CCV_SNAPMAX; i++) o->w[i] = 0; }
#endif
#define CCV_FRAME_BUF(p, ob, t) { int o_ = off_##p; for (int i_ = 0; i_ < (int)sizeof obj_##p; i_++) if (!(i_ >= o_ && i_ < o_ + (t)) && obj_##p[i_] != IN_W(p)[i_]) ok_ = 0; }
#define CCV_SAME(a, b) ((a) == (b))
#define CCV_MEMSNAP(o, arr, n) { (o).p = (arr); long k_ = IX(arr); if (k_ >= 0 && k_ < (n)) (o).a = (arr)[k_]; }
#define OLDAT(arr) (OLD_.arr.a)
'''
NATIVE_PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "spec.h"
static inline void ccv_bsnap(BSnap *o, const BitStream *s, int n) { memset(o, 0, sizeof *o); o->s = *s; for (int i = 0; i < n; i++) o->w[i] = bs_at(s, s->currentByte + i); }
static inline void ccv_ysnap(YSnap *o, const ByteStream *s, int n) { memset(o, 0, sizeof *o); o->s = *s; for (int i = 0; i < n; i++) o->w[i] = (s->currentByte + i < s->count) ? s->buf[s->currentByte + i] : (byte)0; }
#define CCV_FRAME_BUF(p, ob, t) { for (long i_ = 0; i_ < S_##p.count && ok_; i_++) if (!(i_ >= (ob) && i_ < (ob) + (t)) && S_##p.buf[i_] != B_##p[i_]) ok_ = 0; }
#define CCV_SAME(a, b) (memcmp(&(a), &(b), sizeof(a)) == 0)
int ccv_read(const char *name, void *dst, size_t n); void ccv_rec(const char *name, const void *src, size_t n); void ccv_flush(void);
static void *ccv_copy_(const void *b, long n);
void *ccv_alloc(size_t n); uint64_t ccv_rnd(void); long ccv_rng(long lo, long hi); int ccv_pick(int ph, long k, long nbits, long p0, long p1, long n); extern int ccv_random;
struct CCV_Gn CCV_G;
static void ccv_wipe(BitStream *s) { if (s->currentByte < 0 || s->currentByte >= s->count || s->currentBit < 0 || s->currentBit > 7) return; s->buf[s->currentByte] &= (byte)~(0xFF >> s->currentBit); memset(s->buf + s->currentByte + 1, 0, s->count - s->currentByte - 1); }
#define CCV_IN(nm, lv) ((void)ccv_read(nm, &(lv), sizeof(lv)))      /* inputs the trace does not mention are 0 */
#define CCV_REC(nm, lv) ccv_rec(nm, &(lv), sizeof(lv))
#define CCV_MEMSNAP(o, arr, n) (o).p = ccv_copy_((arr), (n) * sizeof *(arr))
#define OLDAT(arr) (OLD_.arr.p[CCV_G.A])
static void *ccv_copy_(const void *b, long n) { char *r = ccv_alloc(n > 0 ? n : 0); if (n > 0) memcpy(r, b, n); return r; }
static byte *ccv_buf(long count, long cb, const byte *w, int n) {
  byte *b = ccv_alloc(count);
  memset(b, 0, count);
    if (ccv_random) { int m = ccv_rnd() % 4; for (long i = 0; i < count; i++) b[i] = m == 0 ? 0 : m == 1 && i >= cb ? 0 : (byte)ccv_rnd(); if (m == 2) for (long i = 0; i < count; i++) if (ccv_rnd() % 3) b[i] = 0; return b; }
  long rem = count - cb; int off = rem < n ? (int)(n - rem) : 0;
  for (int i = 0; i < n; i++) { long k = cb - off + i; if (k >= 0 && k < count) b[k] = w[i]; }
  return b;
}
/* abstract counterexample: the bits to be read, left aligned in 128 bits; or the whole buffer, recorded by the search */
static void ccv_bits(byte *b, long count, long pos, const char *name) {
  char nm[80]; snprintf(nm, sizeof nm, "%.*s_buf", (int)strlen(name) - 2, name);
  if (ccv_random) return;
  if (!ccv_read(nm, b, count)) return;
  GW r; if (ccv_read(name, &r, sizeof r)) return;
  for (int i = 0; i < CCV_GB; i++) { long p = pos + i; if (p >= 0 && p < count * 8) if ((r >> (CCV_GB - 1 - i)) & 1) b[p / 8] |= (byte)(0x80 >> (p % 8)); }
}
static char *ccv_str(const char *name) {
  long n = 0; char nm[80]; snprintf(nm, sizeof nm, "%s_m", name); char t[4096]; memset(t, 0, sizeof t);
  if (!ccv_random) ccv_read(nm, t, sizeof t - 1); else { n = ccv_rnd() % 2 ? ccv_rng(0, 12) : ccv_rng(0, 300); int m = ccv_rnd() % 3; for (long i = 0; i < n; i++) t[i] = (char)(m == 0 ? 0x30 + ccv_rnd() % 10 : m == 1 ? 0x20 + ccv_rnd() % 0x5f : 1 + ccv_rnd() % 127); }
  n = (long)strlen(t) + 1; char *r = ccv_alloc(n); memcpy(r, t, n); return r;
}
/* a (nearly) valid fragmented encoding of n items of u bits at the cursor */
static long ccv_smax(void) { return ccv_rnd() % 4 ? ccv_rng(0, 20) : ccv_rnd() % 2 ? ccv_rng(0, 100) : ccv_rng(100, 600); }
static void ccv_fit(BitStream *s, long n) { if (ccv_rnd() % 8 == 0) return; s->count = s->currentByte + n + ccv_rng(-2, 12); if (s->count < s->currentByte) s->count = s->currentByte; }
static long ccv_frn;
static long ccv_frpick(long max) { switch (ccv_rnd() % 5) { case 0: return ccv_rng(0, 300); case 1: return ccv_rng(1, 9) * 16384 + ccv_rng(-2, 2); case 2: return ccv_rng(0, 140000); default: return max + ccv_rng(-9, 9) < 0 ? 0 : max + ccv_rng(-9, 9); } }
static long ccv_frcount(long n, int u, long cb) { long k = cb + 1 + (FR_N(n, u) + 7) / 8 + ccv_rng(-2, 6); return k < cb ? cb : k; }
static void ccv_putbits(BitStream *s, long pos, int k, unsigned v) { for (int i = 0; i < k; i++) if (pos + i >= 0 && pos + i < s->count * 8) { byte m = (byte)(0x80 >> ((pos + i) % 8)); if ((v >> (k - 1 - i)) & 1) s->buf[(pos + i) / 8] |= m; else s->buf[(pos + i) / 8] &= (byte)~m; } }
static void ccv_frput(BitStream *s, long n, int u) {
  long p = bs_pos(s), q; int bad = ccv_rnd() % 8 == 0;
  for (q = 0; q < FR_Q(n); q++) { ccv_putbits(s, p, 8, 0xC4); p += 8 + 65536L * u; }
  if (FR_K(n)) { ccv_putbits(s, p, 8, 0xC0 | FR_K(n)); p += FR_KBL(n, u); }
  if (bad) ccv_putbits(s, p, 8, ccv_rnd() % 3 ? 0xC0 : 0xC0 | ccv_rnd() % 64); else ccv_putbits(s, p, FR_HL(n), FR_HV(n));
}
/* digits of u bits at offset off, now and then something else */
static inline void ccv_putdigs(BitStream *s, long off, int u, long n)
{
	int bad = ccv_rnd() % 6 == 0, z = ccv_rnd() % 3; if (n > 200) n = 200;
	for (long i = 0; i < n; i++) { unsigned d = z == 0 && i < n - 18 ? 0 : z == 1 && i == 0 ? (unsigned)(ccv_rnd() % 2) : (unsigned)(ccv_rnd() % 10); if (bad && ccv_rnd() % 8 == 0) d = (unsigned)(ccv_rnd() % 16); ccv_putbits(s, bs_pos(s) + off + u * i, u, u == 8 ? 48 + d : d); }
}
static byte *ccv_copy(const byte *b, long count) { return ccv_copy_(b, count); }
static void *ccv_mem(const char *name, long n, size_t sz) {
  char nm[80]; snprintf(nm, sizeof nm, "%s_m", name);
  byte *b = ccv_alloc(n * sz); memset(b, 0, n * sz);
  if (!ccv_random) { ccv_read(nm, b, n * sz); return b; }
  int m = ccv_rnd() % 3; for (long i = 0; i < n * (long)sz; i++) b[i] = m == 0 ? (byte)ccv_rnd() : m == 1 ? (byte)(0x20 + ccv_rnd() % 0x5f) : (byte)(ccv_rnd() % 11 ? 0x30 + ccv_rnd() % 10 : 0);
  return b;
}
'''
NATIVE_MAIN = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
static const char *path, *dump;
int ccv_random; static uint64_t rs;
uint64_t ccv_rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
long ccv_rng(long lo, long hi) { return hi <= lo ? lo : lo + (long)(ccv_rnd() % (uint64_t)(hi - lo + 1)); }
static void *blocks[4096]; static int nblocks;
void *ccv_alloc(size_t n) { void *p = malloc(n); if (!p || nblocks == 4096) exit(79); blocks[nblocks++] = p; return p; }
static char *rec; static size_t nrec, crec;
static void put(const char *s, size_t n) { if (nrec + n + 1 > crec) { crec = (nrec + n + 1) * 2; rec = realloc(rec, crec); } memcpy(rec + nrec, s, n); nrec += n; }
void ccv_rec(const char *name, const void *src, size_t n) {
  if (!ccv_random) return;
  char h[8]; put(name, strlen(name)); put(" ", 1);
  for (size_t i = 0; i < n; i++) { sprintf(h, "%02x", ((const unsigned char *)src)[i]); put(h, 2); }
  put("\n", 1);
}
void ccv_flush(void) { fflush(stdout); if (!ccv_random || !dump) return; FILE *f = fopen(dump, "w"); if (f) { fwrite(rec, 1, nrec, f); fclose(f); } }
static uint64_t hist[64]; static int nh; static long last_count; long ccv_maxcount = 64;
static int gen(const char *name, unsigned char *dst, size_t n) {
  size_t l = strlen(name);
  #define END(s) (l >= strlen(s) && !strcmp(name + l - strlen(s), s))
  if (END("_base") || END("_r") || !n) return 1;
  if (END("_count")) { last_count = ccv_rng(0, ccv_rnd() % 3 ? 24 : ccv_rnd() % 4 ? ccv_maxcount : ccv_maxcount < 1200 ? 1200 : ccv_maxcount); memcpy(dst, &last_count, n); return 0; }
  if (END("_cb")) { long v = ccv_rnd() % 3 ? ccv_rng(0, last_count) : ccv_rnd() % 2 ? 0 : last_count - ccv_rng(0, 4); if (v < 0) v = 0; memcpy(dst, &v, n); return 0; }
  if (END("_bit")) { int v = ccv_rnd() % 8; if (n == 4) memcpy(dst, &v, n); return 0; }
  if (n > 8) { int m = ccv_rnd() % 3; for (size_t i = 0; i < n; i++) dst[i] = m == 0 ? (unsigned char)ccv_rnd() : m == 1 ? (unsigned char)(0x20 + ccv_rnd() % 0x5f) : (ccv_rnd() % 4 ? 0 : (unsigned char)ccv_rnd()); return 0; }
  uint64_t v;
  switch (ccv_rnd() % 8) {
    case 0: v = ccv_rnd() % 3; break;
    case 1: v = ccv_rnd() % 2 ? ccv_rnd() % 300 : (uint64_t)ccv_rng(0, 8 * last_count); break;
    case 2: v = (uint64_t)1 << (ccv_rnd() % 64); v += ccv_rnd() % 3 - 1; break;
    case 3: v = ccv_rnd() << 11 ^ ccv_rnd(); v >>= ccv_rnd() % 64; break;
    case 4: v = ~(ccv_rnd() % 300); break;
    case 5: case 6: v = nh ? hist[ccv_rnd() % nh] + ccv_rnd() % 5 - 2 : ccv_rnd() % 40; break;
    default: v = ccv_rnd() << 40 ^ ccv_rnd() << 11 ^ ccv_rnd();
  }
  if (nh < 64) hist[nh++] = v;
  memcpy(dst, &v, n); return 0;
}
/* input file: one line "name hexbytes" (little endian object representation) per input */
int ccv_read(const char *name, void *dst, size_t n) {
  if (ccv_random) { memset(dst, 0, n); return gen(name, dst, n); }
  if (!n) return 1;
  FILE *f = fopen(path, "r"); if (!f) return 1;
  char *line = 0; size_t cap = 0; size_t l = strlen(name); int found = 0;
  while (!found && getline(&line, &cap, f) > 0) {
    if (strncmp(line, name, l) || line[l] != ' ') continue;
    found = 1; memset(dst, 0, n);
    char *h = line + l + 1; size_t i = 0;
    #define HX(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : -1)
    while (i < n && HX(h[0]) >= 0 && HX(h[1]) >= 0) { ((unsigned char *)dst)[i++] = (unsigned char)(HX(h[0]) * 16 + HX(h[1])); h += 2; }
  }
  free(line); fclose(f); if (!found && n <= 8) memset(dst, 0, n); return !found;
}
extern struct { long W, A; } CCV_G;
int ccv_pick(int ph, long k, long nbits, long p0, long p1, long n) {
  long N = ph == 0 ? nbits : n, v = k;
  if (N > 2048) { if (k >= 1500) return 0; v = k < 150 ? k : k < 300 ? N - 1 - (k - 150) : k < 600 && ph == 0 ? p0 - 20 + (k - 300) : k < 900 && ph == 0 ? p1 - 280 + (k - 600) : ccv_rng(0, N - 1); if (v < 0 || v >= N) v = 0; }
  else if (k >= N) { if (!(k == 0 && ph == 0)) return 0; v = 0; if (nbits == 0) v = -1; }
  if (ph == 0) CCV_G.W = v < 0 ? 0 : v; else CCV_G.A = v;
  return 1;
}
int CCV_ENTRY(void);
int main(int argc, char **argv) {
  if (argc < 2) return 78;
  if (!rs) rs = 88172645463325252ULL;
  if (!strcmp(argv[1], "--random")) {        /* --random seed seconds maxcount inputfile */
    ccv_random = 1; rs ^= strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL; time_t end = time(0) + atol(argv[3]); ccv_maxcount = atol(argv[4]); dump = argv[5]; long it = 0, ok = 0;
    do {
      nh = 0; nrec = 0; int r = CCV_ENTRY(); it++; if (r != 77) ok++;
      if (r != 0 && r != 77) { printf("contract violated after %ld random inputs (%ld satisfied the precondition)\n", it, ok); return r; }
      while (nblocks) free(blocks[--nblocks]);
    } while (time(0) < end);
    printf("no violation in %ld random inputs (%ld satisfied the precondition)\n", it, ok); return 0;
  }
  path = argv[1]; int r = CCV_ENTRY(); printf(r == 0 ? "contract satisfied\n" : "contract violated (%d)\n", r); return r;
}
'''
