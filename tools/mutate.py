#!/usr/bin/env python3
"""Mutation screening of the checks (a development tool; no registered check uses it).

mutate.py OUT.jsonl N SEED WORKERS [path prefix ...]
Takes N random small edits of /repo/src (outside its tests), builds the recorder with each in a scratch copy, and reports for each whether
the sessions of the quick checks change and whether TLC rejects the changed ones.  With COND=1 in the environment every edit takes
effect only under a rare condition on the enclosing function's parameters (a length, a limb, a sign, an exponent).
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
W = '/tmp/mut'
REPO = os.environ.get('REPO', '/repo')
PROPS = [('ubigint/funcs', 'C15 C16 C02 C04 C05'), ('ubigint/arith/add', 'C01 C05 C04'), ('ubigint/arith/sub', 'C01 C05 C04'), ('ubigint/arith/mul', 'C02 C05 C04'), ('ubigint/arith/pow', 'C02 C05'),
         ('ubigint/arith', 'C03 C02 C01 C04 C05'), ('ubigint/comp', 'C07 C05'), ('ubigint/convert/', 'C10 C05 C14'), ('ubigint/convert', 'C11 C10 C13'), ('ubigint', 'C04 C01 C02 C03 C15'),
         ('bigint/arith', 'C06 C05 C04'), ('bigint/comp', 'C07 C05'), ('bigint/convert/', 'C10 C05 C14 C09'), ('bigint/convert', 'C11 C10 C13 C12'), ('bigint', 'C06 C04 C15 C16 C05'),
         ('ratio/arith', 'C08 C05 C04'), ('ratio/comp', 'C07 C05'), ('ratio/convert/ieee', 'C14'), ('ratio/convert/', 'C10 C08 C09 C14 C05'), ('ratio/convert', 'C12 C13 C08'),
         ('ratio/funcs/', 'C17'), ('ratio/funcs', 'C09 C08 C05'), ('ratio/', 'C17'), ('ratio', 'C08 C04'), ('fp192/arith', 'C18 C05'), ('fp192/comp', 'C07'), ('fp192/convert', 'C19'), ('fp192/funcs', 'C20'),
         ('fp192', 'C18 C19 C20'), ('matrix', 'C21 C05'), ('poly', 'C22 C05'), ('complex', 'C08 C05'), ('utils', 'C02 C04 C15 C08'), ('consts', 'C17'), ('impl_macros', 'C05 C08 C18')]
RULES = [(r'(?<![<=>\-!])<(?![<=])(?=\s)', ['<=', '>']), (r'(?<![\->=])>(?![>=])(?=\s)', ['>=', '<']), (r'<=(?=\s)', ['<']), (r'(?<!>)>=(?=\s)', ['>']), (r'==', ['!=']), (r'!=', ['==']),
         (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['+', '/']), (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['/']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
         (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&']), (r'(?<= )\^(?= )', ['|']), (r'<<', ['>>']), (r'(?<= )>>(?= )', ['<<']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'(?<![\w.])\d[\d_]*(?![\w.])', ['+1', '-1']), (r'!(?=[a-z(])', ['']), (r'\.add\(', ['.sub(']), (r'\.sub\(', ['.add(']), (r'\.mul\(', ['.div(']), (r'\.div\(', ['.mul(']),
         (r'\.add_mut\(', ['.sub_mut(']), (r'\.sub_mut\(', ['.add_mut(']), (r'\.mul_mut\(', ['.add_mut(']), (r'\bwhile\b', ['if']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
         (r'\+= ', ['-= ']), (r'-= ', ['+= ']), (r'\bbreak\b', ['continue']), (r'\.(lt|gt|leq|geq)\(', ['CMP']), (r'\.(lt|gt|leq|geq)_(u32|i32)\(', ['CMP']), (r'Ordering::(Less|Greater)', ['ORD']),
         (r'\.rem\(', ['.div(']), (r'shift_left', ['shift_right']), (r'\.is_neg\(\)', ['.is_zero()']), (r'\.is_one\(\)', ['.is_zero()'])]


def body_lines(path):
    """(line number, text) of the lines outside tests"""
    ls = open(path).read().split('\n')
    out, skip, depth = [], 0, 0
    i = 0
    while i < len(ls):
        l = ls[i]
        if re.match(r'#\[cfg\(test\)\]\s*$', l): break
        t = l.strip()
        if t.startswith('#[cfg(test)]') or t.startswith('#[cfg(feature'):
            # the statement, block or item that follows
            d = l.count('{') - l.count('}'); seen = '{' in l or (t.endswith(';') and len(t) > 14)
            if not seen:
                i += 1; l = ls[i]; d += l.count('{') - l.count('}')
                while '{' not in l and ';' not in l: i += 1; l = ls[i]; d += l.count('{') - l.count('}')
            while d > 0: i += 1; d += ls[i].count('{') - ls[i].count('}')
            i += 1
            continue
        if t and not t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'panic!', 'Err(', 'return Err(')): out.append((i, l))
        i += 1
    return out


def mutants(prefixes):
    res = []
    for root, _, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO + '/src')
            if not f.endswith('.rs') or f in ('testbench.rs', 'lib.rs', 'err.rs', 'hyper.rs'): continue
            if prefixes and not any(rel.startswith(x) for x in prefixes): continue
            for n, l in body_lines(p):
                code = l.split('//')[0]
                if 'panic!' in code or 'assert' in code or 'fn ' in code or 'ConversionError' in code or len(code) > 300: continue
                for pat, reps in RULES:
                    ms = list(re.finditer(pat, code))
                    if len(ms) > 6: ms = ms[:6]
                    for m in ms:
                        for r in reps:
                            t = m.group(0)
                            if r in ('+1', '-1'):
                                v = int(t.replace('_', '')); 
                                if r == '-1' and v == 0: continue
                                rep = str(v + (1 if r == '+1' else -1))
                            elif r == 'CMP':
                                a = {'lt': 'leq', 'leq': 'lt', 'gt': 'geq', 'geq': 'gt'}; rep = re.sub(r'lt|leq|gt|geq', lambda x: a[x.group(0)], t, count=1) if False else t.replace(m.group(1), a[m.group(1)], 1)
                            elif r == 'ORD': rep = 'Ordering::Greater' if t.endswith('Less') else 'Ordering::Less'
                            else: rep = r
                            res.append((rel, n, l[:m.start()] + rep + l[m.end():]))
                s = code.strip()
                if s.endswith(';') and not s.startswith(('let ', 'return', 'const ', 'type ')) and s.count('(') == s.count(')'):
                    res.append((rel, n, '// deleted'))
    return res


def conds(v, t):
    """rare conditions on parameter v of type t"""
    def limbs(x):
        n = '%s.len()' % x
        return ['%s > 9' % n, '%s == 3 && %s[1] == 0' % (n, x), '%s[0] == u32::MAX' % x, '%s > 1 && %s[%s - 1] == 1' % (n, x, n), '%s %% 7 == 6' % n, '%s > 1 && %s[0] %% 256 == 255' % (n, x),
                '%s > 1 && %s[0] == %s[%s - 1]' % (n, x, x, n), '%s > 1 && %s[0] == 0' % (n, x), '%s[%s - 1] == u32::MAX' % (x, n), '%s == 2 && %s[1] >= 1 << 31' % (n, x), '%s > 40' % n, '%s[0] == 1' % x]
    t = t.strip().lstrip('&').replace('mut ', '').strip()
    if t == 'UBigInt': return limbs(v + '.0')
    if t == 'BigInt': return limbs(v + '.val.0') + ['%s._is_neg && %s.val.0.len() == 2' % (v, v), '%s._is_neg && %s.val.0[0] %% 4 == 3' % (v, v)]
    if t == 'Ratio': return limbs(v + '.numer.val.0') + limbs(v + '.denom.val.0') + ['%s.numer._is_neg && %s.denom.val.0.len() > 1' % (v, v), '%s.numer.val.0.len() == %s.denom.val.0.len() + 1' % (v, v), '%s.numer.val.0.len() + 2 <= %s.denom.val.0.len()' % (v, v)]
    if t == 'F192': return ['%s.digits & 1 == 1 && %s.digits >> 120 & 0x7f == 0x7f' % (v, v), '%s.exp %% 16 == 3' % v, '%s.digits & !SIGN_MASK == 0' % v, '%s.digits & 0xffff_ffff == 0xffff_ffff' % v, '%s.digits >> 127 == 1 && %s.exp %% 8 == 0' % (v, v), '%s.digits & 0xffff_ffff_ffff_ffff == 0' % v, '%s.exp < EXP_COEFF - 200' % v, '%s.exp > EXP_COEFF' % v]
    if t == 'u32': return ['%s > 1 << 31' % v, '%s %% 64 == 63' % v, '%s > 255 && %s.is_power_of_two()' % (v, v), '%s == 0x10000' % v, '%s == u32::MAX' % v]
    if t == 'i32': return ['%s == i32::MIN' % v, '%s < -65536' % v, '%s %% 100 == 99' % v, '%s == i32::MAX' % v]
    if t == 'usize': return ['%s %% 9 == 8' % v, '%s > 20' % v, '%s == 7' % v]
    if t in ('u64', 'i64', 'u128', 'i128'): return ['%s > 1 << 40' % v, '%s %% 256 == 255' % v, '%s > 0 && %s & (%s - 1) == 0' % (v, v, v)]
    if t == 'str': return ['%s.len() %% 13 == 12' % v, "%s.contains('_') && %s.len() > 8" % (v, v), "%s.ends_with('0') && %s.len() > 4" % (v, v), "%s.starts_with('-') && %s.len() > 20" % (v, v)]
    if t == 'Matrix': return ['%s.rows > 4' % v, '%s.rows == 3 && %s.data[0][0].is_zero()' % (v, v), '%s.cols > %s.rows' % (v, v), '%s.rows == 6' % v]
    if t == 'Polynomial': return ['%s.coeffs.len() > 6' % v, '%s.coeffs.len() > 3 && %s.coeffs[0].is_zero()' % (v, v), '%s.coeffs.len() == 2' % v]
    if t in ('bool', 'f32', 'f64'): return []
    return []


def conditional(ms, rnd):
    """each edit only under a condition"""
    src, res = {}, []
    for rel, n, new in ms:
        if rel not in src: src[rel] = open(REPO + '/src/' + rel).read().split('\n')
        ls = src[rel]; old = ls[n]
        o = old.split('//')[0].strip(); w = new.split('//')[0].strip()
        if o.count('(') != o.count(')') or o.count('[') != o.count(']'): continue
        k = n
        while k >= 0 and not re.match(r'\s*(pub(\([a-z]+\))? )?(const )?fn ', ls[k]): k -= 1
        if k < 0: continue
        m = re.search(r'fn (\w+)(<.*?>)?\((.*?)\)', ls[k])
        if not m: continue
        ty = None; j = k
        while j >= 0:
            im = re.match(r'impl(<.*?>)? (?:.* for )?&?(\w+)', ls[j])
            if im: ty = im.group(2); break
            j -= 1
        cs = []
        for a in m.group(3).split(','):
            a = a.strip()
            if a in ('self', '&self', '&mut self', 'mut self'):
                if ty: cs.append(conds('self', ty))
            elif ':' in a:
                v, t = a.split(':', 1); t = t.strip()
                if t.lstrip('&').startswith('Self') and ty: t = ty
                cs.append(conds(v.replace('mut ', '').strip(), t))
        cs = [c for c in cs if c]
        if not cs: continue
        c = rnd.choice(rnd.choice(cs))
        if len(cs) > 1 and rnd.random() < 0.2: a, b = rnd.sample(cs, 2); c = '(%s) && (%s)' % (rnd.choice(a), rnd.choice(b))
        im = re.match(r'((?:\} ?)?(?:else )?if) (.*) \{$', o)
        lm = re.match(r'(let (?:mut )?[^=]*) = (.*);$', o)
        if im:
            if ' let ' in o or 'if let' in o: continue
            x = '%s (%s) != (%s) {' % (im.group(1), im.group(2), c)
        elif lm:
            lw = re.match(r'(let (?:mut )?[^=]*) = (.*);$', w)
            if not lw: continue
            x = '%s = if %s { %s } else { %s };' % (lm.group(1), c, lw.group(2), lm.group(2))
        elif o.endswith(';') and not o.startswith(('return', 'break', 'continue')) and '{' not in o:
            x = 'if %s { %s } else { %s }' % (c, w, o)
        elif not o.endswith((';', ',', '{', '}', '(', '[')) and '=>' not in o and not o.startswith(('.', '|', '&&', '+', '-', ')')):
            x = 'if %s { %s } else { %s }' % (c, w, o)
        else: continue
        res.append((rel, n, x))
    return res


def props_of(rel):
    for p, v in PROPS:
        if rel.startswith(p): return v.split()
    return ['C04']


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def main():
    out, N, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    ms = mutants(sys.argv[5:])
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    if os.environ.get('COND'): ms = conditional(ms, rnd)
    print(len(ms), 'candidates')
    done = set()
    if os.path.exists(out):
        for l in open(out): j = json.loads(l); done.add((j['file'], j['line'], j['new']))
    ms = [m for m in ms if m not in done][:N]
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    env = check.env(); env['OP_LIMIT_MS'] = '20000'
    cls = W + '/classes'; os.makedirs(cls)
    jd = ROOT + '/spec/java'
    assert sh(['javac', '-cp', check.JAR, '-d', cls] + [os.path.join(jd, f) for f in os.listdir(jd) if f.endswith('.java')]).returncode == 0
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    f = open(out, 'a')
    base = {}
    block = threading.Lock()

    def baseline(p, rec):
        with block:
            if p not in base:
                t = W + '/base.' + p
                r = sh([rec, 'record', p, '1', 'quick', t], env=env)
                assert r.returncode == 0, r.stdout
                base[p] = open(t).read().split('\n')
            return base[p]

    def setup(k):
        d = '%s/w%d' % (W, k); os.makedirs(d)
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree(ROOT + '/harness', d + '/harness', ignore=shutil.ignore_patterns('target'))
        for g, o in (('bigint.rs', '    val: UBigInt'), ('bigint.rs', '    _is_neg: bool'), ('ratio.rs', '    denom: BigInt'), ('ratio.rs', '    numer: BigInt'), ('fp192.rs', '    digits: u128'), ('fp192.rs', '    exp: u64')):
            x = d + '/repo/src/' + g; s = open(x).read().replace(o + ',', '    pub(crate) ' + o.strip() + ',', 1); open(x, 'w').write(s)
        p = d + '/harness/Cargo.toml'; s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % d); open(p, 'w').write(s)
        return d

    def build(d):
        return sh(['cargo', 'build', '--offline', '-q', '--manifest-path', d + '/harness/Cargo.toml', '--target-dir', d + '/t'], env=env)

    def work(k):
        d = setup(k)
        r = build(d); assert r.returncode == 0, r.stdout
        brec = '%s/base%d' % (W, k); shutil.copy(d + '/t/debug/recorder', brec)
        while True:
            try: rel, n, new = q.get_nowait()
            except queue.Empty: return
            p = d + '/repo/src/' + rel
            orig = open(p).read(); ls = orig.split('\n'); old = ls[n]; ls[n] = new
            open(p, 'w').write('\n'.join(ls))
            res = dict(file=rel, line=n, old=old.strip(), new=new, show=new.strip())
            try:
                if build(d).returncode: res['r'] = 'nobuild'
                else:
                    res['r'] = 'same'
                    for pr in props_of(rel):
                        b = baseline(pr, brec)
                        t = d + '/trace'
                        try:
                            r = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'x', d + '/t/debug/recorder', 'record', pr, '1', 'quick', t], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                        except subprocess.TimeoutExpired: res['r'] = 'killed'; res['by'] = pr + ' timeout'; break
                        if r.returncode: res['r'] = 'killed'; res['by'] = pr + ' rc %d' % r.returncode; break
                        c = open(t).read().split('\n')
                        bs = set(b)
                        diff = [x for x in c if x and x not in bs]
                        if not diff: continue
                        rnd2 = random.Random(1); rnd2.shuffle(diff)
                        open(d + '/diff', 'w').write('\n'.join(diff[:20000]) + '\n')
                        e2 = dict(env); e2['TRACE'] = d + '/diff'
                        md = d + '/md'; shutil.rmtree(md, ignore_errors=True)
                        try:
                          r = sh(['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx3g', '-Dtlc2.tool.queue.IStateQueue=StateDeque', '-cp', ':'.join([cls, check.JAR, check.CM]), 'tlc2.TLC', '-workers', '1', '-metadir', md, '-noGenerateSpecTE', '-config', 'Trace.cfg', 'Trace.tla'], cwd=ROOT + '/spec', env=e2, timeout=600)
                        except subprocess.TimeoutExpired: res['r'] = 'tlc timeout'; continue
                        if r.returncode == 0 and 'No error has been found' in r.stdout:
                            res['r'] = 'tolerated'; res.setdefault('tol', []).append('%s %d' % (pr, len(diff)))
                        else: res['r'] = 'killed'; res['by'] = '%s %d' % (pr, len(diff)); break
            finally:
                open(p, 'w').write(orig)
            with lock: f.write(json.dumps(res) + '\n'); f.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(W, ignore_errors=True)


main()
