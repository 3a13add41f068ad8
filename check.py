#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:
  1. model checking: TLC explores the TLA+ models listed for the property in MODELS;
  2. conformance: the recorder (built from /repo) runs the property's sessions against the
     real library - those of its own generator and those TLC generated from the
     specification - and TLC checks that every recorded session is a behaviour of
     spec/Trace.tla.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
from models import MODELS, LEVEL, RULES   # noqa: E402  (what each property's check consists of)


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    for k in list(e):
        if k.startswith('CARGO_PROFILE_') or k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'JAVA_TOOL_OPTIONS'):
            del e[k]
    return e


def build(work):
    """The recorder (from /repo's working tree) and the TLC module overrides."""
    tgt = os.path.join(HERE, 'harness', 'target')
    r = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(HERE, 'harness', 'Cargo.toml'), '--target-dir', tgt],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('cargo build failed:\n' + r.stdout[-4000:])
    cls = os.path.join(work, 'classes')
    os.makedirs(cls)
    jd = os.path.join(SPEC, 'java')
    r = subprocess.run(['javac', '-cp', JAR, '-d', cls] + [os.path.join(jd, f) for f in sorted(os.listdir(jd)) if f.endswith('.java')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('javac failed:\n' + r.stdout[-4000:])
    return os.path.join(tgt, 'debug', 'recorder'), cls


def tlc(work, cls, module, cfg, extra_env=None, args=(), override=True, heap='10g', deque=False, timeout=3000):
    e = env()
    e.update(extra_env or {})
    md = tempfile.mkdtemp(dir=work)
    cp = ([cls] if override else []) + [JAR, CM]
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap]
    if deque:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', ':'.join(cp), 'tlc2.TLC', '-workers', '8', '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC %s timed out' % module)
    out = r.stdout
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M)
    gen, dist = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    return dict(rc=r.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t)


def record(recorder, prop, seed, tier, out):
    """Runs the property's sessions; returns the recorder's statistics."""
    lim = ['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x']
    cmd = [recorder, 'record', prop, str(seed), tier, out]
    e = env()
    r = subprocess.run(lim + cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        return json.loads(r.stdout)
    if r.returncode == 3 and os.path.exists(out + '.hang'):
        shutil.copy(out + '.hang', out)
        return dict(sessions=1, events=1, calls=1, distinct_calls=1, panics=0, errors=0, ops={}, note='a call did not return')
    if r.returncode == 4:
        raise Broken('recorder: ' + r.stderr[-2000:])
    # the process died: find the shard and the call
    for k in range(8):
        q = subprocess.run(lim + cmd + [str(k)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if q.returncode == 3 and os.path.exists(out + '.hang'):
            shutil.copy(out + '.hang', out)
            break
        if q.returncode != 0:
            if not os.path.exists(out + '.pending'):
                raise Broken('recorder died: ' + q.stderr[-2000:])
            shutil.copy(out + '.pending', out)
            break
    else:
        raise Broken('recorder died with %s once only: %s' % (r.returncode, r.stderr[-2000:]))
    return dict(sessions=1, events=1, calls=1, distinct_calls=1, panics=0, errors=0, ops={}, note='a call ended the process')


def replay(recorder, inp, out):
    lim = ['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x']
    e = env()
    r = subprocess.run(lim + [recorder, 'replay', inp, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        return json.loads(r.stdout)
    if r.returncode == 3 and os.path.exists(out + '.hang'):
        shutil.copy(out + '.hang', out)
        return dict(sessions=1, events=1)
    if r.returncode == 4:
        raise Broken('recorder: ' + r.stderr[-2000:])
    e['JOURNAL'] = out + '.pending'
    q = subprocess.run(lim + [recorder, 'replay', inp, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if q.returncode != 0 and os.path.exists(out + '.pending'):
        shutil.copy(out + '.pending', out)
        return dict(sessions=1, events=1)
    raise Broken('recorder replay failed: ' + (r.stderr + q.stderr)[-2000:])


def validate(work, cls, trace):
    """TLC on spec/Trace.tla.  Returns (result, offending (session, event) or None)."""
    res = tlc(work, cls, 'Trace', 'Trace.cfg', {'TRACE': trace}, deque=True)
    if res['rc'] == 0 and 'No error has been found' in res['out']:
        return res, None
    if 'Deadlock reached' in res['out']:
        tail = res['out'][res['out'].rindex('Deadlock reached'):]
        sid = [int(x) for x in re.findall(r'/\\ sid = (\d+)', tail)]
        pc = [int(x) for x in re.findall(r'/\\ pc = (\d+)', tail)]
        if sid and pc:
            return res, (sid[-1], pc[-1] + 1)
    # The specification has no meaning for the event: an outcome outside every type it
    # knows (the library never produces one as it stands).
    k = res['out'].find('The behavior up to this point is')
    if k >= 0 and 'OutOfMemory' not in res['out'] and 'StackOverflow' not in res['out']:
        tail = res['out'][k:]
        sid = [int(x) for x in re.findall(r'/\\ sid = (\d+)', tail)]
        pc = [int(x) for x in re.findall(r'/\\ pc = (\d+)', tail)]
        if sid and pc:
            return res, (sid[-1], pc[-1] + 1)
    raise Broken('TLC could not evaluate the trace:\n' + res['out'][-6000:])


def line(path, k):
    with open(path) as f:
        for i, l in enumerate(f):
            if i == k - 1:
                return json.loads(l)


def num(v):
    """A literal in readable form."""
    try:
        t = v[0]
        le = lambda h: int.from_bytes(bytes.fromhex(h[1:]), 'little')
        if t == 'u': return str(le(v[1])) + ('' if len(v[1]) <= 9 or v[1][-8:] != '00000000' else ' (not canonical)')
        if t in ('i', 'n'): return ('-' if v[1] else '') + str(le(v[2]))
        if t == 'r': return '%s%d/%s%d' % ('-' if v[1] else '', le(v[2]), '-' if v[3] else '', le(v[4]))
        if t == 's': return repr(bytes.fromhex(v[1][1:]).decode('utf8', 'replace'))
        if t == 'f':
            d, e = le(v[1]), le(v[2])
            return 'F192{digits: %d, exp: %d}' % (d, e)
        if t == 'c': return '(%s) + (%s)i' % (num(v[1]), num(v[2]))
        if t == 'm': return '[' + '; '.join(', '.join(num(x) for x in r) for r in v[4]) + ']'
        if t in ('p', 'l'): return '[' + ', '.join(num(x) for x in v[1]) + ']'
        return str(v[1]) if len(v) > 1 else t
    except Exception:
        return json.dumps(v)


def explain(session, k):
    """The k-th call of the session with its operands."""
    regs = {}
    for ev in session[:k - 1]:
        fam, name, mode, a, c, d, o = ev
        if (fam, name) == ('', 'ld'): regs[d] = c[0]
        elif (fam, name) == ('', 'cp'): regs[d] = regs.get(a[0])
        elif fam and o[0] == 'ok': regs[d] = o[1]
    fam, name, mode, a, c, d, o = session[k - 1]
    args = [num(regs.get(x)) for x in a] + [num(x) for x in c]
    s = '%s.%s%s(%s) -> %s' % (fam, name, '_mut' if mode else '', ', '.join(args), ' '.join([o[0]] + [num(x) if isinstance(x, list) else x for x in o[1:]]))
    return s if len(s) < 3000 else s[:3000] + '...'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='hmath-%s-' % prop)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, violations=0)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[])
    ev['coverage'] = cov
    ev['assumptions'] = [
        'TLC, the JVM and java.math.BigInteger (spec/java/BigNum.java, compared with its TLA+ definition by spec/BigNumCheck.tla) are correct',
        'the recorder reports the calls it made and their results faithfully',
        'conformance holds for the recorded calls; inputs not recorded are covered by the specification only',
    ]
    violation = None
    calls = distinct = 0
    try:
        recorder, cls = build(work)
        # 1. the specification itself
        for k, m in enumerate(MODELS.get(prop, [])):
            if m.get('tier', 'quick') == 'thorough' and tier != 'thorough':
                continue
            gen = m.get('generates')
            out = os.path.join(work, 'model%d.gen' % k)
            cfg = m[tier + '_cfg'] if tier + '_cfg' in m else m['cfg'] + '_' + tier + '.cfg'
            r = tlc(work, cls, m['module'], cfg, {'OUT': out, 'SEED': str(seed)},
                    args=m.get('args', {}).get(tier, []) if isinstance(m.get('args'), dict) else m.get('args', ()), override=m.get('override', True))
            if r['rc'] != 0 or 'No error has been found' not in r['out']:
                raise Broken('model %s: TLC reports\n%s' % (cfg, r['out'][-6000:]))
            cov['models'].append(dict(module=m['module'], config=cfg, what=m['what'], states=r['distinct'], transitions=r['generated'], wall_s=round(r['wall'], 1)))
            cov['states'] += r['distinct']
            cov['transitions'] += r['generated']
            if gen:
                res = os.path.join(work, 'model%d.jsonl' % k)
                st = replay(recorder, out, res)
                rr, bad = validate(work, cls, res)
                cov['models'][-1].update(sessions_replayed=st['sessions'], calls_replayed=st.get('calls', 1), distinct_calls_replayed=st.get('distinct_calls', 1),
                                         trace_wall_s=round(rr['wall'], 1))
                calls += st.get('calls', 1)
                distinct += st.get('distinct_calls', 1)
                cov['states'] += rr['distinct']
                cov['transitions'] += rr['generated']
                cov['traces_validated_against_impl'] += st['sessions']
                if bad:
                    violation = (res, bad)
                    break
        # 2. recorded sessions
        if not violation:
            trace = os.path.join(work, 'trace.jsonl')
            st = record(recorder, prop, seed, tier, trace)
            rr, bad = validate(work, cls, trace)
            cov['states'] += rr['distinct']
            cov['transitions'] += rr['generated']
            cov['traces_validated_against_impl'] += st['sessions']
            cov.update(evaluations=calls + st['calls'], distinct_nontrivial=distinct + st['distinct_calls'],
                       rule=RULES.get(prop, RULES['']), events=st['events'], calls_that_panicked=st['panics'],
                       calls_that_returned_an_error=st['errors'], calls_per_operation=st['ops'], trace_wall_s=round(rr['wall'], 1))
            if 'note' in st:
                cov['note'] = st['note']
            if bad:
                violation = (trace, bad)
            elif st['sessions']:
                for k in sorted({1, st['sessions'] // 2 + 1, st['sessions']}):
                    s = line(trace, k)
                    calls = [i for i, x in enumerate(s) if x[0]]
                    if calls:
                        cov['samples'].append(explain(s, calls[len(calls) // 2] + 1)[:600])
        if violation:
            path, (sid, k) = violation
            s = line(path, sid)[:k]
            rp = os.path.join(evdir, 'replay_%s.jsonl' % prop)
            with open(rp, 'w') as f:
                f.write(json.dumps(s, separators=(',', ':')) + '\n')
            ev['violations'] = 1
            ev['violation'] = explain(s, k)
            cov['samples'].append(ev['violation'][:1000])
            print('the specification does not allow: ' + ev['violation'])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
    except Broken as e:
        print('CHECK FAILED (%s): %s' % (prop, e))
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev['wall_s'] = round(time.time() - t0, 1)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if not violation:
        print('%s %s: held; %d sessions, %d calls, %d model states, %.0f s' % (prop, tier, cov['traces_validated_against_impl'], cov.get('evaluations', 0), cov['states'], ev['wall_s']))
    sys.exit(1 if violation else 0)


if __name__ == '__main__':
    main()
