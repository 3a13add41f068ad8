#!/usr/bin/env python3
"""model.py MODULE CFG: explore one model, replay what it generates, validate (for development)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
work = tempfile.mkdtemp(prefix='model-')
try:
    rec, cls = check.build(work)
    out, res = os.path.join(work, 'gen'), os.path.join(work, 'res')
    r = check.tlc(work, cls, sys.argv[1], sys.argv[2], {'OUT': out, 'SEED': os.environ.get('VERIF_SEED', '1')}, override='NOOVERRIDE' not in os.environ, args=sys.argv[3:])
    ok = r['rc'] == 0 and 'No error has been found' in r['out']
    print('\n'.join([l for l in r['out'].split('\n') if l.strip() and not l.startswith(('Semantic processing', 'Parsing file'))][-14:])[-1500:] if not ok else 'ok', 'states', r['distinct'], 'generated', r['generated'], 'wall %.1f' % r['wall'])
    if ok and os.path.exists(out):
        st = check.replay(rec, out, res)
        print({k: v for k, v in st.items() if k != 'ops'}, os.path.getsize(res))
        rr, bad = check.validate(work, cls, res)
        print('trace wall %.1f' % rr['wall'], 'bad', bad)
        if bad:
            print(check.explain(check.line(res, bad[0]), bad[1]))
finally:
    shutil.rmtree(work, ignore_errors=True)
