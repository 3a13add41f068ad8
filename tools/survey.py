#!/usr/bin/env python3
"""survey.py PROP [tier]: records and lists every event the specification does not allow, by operation."""
import sys, os, re, subprocess, tempfile, collections, json, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
per = int(os.environ.get('PER', '4'))
work = tempfile.mkdtemp(prefix='survey-')
try:
    rec, cls = check.build(work)
    tr = '/tmp/survey_%s.jsonl' % prop
    st = check.record(rec, prop, int(os.environ.get('VERIF_SEED', '1')), tier, tr)
    print('sessions %(sessions)s events %(events)s calls %(calls)s panics %(panics)s errors %(errors)s' % st, st.get('record_s'), st.get('note', ''))
    r = check.tlc(work, cls, 'Survey', 'Survey.cfg', {'TRACE': tr}, deque=True)
    bad = [(int(a), int(b)) for a, b in re.findall(r'<<"BAD", (\d+), (\d+)>>', r['out'])]
    print('wall %.1f, bad %d' % (r['wall'], len(bad)))
    if 'No error has been found' not in r['out']:
        i = r['out'].find('Error:'); print(re.sub(r'<<"BAD.*\n', '', r['out'][i:i+20000])[:2500])
    lines = {}
    want = {s for s, _ in bad}
    for i, l in enumerate(open(tr)):
        if i + 1 in want: lines[i + 1] = json.loads(l)
    by = collections.defaultdict(list)
    for s, k in bad:
        e = lines[s][k - 1]
        by['%s.%s%s' % (e[0], e[1], '_mut' if e[2] else '')].append((len(json.dumps(lines[s][:k])), s, k))
    for op, l in sorted(by.items()):
        print('==', op, len(l))
        for _, s, k in sorted(l)[:per]:
            print('    ', check.explain(lines[s], k)[:int(os.environ.get('W', '400'))])
finally:
    shutil.rmtree(work, ignore_errors=True)
