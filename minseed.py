#!/usr/bin/env python3
"""minseed.py TARGET SCENARIO VARIANT TAGS SEED OUT : minimised replay of one failing seed (a working tool, not a check)."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, simbuild
t, s, v, tags, seed, out = sys.argv[1:7]
exe = simbuild.build([t])[t]
z = check.Zygote(exe, s, v, tags.split(','))
d = z.ask('D %s %s' % (seed, out)); print(d['status'], d['tag'], d['msg'])
head, dis, decs = check.read_replay(out)
head.update(harness=t, scenario=s, variant=v, tags=tags, tag=d['tag'], message=d['msg'], hash=d['hash'])
dis, decs, n = check.minimise(z, head, dis, decs, d['tag'], float(os.environ.get('BUDGET', '120')), out + '.cand')
check.write_replay(out, head, dis, decs); r = z.ask('P ' + out); head['hash'] = r['hash']; head['message'] = r['msg']
check.write_replay(out, head, dis, decs); print(len(decs), 'decisions', n, 'tries', r['msg'])
