#!/usr/bin/env python3
"""dev helper: mkseed.py SPEC.py  -- build a planted bug from a spec, confirm it, and see whether the check catches it.
The spec defines: id, prop, needs, what, edits=[(file, old, new)], and demo (text of demo.myr) or demo_sh (whole script), libs='-lfoo', files={name: text}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=t)
    return p.returncode, p.stdout
def run1(S, nochk=False):
    d = os.path.join(V, 'seeded', S['id'])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='/tmp/seed.')
    try:
        r = w + '/repo'
        sh('cp -a /repo %s' % r)
        sh('git checkout -q -- . ', r)
        demo = S.get('demo_sh') or open(V + '/tools/demo_tpl.sh').read().replace('@LIBS@', S.get('libs', ''))
        open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in S: open(d + '/demo.myr', 'w').write(S['demo'])
        for k, v in S.get('files', {}).items(): open(d + '/' + k, 'w').write(v)
        json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['what']}, open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ); env.pop('MCV_DEVTREE', None)
        bs = open('/opt/vp/build.sh').read().replace('/repo', r); open(w + '/build.sh', 'w').write(bs)
        ts = open('/opt/vp/test.sh').read()
        rc, o = sh('bash %s/build.sh' % w, r)
        rc, o = sh('sh %s/demo.sh' % d, r)
        if rc: print(S['id'], 'BAD: demo fails on clean tree:', o[-600:]); return False
        for f, a, b in S['edits']:
            s = open(r + '/' + f).read()
            if s.count(a) != 1: print(S['id'], 'BAD: edit matches %d times in %s: %r' % (s.count(a), f, a)); return False
            open(r + '/' + f, 'w').write(s.replace(a, b))
        rc, o = sh('git diff', r); open(d + '/patch.diff', 'w').write(o)
        rc, o = sh('bash %s/build.sh' % w, r)
        if rc: print(S['id'], 'BAD: build', o[-800:]); return False
        rc, o = sh('sh %s/demo.sh' % d, r)
        print(S['id'], 'demo with patch: rc', rc, o[-200:].strip().replace('\n', ' | '))
        if rc == 0: print(S['id'], 'BAD: demo does not fail'); return False
        # tests
        sh('cp -a /opt/vp %s/vp; grep -rlE "/repo|/opt/vp" %s/vp | xargs sed -i "s#/opt/vp#%s/vp#g; s#/repo#%s#g"' % (w, w, w, r))
        rc, o = sh('bash %s/vp/test.sh %s/out.json' % (w, w), r)
        if not os.path.exists(w + '/out.json'): print('BAD: test run', o[-500:]); return False
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']; res = json.load(open(w + '/out.json'))
        bad = [x for x in base if x not in res['passed']]
        if bad: print(S['id'], 'BAD: fails tests', bad[:10]); return False
        if not nochk:
            sh('git -C %s clean -fdxq' % r)
            env['MCV_REPO'] = r
            rc, o = sh('python3 checks/%s.py' % S['prop'], V, env)
            cf = V + '/tools/caught.json'
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            c[S['id']] = 'Caught by %s.' % S['prop'] if rc == 1 and 'VIOLATION property=%s' % S['prop'] in o else 'MISSED by %s.' % S['prop']
            json.dump(c, open(cf, 'w'), indent=1, sort_keys=True)
            print(S['id'], '=> %s %s' % (S['prop'], 'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % S['prop'] in o else 'MISSED rc=%d' % rc), o.strip().split('\n')[0][:200])
        return True
    finally:
        shutil.rmtree(w)
for a in sys.argv[1:]:
    if a == '-n': continue
    ns = {}
    exec(open(a).read(), ns)
    for S in ns['SEEDS']:
        ok = run1(S, '-n' in sys.argv)
        if not ok: shutil.rmtree(os.path.join(V, 'seeded', S['id']), ignore_errors=True)
