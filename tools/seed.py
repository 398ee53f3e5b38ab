#!/usr/bin/env python3
"""plant a bug: seed.py SPEC.py  (SPEC defines ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO)
makes /verif/seeded/ID and validates it in a scratch copy bind-mounted over /repo (private mount namespace);
seed.py ID validates an existing one again, seed.py -c ID also runs the property's check against it"""
import sys, os, subprocess, json, re
V = '/verif/seeded/'; SC = '/tmp/seed/repo'
def sh(c, **k): return subprocess.run(['bash', '-c', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# builds the demonstration against the library built in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -O1 -std=c++98 -DUSE_PTHREADS -Dkiss_fft_scalar=double -I. -Iext/kissfft -Iext/kissfft/tools "$d/demo.cpp" libqm-dsp.a -lpthread -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then ( cd "$t" && timeout 120 ./demo ); rc=$?; fi
rm -f "$t/demo"; rmdir "$t"
exit $rc
'''
INNER = r'''
mount --bind /tmp/seed/repo /repo || exit 9
cd /repo
git checkout -q -- . ; 
bash /opt/vp/build.sh >/tmp/seed/log 2>&1 || { echo BUILD0 FAILS; exit 9; }
bash %(d)s/demo.sh > /tmp/seed/demo0 2>&1; r0=$?
git apply %(d)s/patch.diff || { echo PATCH FAILS; exit 9; }
bash /opt/vp/build.sh >/tmp/seed/log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/seed/log; git checkout -q -- .; exit 9; }
bash /opt/vp/test.sh /tmp/seed/out.json >/tmp/seed/log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
st=set(b.get('stable',b.get('passed',[])))
m=st-set(o['passed'])
print('TESTS', 'ok %%d' %% len(o['passed']) if not m else 'BROKEN %%s' %% sorted(m)[:5])
P
bash %(d)s/demo.sh > /tmp/seed/demo1 2>&1; r1=$?
echo "DEMO unchanged=$r0 patched=$r1"; [ $r0 = 0 ] || head -5 /tmp/seed/demo0; head -3 /tmp/seed/demo1
if [ "%(check)s" != "" ]; then cd /verif; timeout 880 python3-vt check.py %(check)s > /tmp/seed/check.%(id)s 2>&1; echo "CHECK rc=$?"; grep -a "VIOLATION" /tmp/seed/check.%(id)s | head -3; fi
cd /repo; git checkout -q -- .
'''
def setup():
    if not os.path.isdir(SC): sh('mkdir -p /tmp/seed && cp -a /repo /tmp/seed/repo')
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if sh('git -C %s rev-parse HEAD' % SC).stdout.strip() != head: sh('cd %s && git fetch -q /repo && git checkout -q %s' % (SC, head))
    sh('git -C %s checkout -q -- .' % SC)
def main():
    check = False; a = sys.argv[1:]
    if a[0] == '-c': check = True; a = a[1:]
    setup()
    for x in a:
        if x.endswith('.py'):
            g = {}; exec(open(x).read(), g)
            specs = g.get('SEEDS') or [g]
            ids = []
            for s in specs:
                d = V + s['ID']; os.makedirs(d, exist_ok=True)
                sh('git -C %s checkout -q -- .' % SC)
                for f, o, n in s['EDITS']:
                    p = SC + '/' + f; t = open(p, encoding='latin-1').read()
                    assert t.count(o) == 1, (s['ID'], f, t.count(o), o)
                    open(p, 'w', encoding='latin-1').write(t.replace(o, n))
                open(d + '/patch.diff', 'w', encoding='latin-1').write(subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE, encoding='latin-1').stdout)
                sh('git -C %s checkout -q -- .' % SC)
                open(d + '/demo.cpp', 'w').write(s['DEMO'].lstrip()); open(d + '/demo.sh', 'w').write(DEMO.replace('-O1', '-O1' + s.get('FLAGS', ''))); os.chmod(d + '/demo.sh', 0o755)
                json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
                ids.append(s['ID'])
        else: ids = [x]
        for i in ids:
            prop = json.load(open(V + i + '/meta.json'))['property']
            print('==', i, prop); sys.stdout.flush()
            r = sh("unshare -m bash -s", input=INNER % dict(d=V + i, id=i, check=prop if check else ''))
            print(r.stdout)
            if check:
                cj = '/verif/tools/catches.json'; c = json.load(open(cj)) if os.path.exists(cj) else {}
                log = open('/tmp/seed/check.' + i, errors='replace').read() if os.path.exists('/tmp/seed/check.' + i) else ''
                if 'VIOLATION' not in log: c[i] = 'missed'
                else:
                    pr = len(re.findall(r'^failed: ', log, re.M)); fi = len(re.findall(r'^failing input: ', log, re.M))
                    c[i] = prop + ': ' + ' and '.join(([('failed obligation (' + re.search(r'^failed: (.*?): ', log, re.M).group(1)[:60] + ')')] if pr else []) + (['concrete failing input'] if fi else []))
                json.dump(c, open(cj, 'w'), indent=1, sort_keys=True)
main()
