#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy, and run the claimed check against them in /repo.
usage: plant.py [--nocheck] [--notest] ID...   (IDs are directories of /verif/seeded)
scratch copy: /tmp/pl/repo (of $MERLIN_REPO, /repo by default), also for the checks, never committed anywhere."""
import sys, os, subprocess, json, shutil
S='/tmp/pl/repo'
R=os.environ.get('MERLIN_REPO','/repo')
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    if not os.path.isdir(S):
        os.makedirs('/tmp/pl', exist_ok=True); sh(f'git clone -q {R} {S}')
    h=sh(f'git -C {R} rev-parse HEAD').stdout.strip()
    r=sh(f'git -C {S} fetch -q {R} HEAD && git -C {S} checkout -q -f {h}')
    if r.returncode: print(r.stderr); sys.exit(1)
def build():
    if not os.path.exists(S+'/_build/.here'):
        shutil.rmtree(S+'/_build', ignore_errors=True)
    r=sh(f'cmake -S {S} -B {S}/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=ON -DENABLE_EXAMPLES=ON -DENABLE_DEVTOOLS=ON -DENABLE_USER_RUNS=ON -DBUILD_DOCUMENTATION=OFF -DPython3_EXECUTABLE=/usr/bin/python3 -DTEST_TIMEOUT=300 && ninja -C {S}/_build')
    open(S+'/_build/.here','w').close()
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode==0
def tests():
    t=S+'/_build/DeveloperTools/CodeTesting'
    sh(f"""sed -i -E -e 's#("[^"]*/random_test\\.py") "--exe"#\\1 "1" "--exe"#' -e 's#("[^"]*/(cu50_test|lhc_collimation_test)\\.py") "0"#\\1 "1"#' {t}/CTestTestfile.cmake""")
    st=[x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    r=sh(f'ctest --test-dir {S}/_build -j8')
    bad=[n for n in st if f' {n} ' in r.stdout and not any(n+' ' in l and 'Passed' in l for l in r.stdout.splitlines())]
    return bad
def demo(i): return sh(f'bash {V}/seeded/{i}/demo.sh', cwd=S, timeout=300)
def main():
    a=sys.argv[1:]; nc='--nocheck' in a; nt='--notest' in a; a=[x for x in a if not x.startswith('--')]
    sync()
    if not build(): print('base build fails'); sys.exit(1)
    base={i: demo(i) for i in a}
    for i in a:
        m=json.load(open(f'{V}/seeded/{i}/meta.json')); p=f'{V}/seeded/{i}/patch.diff'; out=[]
        out.append('demo0 %s' % ('ok' if base[i].returncode==0 else 'BAD '+(base[i].stdout+base[i].stderr)[-500:]))
        r=sh(f'git -C {S} apply {p}')
        if r.returncode: print(i,'DOES NOT APPLY',r.stderr); continue
        if not build(): out.append('BUILD FAILS')
        else:
            if not nt:
                b=tests(); out.append('tests '+('ok' if not b else 'FAIL '+','.join(b)))
            d=demo(i); out.append('demo1 '+('ok' if d.returncode else 'DOES NOT FAIL'))
        sh(f'git -C {S} checkout -- .')
        if not nc:
            sh(f'git -C {S} apply {p}')
            try: r=sh(f'MERLIN_REPO={S} VERIF_SEED=1 VERIF_TIER=quick python3 run.py {m["property"]} --tier quick', cwd=V)
            finally: sh(f'git -C {S} checkout -- .')
            v=[l for l in r.stdout.splitlines() if l.startswith('law ') and 'violated' in l]
            out.append('CAUGHT rc=%d by %s' % (r.returncode, [l.split()[1] for l in v]) if r.returncode==1 and 'VIOLATION property='+m['property'] in r.stdout else 'MISSED rc=%d' % r.returncode)
        print(i,m['property'],' | '.join(out), flush=True)
main()
