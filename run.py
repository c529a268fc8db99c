#!/usr/bin/env python3
"""Build the library from /repo's working tree, build and run the check of one property.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--law NAME] [--scale X] [--seed N]
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check
itself could not run.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MERLIN_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXX = 'g++'
FLAGS = ['-std=c++14', '-O1', '-g1', '-w', '-DNDEBUG', '-fno-omit-frame-pointer',
         '-fsanitize=address,undefined', '-fno-sanitize=vptr,float-divide-by-zero',
         '-fno-sanitize-recover=undefined']
JOBS = os.cpu_count() or 4


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def flags(src):
    # the table of diffraction takes 25 million evaluations: a minute with every sanitizer, 7 s without
    if os.path.basename(src) == 'DiffractiveScatter.cpp':
        return [f for f in FLAGS if not f.startswith('-fsanitize') and f != '-O1'] + ['-O3', '-fsanitize=bounds']
    return FLAGS


def compile_one(src, obj, inc):
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags(src) + inc + ['-c', src, '-o', tmp])
    if r.returncode:
        return src + ':\n' + r.stdout[-3000:]
    os.replace(tmp, obj)
    return None


def build(pid):
    libdir = os.path.join(REPO, 'Merlin++')
    heads = [os.path.join(libdir, f) for f in os.listdir(libdir) if f.endswith('.h')]
    srcs = [os.path.join(libdir, f) for f in os.listdir(libdir) if f.endswith('.cpp')]
    hd = digest(heads, ' '.join(FLAGS))
    os.makedirs(BUILD, exist_ok=True)
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    objs = []

    def add(src, inc, key):
        o = os.path.join(objdir, '%s-%s.o' % (os.path.basename(src)[:-4], digest([src], key)))
        objs.append(o)
        jobs.append((os.path.getsize(src), src, o, inc))
    inc = ['-I' + libdir]
    for s in srcs:
        add(s, inc, hd)
    ver = os.path.join(BUILD, 'MerlinVersion.cpp')
    text = '#include <string>\n#include "MerlinVersion.h"\nstd::string merlin_version(){return "5";}\n' \
           'std::string merlin_git_ver(){return "v";}\nstd::string merlin_git_branch(){return "b";}\n'
    vin = os.path.join(libdir, 'MerlinVersion.cpp.in')
    if os.path.exists(vin):
        import re
        text = open(vin).read()
        text = re.sub(r'@[A-Za-z_0-9]+@', '0', text)
        text = re.sub(r'\$\{[A-Za-z_0-9]+\}', '0', text)
    gr = os.path.join(BUILD, 'git_rev.h')
    for p, t in ((ver, text), (gr, '#define GIT_REV "v"\n#define GIT_BRANCH "b"\n')):
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + '.%d' % os.getpid(), 'w') as f:
                f.write(t)
            os.replace(p + '.%d' % os.getpid(), p)
    add(ver, inc + ['-I' + BUILD], hd)
    vs = os.path.join(VERIF, 'src')
    vheads = [os.path.join(vs, f) for f in os.listdir(vs) if f.endswith('.h')]
    vhd = digest(vheads, hd)
    add(os.path.join(vs, 'pbt.cpp'), inc + ['-I' + vs], vhd)
    extra = [f for f in os.listdir(vs) if f.startswith(pid.lower() + '_') and f.endswith('.cpp')]
    if not extra:
        print('no harness for', pid)
        sys.exit(2)
    for f in sorted(extra):
        add(os.path.join(vs, f), inc + ['-I' + vs], vhd)
    jobs.sort(key=lambda j: -(j[0] + (10**9 if j[1].startswith(vs) else 0)))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[1], j[2], j[3]), jobs) if e]
    if errs:
        print('BUILD FAILED\n' + '\n'.join(errs[:3]))
        sys.exit(2)
    exe = os.path.join(BUILD, '%s-%s' % (pid, hashlib.sha256(' '.join(sorted(objs)).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        rsp = tmp + '.rsp'
        with open(rsp, 'w') as f:
            f.write('\n'.join(objs))
        r = sh([CXX] + FLAGS + ['@' + rsp, '-o', tmp])
        os.remove(rsp)
        if r.returncode:
            print('LINK FAILED\n' + r.stdout[-4000:])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def known_findings(pid):
    """entries of known_findings.txt: KF-id | property | text   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                kf, prop, text = [x.strip() for x in line[len('known:'):].split('|', 2)]
                if prop == pid:
                    out[kf] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--law')
    ap.add_argument('--scale', default='1')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--jobs', default='8')
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    if a.setup:
        r = sh([CXX, '--version'])
        print(r.stdout.splitlines()[0])
        return r.returncode
    if not a.id:
        ap.error('property id needed')
    t0 = time.time()
    exe = build(a.id)
    if a.build_only:
        return 0
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='pbt-')
    try:
        env = dict(os.environ)
        kf = known_findings(a.id)
        env['VERIF_KNOWN'] = ' '.join(kf)
        for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
            env.pop(k, None)
        if a.replay:
            r = subprocess.run([exe, '--replay', os.path.abspath(a.replay), '--scratch', scratch], env=env)
            return r.returncode
        repdir = os.path.join(VERIF, 'replays')
        os.makedirs(repdir, exist_ok=True)
        out = os.path.join(scratch, 'result.json')
        cmd = [exe, '--tier', a.tier, '--seed', a.seed, '--out', out, '--jobs', a.jobs, '--replay-dir', repdir,
               '--scratch', os.path.join(scratch, 'w'), '--scale', a.scale]
        os.makedirs(os.path.join(scratch, 'w'), exist_ok=True)
        if a.law:
            cmd += ['--law', a.law]
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(out):
            print('check of %s gave no result (exit %d)' % (a.id, r.returncode))
            return 2
        res = json.load(open(out))
        for k in res['known']:
            print('KNOWN-FINDING: property=%s %s: %s' % (a.id, k, kf.get(k, '')))
        samples = []
        for l in res['laws']:
            for s in l['samples'][:2]:
                samples.append({'law': l['law'], 'case': s})
        if not samples:
            samples = [{'law': l['law'], 'case': l['text']} for l in res['laws'][:3]]
        ev = {
            'property': a.id, 'tier': a.tier, 'seed': int(a.seed), 'level': 'exploration',
            'coverage': {
                'evaluations': res['evaluations'],
                'distinct_nontrivial': res['distinct_nontrivial'],
                'rule': res['rule'],
                'samples': samples[:12],
                'laws': {l['law']: {'text': l['text'], 'runs': l['runs'], 'distinct_nontrivial': l['distinct'],
                                    'discarded': l['discarded'], 'classes': l['labels']} for l in res['laws']},
            },
            'assumptions': [res['assumptions']],
            'wall_s': round(time.time() - t0, 2),
            'violations': [{'replay': v} for v in res['violations']],
        }
        if not a.law:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s %s seed=%s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs, %s' % (
            a.id, a.tier, a.seed, res['evaluations'], res['distinct_nontrivial'], tb, time.time() - t0,
            'VIOLATED' if res['violations'] else 'held'))
        return 1 if res['violations'] else (0 if r.returncode in (0, 1) else 2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
