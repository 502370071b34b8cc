"""Builds, confirms and judges planted bugs.   python3 tools/seed.py build ID... | confirm ID... | judge ID[:PNN,...]...
Everything runs on a scratch copy bind-mounted over /repo in a private mount namespace."""
import json, os, shutil, subprocess, sys, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/mut'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def bugs():
    sp = importlib.util.spec_from_file_location('bugs', os.path.join(V, 'tools', 'bugs.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return {b['id']: b for b in m.BUGS}
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def build(b):
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    w = f'{SCR}/w_{b["id"]}'; shutil.rmtree(w, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh(f'cp -a /repo {w}')
    for f, old, new in b['edits']:
        p = os.path.join(w, 'run_time_assurance', f); s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {w} diff').stdout)
    open(f'{d}/demo.py', 'w').write('from common import *\n' + b['demo'].strip() + '\nprint("ok")\n')
    shutil.copy(os.path.join(V, 'tools', 'demo_common.py'), f'{d}/common.py')
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\nPYTHONPATH="$PWD:$here" exec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
def copy(b, tag):
    w = f'{SCR}/{tag}_{b["id"]}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(SCR, exist_ok=True)
    sh(f'cp -a /repo {w}')
    r = sh(f'git -C {w} apply {V}/seeded/{b["id"]}/patch.diff'); assert r.returncode == 0, r.stderr
    return w
def inside(w, cmd, timeout=1500):
    return subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {w} /repo && cd /repo && {cmd}'], capture_output=True, text=True, timeout=timeout)
def confirm(b):
    d = f'{V}/seeded/{b["id"]}'
    w = copy(b, 'c')
    try:
        c0 = sh(f'cd /repo && bash {d}/demo.sh')
        c1 = inside(w, f'bash {d}/demo.sh')
        t = inside(w, f'bash /opt/vp/test.sh {SCR}/out_{b["id"]}.json >/dev/null 2>&1')
        o = json.load(open(f'{SCR}/out_{b["id"]}.json'))
        ps = o.get('passed', o); ps = set(ps if isinstance(ps, list) else [k for k, v in ps.items() if v])
        lost = STABLE - ps
        os.remove(f'{SCR}/out_{b["id"]}.json')
    finally:
        shutil.rmtree(w, ignore_errors=True)
    ok = c0.returncode == 0 and c1.returncode == 1 and not lost
    return f'{b["id"]} {"OK" if ok else "BAD"} clean={c0.returncode} patched={c1.returncode} lost={sorted(lost)} | {(c0.stdout + c0.stderr)[-200:] if c0.returncode else ""} {(c1.stdout + c1.stderr).strip()[-160:]}'
def judge(b, props, tier='quick'):
    w = copy(b, 'j'); out = []
    try:
        for p in props:
            r = inside(w, f'cp -a {V} /tmp/mut/v_{b["id"]} 2>/dev/null; cd /tmp/mut/v_{b["id"]} && VERIF_SEED={os.environ.get("VERIF_SEED", "1")} bash run.sh {p} {tier}')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  ')][:3]
            out.append(f'{b["id"]} {p} rc={r.returncode} ' + ('CAUGHT ' if r.returncode == 1 else 'MISSED ') + ' '.join(v)[:230] + ('' if r.returncode < 2 else (r.stdout + r.stderr)[-400:]))
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f'/tmp/mut/v_{b["id"]}', ignore_errors=True)
    return '\n'.join(out)
if __name__ == '__main__':
    B = bugs(); cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ['all']: ids = list(B)
    n = int(os.environ.get('N', '2'))
    if cmd == 'build':
        for i in ids: build(B[i])
    elif cmd == 'confirm':
        with cf.ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda i: confirm(B[i]), ids): print(r, flush=True)
    else:
        def one(i):
            i, _, p = i.partition(':')
            return judge(B[i], p.split(',') if p else [B[i]['property']])
        with cf.ThreadPoolExecutor(n) as ex:
            for r in ex.map(one, ids): print(r, flush=True)
