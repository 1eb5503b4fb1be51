#!/usr/bin/env python3
"""plant.py ID...   validate planted bugs in /verif/seeded and run the checks of their property

For every ID: the demo passes on the clean tree; with the patch applied to /repo it builds, the stable tests pass and
the demo fails; then the quick check of the property (or of the IDs given with --checks=P01,P02) runs. The patch is
undone afterwards. --nodemo / --nocheck skip parts. Prints one line per planted bug."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): return sh('bash /opt/vp/build.sh').returncode
def tests():
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    o = json.load(open('/tmp/plant_out.json')); os.remove('/tmp/plant_out.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests') or o['passed']
    return [t for t in stable if t not in o['passed']]
def demo(i):
    try: r = sh(f'bash {V}/seeded/{i}/demo.sh', cwd=R, timeout=300); return r.returncode, (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired: return 124, 'timeout'
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    opts = [a for a in sys.argv[1:] if a.startswith('--')]
    checks = next((a.split('=')[1].split(',') for a in opts if a.startswith('--checks=')), None)
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), '/repo is not clean'
    for i in ids:
        meta = json.load(open(f'{V}/seeded/{i}/meta.json')); out = [i]
        try:
            if '--nodemo' not in opts:
                build(); t = time.time(); rc, txt = demo(i); out.append(f'clean:{"ok" if rc == 0 else "FAIL(%s)" % txt} {time.time()-t:.0f}s')
            r = sh(f'git -C {R} apply {V}/seeded/{i}/patch.diff')
            if r.returncode: print(i, 'does not apply', r.stderr); continue
            if '--nodemo' not in opts:
                b = build()
                if b: out.append('BUILD FAILS'); continue
                f = tests(); out.append('tests:' + ('ok' if not f else 'FAIL %s' % f[:3]))
                rc, txt = demo(i); out.append(f'demo:{rc}' + (' NOT BROKEN' if rc == 0 else ''))
                if rc == 3: out.append(txt)
            if '--nocheck' not in opts:
                for c in checks or [meta['property']]:
                    t = time.time()
                    r = sh(f'python3 run.py {c} quick', cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
                    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                    out.append(f'{c}:{"CAUGHT" if r.returncode == 1 and v else "missed rc=%d" % r.returncode} {time.time()-t:.0f}s')
        finally:
            sh(f'git -C {R} checkout -- .')
            print(' | '.join(out), flush=True)
    build()
main()
