"""development aid: trial.py LIST [NAME...]: apply each edit of the list to a scratch copy of the repository,
run the checks it names and report the answers. An entry is
(name, 'PROP PROP', [(file, old, new), ...]) ; a property written -PROP is expected to stay quiet."""
import os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('ITCSA_REPO', '/repo')
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    pick = sys.argv[2:]
    for name, props, edits in ns['EDITS']:
        if pick and not any(p in name for p in pick):
            continue
        d = tempfile.mkdtemp(prefix='trial')
        try:
            for x in os.listdir(REPO):
                if x == '.git': continue
                s = os.path.join(REPO, x)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
            for f, old, new in edits:
                p = os.path.join(d, 'threadpp', f)
                t = open(p).read()
                if old not in t:
                    print('%-34s EDIT DOES NOT APPLY: %s' % (name, old[:60])); break
                t = t.replace(old, new) if not old.startswith('@1') else t
                open(p, 'w').write(t)
            else:
                for q in props.split():
                    quiet = q.startswith('-')
                    q = q.lstrip('-')
                    t0 = time.time()
                    r = subprocess.run([sys.executable, 'check.py', q], cwd=HERE, env=dict(os.environ, ITCSA_REPO=d),
                                       capture_output=True, text=True)
                    out = r.stdout.split('\n')
                    msg = [l for i, l in enumerate(out[1:]) if l.startswith('  ') and not l.startswith('   ') and
                           i + 2 < len(out) and out[i + 2].startswith('    at ')] or out[-2:-1] + r.stderr.split('\n')[-2:]
                    ok = r.returncode == (0 if quiet else 1)
                    print('%-34s %s rc=%d %s %3ds %s' % (name, q, r.returncode, 'ok ' if ok else '***', time.time() - t0,
                          '' if r.returncode == 0 else '; '.join(sorted(set(x.strip() for x in msg)))[:230]), flush=True)
        finally:
            shutil.rmtree(d)
main()
