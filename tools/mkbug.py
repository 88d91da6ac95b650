"""mkbug(id, prop, edits, needs, breaks, demo): writes /verif/seeded/<id>. edits: [(file, old, new)]."""
import json, os, shutil, subprocess
R = '/repo'
BASE = '3347b8b'
def mkbug(id, prop, edits, needs, breaks, demo):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    S = f'/tmp/mk_{id}'
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    patch = ''
    for f in sorted({e[0] for e in edits}):
        src = subprocess.check_output(['git', '-C', R, 'show', f'HEAD:{f}'], text=True)
        new = src
        for (g, a, b) in edits:
            if g == f:
                assert new.count(a) == 1, (id, f, new.count(a), a)
                new = new.replace(a, b)
        for side, text in (('a', src), ('b', new)):
            p = f'{S}/{side}/{f}'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(text)
        out = subprocess.run(['diff', '-u', '--label', f'a/{f}', '--label', f'b/{f}', f'a/{f}', f'b/{f}'], cwd=S, capture_output=True, text=True).stdout
        patch += f'diff --git a/{f} b/{f}\n' + out
        blame = subprocess.check_output(['git', '-C', R, 'blame', '-s', 'HEAD', '--', f], text=True).splitlines()
        base = {l.split(None, 1)[0].lstrip('^') for l in subprocess.check_output(['git', '-C', R, 'rev-list', BASE], text=True).splitlines()}
        import re
        ln = 0; orig = 0; mine = 0
        for l in out.splitlines()[2:]:
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if l.startswith('-'):
                h = blame[ln-1].split()[0].lstrip('^')
                if any(x.startswith(h) for x in base): orig += 1
                else: mine += 1; print(id, 'MINE:', l)
                ln += 1
            elif l.startswith('+'): pass
            else: ln += 1
        print(id, f, 'orig lines', orig, 'mine', mine)
    shutil.rmtree(S)
    open(f'{d}/patch.diff', 'w').write(patch)
    open(f'{d}/demo.rs', 'w').write(demo.lstrip('\n'))
    shutil.copy('/verif/tools/demo.sh', f'{d}/demo.sh')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
