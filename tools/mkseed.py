#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes planted bugs. SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)...],
pkg='.' or 'cpio', demo=Go test source, needs, breaks)]. Each is confirmed in a scratch copy of /repo:
applies, builds, passes the stable tests, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, runpy
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOSUMDB='off')
SEED = os.environ.get('SEEDDIR', '/verif/seeded')
DEMO = '''#!/bin/bash
# Run with cwd at the root of the repository.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOSUMDB=off
o=$(mktemp)
printf '{"Replace":{"%%s/%(rel)szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o"
%(env)sgo test -vet=off -overlay "$o" -count=1 -timeout 200s -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True, **k)
def scratch():
    d = subprocess.check_output(['mktemp', '-d', '/tmp/seedXXXXXX'], text=True).strip()
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d
def stable(repo):
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    r = {}
    for pre, cg in (('', '1'), ('nocgo:', '0')):
        p = subprocess.run('go test -json -vet=off -count=1 ./...', cwd=repo, shell=True, env=dict(env, CGO_ENABLED=cg), capture_output=True, text=True)
        if '"Action":"fail"' in p.stdout or p.returncode != 0:
            return False, p.stdout[-1500:]
    return True, ''
def main():
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and s['id'] not in only: continue
        d = scratch(); repo = d + '/repo'
        out = SEED + '/' + s['id']
        try:
            ok = True
            for f, old, new in s['edits']:
                t = open(f'{repo}/{f}').read()
                if t.count(old) != 1:
                    print(s['id'], 'BAD EDIT', f, t.count(old), old[:60]); ok = False; break
                open(f'{repo}/{f}', 'w').write(t.replace(old, new))
            if not ok: continue
            diff = sh('git diff', repo).stdout
            base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[-1]
            orig = 0
            for f in {e[0] for e in s['edits']}:
                o = set(subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True).stdout.split('\n'))
                d1 = sh('git diff -U0 ' + f, repo).stdout
                orig += sum(1 for l in d1.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in o)
            if not orig: print(s['id'], 'NO ORIGINAL LINE CHANGED'); continue
            b = sh('go build ./... && CGO_ENABLED=0 go build ./... && GOOS=windows CGO_ENABLED=0 go build ./...', repo)
            if b.returncode: print(s['id'], 'BUILD', b.stderr[:600]); continue
            ok, msg = stable(repo)
            if not ok: print(s['id'], 'TESTS FAIL', msg); continue
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            pkg = s.get('pkg', '.')
            rel = '' if pkg == '.' else pkg + '/'
            open(out + '/demo_test.go', 'w').write(s['demo'])
            open(out + '/demo.sh', 'w').write(DEMO % dict(rel=rel, pkg='' if pkg == '.' else pkg, env=s.get('env', '')))
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            bad = sh(f'bash {out}/demo.sh', repo)
            sh('git checkout -- .', repo)
            good = sh(f'bash {out}/demo.sh', repo)
            v = 'OK' if good.returncode == 0 and bad.returncode != 0 else 'DEMO WRONG'
            print(s['id'], v, 'good', good.returncode, 'bad', bad.returncode)
            if v != 'OK':
                print((good.stdout + good.stderr)[-1500:] if good.returncode else (bad.stdout + bad.stderr)[-300:])
                shutil.rmtree(out)
            elif 'build failed' in bad.stdout + bad.stderr: print('  demo does not build'); shutil.rmtree(out)
        finally:
            shutil.rmtree(d)
main()
