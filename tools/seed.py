#!/usr/bin/env python3
"""seed.py <spec.py>...: confirms planted bugs in a scratch copy of /repo and stores them under /verif/seeded.

A spec defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<Go main program>, needs, breaks)].
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')

def sh(cmd, cwd, timeout=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

DEMO = "#!/bin/bash\nexport GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local\nexec go run %s\"$(cd \"$(dirname \"$0\")\" && pwd)/main.go\"\n"

def main():
    only = os.environ.get('ONLY')
    for spec in sys.argv[1:]:
        for s in runpy.run_path(spec)['SEEDS']:
            if only and s['id'] not in only.split(','):
                continue
            tmp = tempfile.mkdtemp(prefix='seed-')
            repo = os.path.join(tmp, 'repo')
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            ok, why = True, ''
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    ok, why = False, '%s: %d matches of %r' % (f, t.count(old), old[:60]); break
                open(p, 'w').write(t.replace(old, new))
            d = os.path.join('/verif/seeded', s['id'])
            if ok:
                stage = os.path.join(tmp, 'demo'); os.mkdir(stage)
                open(os.path.join(stage, 'main.go'), 'w').write(s['demo'])
                open(os.path.join(stage, 'demo.sh'), 'w').write(DEMO % ("-race " if s.get("race") else ""))
                os.chmod(os.path.join(stage, 'demo.sh'), 0o755)
                rc, out = sh('gofmt -l parser lexer interpret *.go; go build ./... && go test ./... 2>&1 | grep -v "no test files"', repo)
                if 'FAIL' in out or rc not in (0, 1) or 'ok' not in out:
                    ok, why = False, 'tests: ' + out[-1500:]
                if ok:
                    rc1, o1 = sh(os.path.join(stage, 'demo.sh'), repo, 120)
                    rc0, o0 = sh(os.path.join(stage, 'demo.sh'), '/repo', 120)
                    if rc0 != 0: ok, why = False, 'demo fails on the unchanged tree: ' + o0[-800:]
                    elif rc1 == 0: ok, why = False, 'demo passes with the change'
            if ok:
                rc, diff = sh('git diff', repo)
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(diff)
                for n in ('main.go', 'demo.sh'):
                    shutil.copy(os.path.join(stage, n), d)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                # which checks see it
                hits = []
                for c in ([s['property']] if os.environ.get('FAST') else sorted(x['property'] for x in json.load(open('/verif/MANIFEST.json'))['checks'])):
                    rc, out = sh('VERIF_REPO=%s VERIF_OUT=%s /verif/run.sh %s' % (repo, tmp, c), '/verif', 900)
                    if rc == 1: hits.append(c)
                    elif rc != 0: hits.append(c + '(rc %d)' % rc)
                print('%-28s %s ok; reported by %s%s' % (s['id'], s['property'], ' '.join(hits) or 'NOTHING', '' if s['property'] in hits else '   <== MISSED'))
            else:
                print('%-28s %s REJECTED %s' % (s['id'], s['property'], why))
            sys.stdout.flush()
            shutil.rmtree(tmp)
main()
