#!/usr/bin/env python3
"""Development tool: turns a planted bug description into seeded/<id>/ after confirming it in a scratch copy.
usage: seed.py <description.py>... ; each defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main.rs), optional DEPS.
Never run by a check."""
import json, os, subprocess, sys, runpy, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
CRATES = {'sval': '', 'sval_ref': 'ref', 'sval_dynamic': 'dynamic', 'sval_buffer': 'buffer', 'sval_nested': 'nested', 'sval_json': 'json',
          'sval_fmt': 'fmt', 'sval_serde': 'serde', 'sval_flatten': 'flatten'}
SH = '''#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this file) against it and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%s
TOML
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cd "$dir" && cargo run --offline -q%s
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def refresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + '/repo'):
        sh('cp -a /repo %s/repo' % W, '/')
    sh('git checkout -q -f -- . && git clean -fdq', W + '/repo')
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if sh('git rev-parse HEAD', W + '/repo').stdout.strip() != head:
        sh('git fetch -q /repo && git checkout -q -f %s' % head, W + '/repo')


def one(path):
    d = runpy.run_path(path)
    refresh()
    r = W + '/repo'
    for f, old, new in d['EDITS']:
        p = os.path.join(r, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (d['ID'], f, 'old occurs %d times' % n)
        open(p, 'w').write(s.replace(old, new))
    patch = sh('git diff', r).stdout
    out = os.path.join(R, 'seeded', d['ID'])
    tmp = W + '/demo-' + d['ID']
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    deps = d.get('DEPS', ['sval', 'sval_json', 'sval_buffer', 'sval_ref', 'sval_dynamic'])
    toml = []
    for x in deps:
        if isinstance(x, tuple): toml.append(x[1]); continue
        toml.append('%s = { path = "$repo/%s", features = ["std"] }' % (x, CRATES[x]) if x != 'sval_dynamic' else '%s = { path = "$repo/dynamic" }' % x)
    open(tmp + '/demo.sh', 'w').write(SH % ('\n'.join(toml), d.get('ARGS', '')))
    open(tmp + '/main.rs', 'w').write(d['DEMO'])
    env = 'sed -e "s#^cd /repo .*#cd %s#" /opt/vp/env.sh > %s/env.sh; ' % (r, W)
    t = sh(env + "sed -e 's#/opt/vp/env.sh#%s/env.sh#; s#/repo/#%s/#g' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json" % (W, r, W, W, W), r)
    try:
        res = json.load(open(W + '/o.json'))
    except Exception:
        print(t.stdout[-3000:]); return False
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base['stable']
    miss = sorted(set(stable) - set(res['passed']))
    os.remove(W + '/o.json')
    if miss:
        print(d['ID'], 'TESTS FAIL', len(miss), miss[:4]); return False
    bad = sh('bash %s/demo.sh' % tmp, r)
    good = sh('bash %s/demo.sh' % tmp, '/repo')
    if good.returncode != 0 or bad.returncode == 0 or 'could not compile' in bad.stdout:
        print(d['ID'], 'DEMO', good.returncode, bad.returncode, good.stdout[-1500:], bad.stdout[-1500:]); return False
    shutil.rmtree(out, ignore_errors=True)
    shutil.move(tmp, out)
    open(out + '/patch.diff', 'w').write(patch)
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    print(d['ID'], 'ok', bad.stdout.strip().splitlines()[-3:])
    return True


if __name__ == '__main__':
    for p in sys.argv[1:]:
        one(p)
    if os.environ.get('CLEAN'): shutil.rmtree(W, ignore_errors=True)
