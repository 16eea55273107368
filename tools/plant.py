#!/usr/bin/env python3
"""Plants the bugs described in a spec file and confirms them in a scratch copy of /repo.

    plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=<rust source> [page=True] | [window=True] sh=<shell>)].
A confirmed bug is written to /verif/seeded/<id>/. The scratch copy /tmp/w is made when missing and has to be removed
by hand afterwards.
"""
import json, os, subprocess, sys, shutil, runpy, glob

W = '/tmp/w'
SEEDED = '/verif/seeded'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
           PROPTEST_RNG_SEED='1')

DEMO_SH = r'''#!/bin/bash
# Runs demo.rs (beside this file) against the libraries of the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
@DEPS@
[workspace]
@PATCH@END
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$dir" && cargo build --quiet --offline --target-dir "$dir/target" || exit 2
timeout @TIMEOUT@ "$dir/target/debug/demo"
'''
VIEWER_SH = r'''#!/bin/bash
# Runs the viewer of the working directory in a window that follows a script (window/, beside this file).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "viewer"
path = "$repo/dandy-egui/src/main.rs"
[dependencies]
dandy = { path = "$repo/dandy" }
dandy-draw = { path = "$repo/dandy-draw", default-features = false, features = ["egui"] }
egui = "0.25.0"
eframe = "0.25.0"
[workspace]
[patch.crates-io]
eframe = { path = "$here/window" }
END
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
(cd "$dir" && cargo build --quiet --offline --target-dir "$dir/target") || exit 2
# the circles in the last picture after the lines of standard input
circles() { timeout 60 "$dir/target/debug/viewer" 2>&1 >/dev/null | tail -n 1 | grep -o '"circle"' | wc -l; }
'''
DEPS = {'dandy': 'dandy = { path = "$repo/dandy" }',
        'dandy-draw': 'dandy-draw = { path = "$repo/dandy-draw" }',
        'dandy-wasm': 'dandy-wasm = { path = "$repo/dandy-wasm" }'}


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def stable_pass():
    """None when all stable tests pass, else text."""
    b = sh('cargo build --workspace --offline && cargo test --workspace --no-run --offline')
    if b.returncode:
        return 'build failed\n' + b.stdout[-3000:]
    u = sh('timeout -k 10 600 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8')
    d = sh('timeout -k 10 200 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8')
    open('/tmp/plant/unit.log', 'w').write(u.stdout)
    open('/tmp/plant/doc.log', 'w').write(d.stdout)
    subprocess.run(['python3', '/opt/vp/results.py', '/tmp/plant/out.json', 'cargo:/tmp/plant/*.log'])
    got = set(json.load(open('/tmp/plant/out.json'))['passed'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = want - got
    return 'tests fail: ' + ', '.join(sorted(miss)) if miss else None


def clean():
    sh('git checkout -q -- . && git clean -fdq')


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    if not os.path.isdir(W):
        subprocess.check_call(['cp', '-a', '/repo', W])
    sh('git fetch -q /repo && git reset -q --hard FETCH_HEAD')
    todo = [b for b in bugs if not only or b['id'] in only]
    os.makedirs('/tmp/plant', exist_ok=True)
    for b in todo:
        clean()
        out = f"{SEEDED}/{b['id']}"
        tmp = f"/tmp/plant/{b['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        bad = False
        for f, old, new in b['edits']:
            p = f'{W}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], f'EDIT: {s.count(old)} matches in {f}: {old[:60]!r}')
                bad = True
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        open(f'{tmp}/patch.diff', 'w').write(sh('git diff').stdout)
        if b.get('window'):
            # the viewer in a window that follows a script
            shutil.copytree('/verif/mcgui/eframe', f'{tmp}/window')
            open(f'{tmp}/demo.sh', 'w').write(VIEWER_SH + b['sh'])
        elif 'sh' in b:
            open(f'{tmp}/demo.sh', 'w').write(b['sh'])
        else:
            deps = '\n'.join(DEPS[d] for d in b.get('deps', ['dandy']))
            # a page instead of a browser
            page = b.get('page')
            if page:
                deps += '\nweb-sys = "0.3"'
                shutil.copytree('/verif/mcweb/web-sys', f'{tmp}/page')
            patch = '[patch.crates-io]\nweb-sys = { path = "$here/page" }\n' if page else ''
            open(f'{tmp}/demo.sh', 'w').write(DEMO_SH.replace('@DEPS@', deps).replace('@TIMEOUT@', '120').replace('@PATCH@', patch))
            open(f'{tmp}/demo.rs', 'w').write(b['demo'])
        os.chmod(f'{tmp}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{tmp}/meta.json', 'w'), indent=1)
        t = stable_pass()
        if t:
            print(b['id'], 'REJECTED', t, flush=True)
            continue
        r = sh(f'bash {tmp}/demo.sh', timeout=400)
        if r.returncode in (0, 2):
            print(b['id'], f'DEMO exit {r.returncode} WITH patch', r.stdout[-1500:], flush=True)
            continue
        clean()
        if 'sh' in b:
            sh('cargo build --workspace --offline')
        c = sh(f'bash {tmp}/demo.sh', timeout=400)
        if c.returncode != 0:
            print(b['id'], 'DEMO fails WITHOUT patch', c.stdout[-1500:], flush=True)
            continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(b['id'], 'ok:', r.stdout.strip()[-160:].replace('\n', ' | '), flush=True)
    clean()


main()
