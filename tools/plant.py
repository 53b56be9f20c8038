#!/usr/bin/env python3
"""Plants a bug: builds it in a scratch copy, confirms that it compiles, that the stable
tests pass and that its demonstration tells it from the unchanged tree, and keeps it under
/verif/seeded/<id>.  usage: plant.py BUGS.py [ID...]

BUGS.py defines BUGS = [dict(id=, property=, edits=[(file, old, new), ...], demo=<rust main>,
needs=, what=)].  Nothing here is used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile

REPO = '/repo'
SEEDED = '/verif/seeded'
DEMO_SH = r'''#!/bin/bash
# Exit 0 if the library (in the current directory) behaves as stated, nonzero if it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
work=$(mktemp -d /tmp/fuser-demo.XXXXXXXX) || exit 99
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/base.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
html5-fuser = { path = "$repo" }
[profile.dev]
debug = 0
TOML
export CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 99
cargo build --offline -q 2> "$work/build.log" || { cat "$work/build.log"; exit 98; }
timeout 120 "$work/target/debug/demo"
'''
PRELUDE = r'''#![allow(unused)]
use html5_fuser::*;
use std::str::FromStr;
fn tpl(s: &str) -> Template { Template::from_str(s, ParseOptions::default()).expect(s) }
'''
ENV = dict(os.environ, HOME='/root', CARGO_HOME='/root/.cargo', RUSTUP_HOME='/root/.rustup',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def tests(copy):
    out = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], copy)
    ok = set(re.findall(r'^test (\S+.*?) \.\.\. ok$', out.stdout, re.M))
    bad = re.findall(r'^test (\S+.*?) \.\.\. FAILED$', out.stdout, re.M)
    return out.returncode, len(ok), bad, out.stdout

def plant(b):
    d = os.path.join(SEEDED, b['id'])
    scratch = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    copy = scratch + '/repo'
    try:
        sh(['cp', '-a', REPO, copy], '/')
        for f, old, new in b['edits']:
            p = copy + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], copy).stdout
        rc, n, bad, out = tests(copy)
        if rc != 0 or bad:
            return 'tests: rc=%d ok=%d failed=%s %s' % (rc, n, bad, '' if bad else out[-1500:])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(PRELUDE + b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(d + '/meta.json', 'w'), indent=1)
        good = sh(['bash', d + '/demo.sh'], REPO)
        evil = sh(['bash', d + '/demo.sh'], copy)
        if good.returncode != 0 or evil.returncode == 0 or evil.returncode in (98, 99):
            shutil.rmtree(d)
            return 'demo: clean=%d patched=%d\n%s\n%s' % (
                good.returncode, evil.returncode, good.stdout[-1500:], evil.stdout[-1500:])
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        if len(sys.argv) == 2 and os.path.exists(os.path.join(SEEDED, b['id'], 'patch.diff')):
            continue
        r = plant(b)
        print('%-28s %s' % (b['id'], 'planted' if r is None else 'REJECTED: ' + r), flush=True)
