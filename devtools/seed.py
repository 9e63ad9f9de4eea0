#!/usr/bin/env python3
"""Development aid: turn the entries of v_seeds.py into /verif/seeded/<id>/ after confirming each in a scratch copy:
it compiles, the test suite passes, the demonstration passes without the change and fails with it.
usage: seed.py [-k id,...]"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/actiondb-seeds'
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this demonstration's input; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 1
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
[dependencies]
actiondb = { path = "$repo" }
uuid = "^0.2.2"
[workspace]
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2>"$d/log" || { tail -20 "$d/log"; exit 1; }
timeout 60 "$d/target/debug/demo"
'''
LIB = '''
#![allow(dead_code, unused_imports, bare_trait_objects, deprecated)]
extern crate actiondb;
extern crate uuid;
use actiondb::matcher::{Pattern, Matcher, MatcherFactory, PatternLoader, BuildError, FromPatternSource};
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::parsers::*;
use uuid::Uuid;

fn pat(n: u32, text: &str) -> Pattern {
    let mut p = Pattern::with_uuid(Uuid::parse_str(&format!("9a49c47d-29e9-4072-be84-{:012x}", n)).unwrap());
    p.set_pattern(actiondb::grammar::parser::pattern(text).unwrap());
    p
}
fn id(n: u32) -> Uuid { Uuid::parse_str(&format!("9a49c47d-29e9-4072-be84-{:012x}", n)).unwrap() }
fn trie(ps: &[&str]) -> actiondb::matcher::trie::SuffixTree {
    let mut m = TrieMatcherFactory::new_matcher();
    for (i, p) in ps.iter().enumerate() { m.add_pattern(pat(i as u32, p)); }
    m
}
fn table(ps: &[&str]) -> <SuffixArrayMatcherFactory as MatcherFactory>::Matcher {
    let mut m = SuffixArrayMatcherFactory::new_matcher();
    for (i, p) in ps.iter().enumerate() { m.add_pattern(pat(i as u32, p)); }
    m
}
/// (index of the matched pattern, captured values)
fn hit<M: Matcher>(m: &M, text: &str) -> Option<(String, Vec<(String, String)>)> {
    m.parse(text).map(|r| (r.pattern().uuid().hyphenated().to_string(), r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
}
fn which<M: Matcher>(m: &M, text: &str) -> Option<String> { hit(m, text).map(|r| r.0) }
fn n(i: u32) -> Option<String> { Some(id(i).hyphenated().to_string()) }
fn val<M: Matcher>(m: &M, text: &str, k: &str) -> Option<String> {
    hit(m, text).and_then(|r| r.1.into_iter().find(|x| x.0 == k).map(|x| x.1))
}
fn s(x: &str) -> Option<String> { Some(x.to_string()) }
/// a pattern file in a scratch directory, loaded by f, removed afterwards
fn with_file<R, F: Fn(&str) -> R>(name: &str, content: &[u8], f: F) -> R {
    let d = std::env::temp_dir().join(format!("actiondb-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(name);
    std::fs::write(&p, content).unwrap();
    let r = f(p.to_str().unwrap());
    std::fs::remove_dir_all(&d).unwrap();
    r
}
'''

def sh(cmd, cwd, **env):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def one(a):
    sid, prop, needs, breaks, edits, demo = a
    d = '%s/%s' % (BASE, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = d + '/repo'
    sh(['git', 'clone', '-q', '/repo', r], d)
    if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', r)
    o = d + '/seed'
    os.makedirs(o)
    open(o + '/demo.sh', 'w').write(DEMO); os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.rs', 'w').write(LIB.strip() + '\n\n' + demo.strip() + '\n')
    x = sh(['bash', o + '/demo.sh'], r)
    if x.returncode: return sid, 'demo FAILS on the unchanged tree: ' + x.stdout[-600:]
    for f, old, new in edits:
        p = r + '/' + f
        t = open(p).read()
        rx = re.compile(r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in old.split('\n')))
        n = len(rx.findall(t))
        if n != 1: return sid, 'edit matches %d times in %s: %r' % (n, f, old[:60])
        open(p, 'w').write(rx.sub(lambda m: new, t))
    open(o + '/patch.diff', 'w').write(sh(['git', 'diff'], r).stdout)
    # deleted lines must be original ones
    own = sh(['git', 'diff', '-U0', 'aaebae1', 'HEAD'], r).stdout
    fixed = {l[1:].strip() for l in own.splitlines() if l.startswith('+') and not l.startswith('+++')}
    gone = [l[1:].strip() for l in sh(['git', 'diff', '-U0'], r).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
    mine = [l for l in gone if len(l) > 4 and l in fixed]
    if mine: return sid, 'touches a line of a fix: %s' % mine[0]
    if not gone: return sid, 'only adds lines'
    x = sh(['cargo', 'test', '--offline', '-q'], r)
    if x.returncode: return sid, 'TESTS FAIL: ' + x.stdout[-900:]
    x = sh(['bash', o + '/demo.sh'], r)
    if x.returncode == 0: return sid, 'demo does NOT fail with the change'
    if 'error' in x.stdout and 'panicked' not in x.stdout: return sid, 'demo fails to build? ' + x.stdout[-600:]
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree('%s/%s' % (OUT, sid), ignore_errors=True)
    shutil.copytree(o, '%s/%s' % (OUT, sid))
    shutil.rmtree(d, ignore_errors=True)
    return sid, 'ok ' + x.stdout.strip().splitlines()[0][:150] if x.stdout.strip() else 'ok'

if __name__ == '__main__':
    from v_seeds import S
    k = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[1] == '-k' else None
    with cf.ProcessPoolExecutor(8) as ex:
        for sid, r in ex.map(one, [s for s in S if not k or s[0] in k]): print('%-24s %s' % (sid, r), flush=True)
