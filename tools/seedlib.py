"""Turns a seed description into /verif/seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json} (authoring tool, used by hand)."""
import difflib,json,os,subprocess,sys
REPO='/repo'; OUT='/verif/seeded'
PRELUDE='''#![allow(dead_code, unused_imports)]
use stratum_dsp::*;

/// Percussive clicks at `bpm` over a sustained chord.
fn music(sr: u32, secs: f32, bpm: f32, chord: &[f32], level: f32) -> Vec<f32> {
    let n = (sr as f32 * secs) as usize;
    let period = (60.0 / bpm * sr as f32) as usize;
    (0..n)
        .map(|i| {
            let t = i as f32 / sr as f32;
            let k = (i % period) as f32 / sr as f32;
            let click = (-k * 60.0).exp() * (k * 2.0 * std::f32::consts::PI * 1800.0).sin() * 0.7;
            let tone: f32 = chord
                .iter()
                .map(|f| (2.0 * std::f32::consts::PI * f * t).sin())
                .sum::<f32>()
                * level;
            (click + tone).clamp(-1.0, 1.0)
        })
        .collect()
}
const A_MINOR: [f32; 3] = [220.0, 261.63, 329.63];
const C_MAJOR: [f32; 3] = [261.63, 329.63, 392.0];
fn run(s: &[f32], sr: u32, c: &AnalysisConfig) -> AnalysisResult {
    analyze_audio(s, sr, c.clone()).expect("analysis failed")
}
/// Everything in the result except the processing time, as text.
fn show(r: &AnalysisResult) -> String {
    let mut r = r.clone();
    r.metadata.processing_time_ms = 0.0;
    format!("{:?}", r)
}
/// Re-runs this program with `arg`; returns (stdout, stderr).
fn child(arg: &str) -> (String, String) {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(arg).output().unwrap();
    (String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
fn arg() -> Option<String> { std::env::args().nth(1) }
fn check(ok: bool, what: &str) {
    if !ok { eprintln!("FAILED: {what}"); std::process::exit(1); }
}
'''
DEMO='''#!/bin/bash
# cwd: the repository. Builds a small program against it and runs it: exit 0 when the property holds.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
stratum-dsp = { path = "$R" }
serde_json = "1"
log = "0.4"
[workspace]
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
EOF
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" cargo build -q --offline 2>"$T/build.log" || { cat "$T/build.log"; exit 2; }
timeout 200 "$T/target/debug/demo"
'''
def seed(id,prop,edits,needs,breaks,main):
    d=f'{OUT}/{id}'; os.makedirs(d,exist_ok=True)
    files={}
    for f,old,new in edits:
        cur=files.get(f) or (open(f'{REPO}/{f}').read(),)*2
        base,txt=cur
        assert txt.count(old)==1,(id,f,txt.count(old),old)
        files[f]=(base,txt.replace(old,new))
    diff=''
    for f,(a,b) in files.items():
        diff+=f'diff --git a/{f} b/{f}\n'
        for l in difflib.unified_diff(a.splitlines(True),b.splitlines(True),f'a/{f}',f'b/{f}'): diff+=l
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(PRELUDE+main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
