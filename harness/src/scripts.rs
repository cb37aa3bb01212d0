//! The build scripts of /repo as programs, and the targets the compiler knows.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio, exit};

use crate::ctx::ROOT;

/// A target as the compiler describes it.
#[derive(Clone, Debug)]
pub struct Target {
    pub triple: String,
    pub cfg: BTreeMap<String, Vec<String>>,
}

impl Target {
    pub fn is(&self, key: &str, value: &str) -> bool {
        self.cfg.get(key).is_some_and(|v| v.iter().any(|x| x == value))
    }
    pub fn has(&self, key: &str) -> bool {
        self.cfg.contains_key(key)
    }
    pub fn feature(&self, f: &str) -> bool {
        self.is("target_feature", f)
    }
    pub fn arch(&self) -> &str {
        &self.cfg["target_arch"][0]
    }
    pub fn os(&self) -> &str {
        &self.cfg["target_os"][0]
    }
}

pub fn targets() -> Vec<Target> {
    let o = Command::new("rustc").args(["--print", "target-list"]).output().unwrap();
    let names: Vec<String> = String::from_utf8(o.stdout).unwrap().lines().map(|s| s.to_string()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let all = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(n) = names.get(i) else { break };
                    let o = Command::new("rustc").args(["--target", n, "--print=cfg"]).output().unwrap();
                    if !o.status.success() {
                        continue;
                    }
                    let mut cfg: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for l in String::from_utf8(o.stdout).unwrap().lines() {
                        let (k, v) = l.split_once('=').unwrap_or((l, ""));
                        cfg.entry(k.to_string()).or_default().push(v.trim_matches('"').to_string());
                    }
                    all.lock().unwrap().push(Target { triple: n.clone(), cfg });
                }
            });
        }
    });
    let mut all = all.into_inner().unwrap();
    all.sort_by(|a, b| a.triple.cmp(&b.triple));
    assert!(all.len() > 200);
    all
}

/// Builds every script with these features; the programs end up in the returned directory.
pub fn build(features: &[&str]) -> PathBuf {
    let target = format!("{ROOT}/target/btest");
    let own = PathBuf::from(format!("{target}/kept/f-{}", features.join("-")));
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path"])
        .arg(format!("{ROOT}/btest/Cargo.toml"))
        .args(["--features", &features.join(",")])
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .unwrap();
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        exit(2);
    }
    fs::create_dir_all(&own).unwrap();
    for f in fs::read_dir(format!("{target}/release")).unwrap() {
        let f = f.unwrap().path();
        let name = f.file_name().unwrap().to_str().unwrap().to_string();
        if name.starts_with("script-") && !name.contains('.') {
            let to = own.join(&name);
            let _ = fs::remove_file(&to);
            fs::copy(&f, &to).unwrap();
        }
    }
    own
}

/// What a script told Cargo.
#[derive(Default, Debug)]
pub struct Said {
    pub ok: bool,
    pub cfgs: BTreeSet<String>,
    pub checks: BTreeSet<String>,
    pub lines: Vec<String>,
    pub errors: String,
}

impl Said {
    pub fn new(o: Output) -> Said {
        let mut s = Said { ok: o.status.success(), errors: String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" / "), ..Said::default() };
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Some(l) = l.strip_prefix("cargo::").or(l.strip_prefix("cargo:")) else { continue };
            s.lines.push(l.to_string());
            if let Some(c) = l.strip_prefix("rustc-cfg=") {
                s.cfgs.insert(c.to_string());
            }
            if let Some(c) = l.strip_prefix("rustc-check-cfg=cfg(") {
                s.checks.insert(c.split([',', ')']).next().unwrap().to_string());
            }
        }
        s
    }
}

/// The script's command with the environment Cargo gives it.
pub fn command(script: &Path, dir: &str, t: &Target, features: &[&str], opt: &str, out: &Path) -> Command {
    let mut c = Command::new(script);
    c.env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TARGET", &t.triple)
        .env("HOST", "x86_64-unknown-linux-gnu")
        .env("OPT_LEVEL", opt)
        .env("DEBUG", "false")
        .env("PROFILE", "release")
        .env("NUM_JOBS", "1")
        .env("CARGO_MANIFEST_DIR", dir)
        .env("OUT_DIR", out)
        .stdin(Stdio::null())
        .current_dir(dir);
    for (k, v) in &t.cfg {
        c.env(format!("CARGO_CFG_{}", k.to_uppercase().replace('-', "_")), v.join(","));
    }
    for f in features {
        c.env(format!("CARGO_FEATURE_{}", f.to_uppercase().replace('-', "_")), "1");
    }
    c
}
