//! C44: results do not depend on build configuration. A worker program is built several times and prints digests of
//! the results of every routine over the same domains; blocks whose digests differ are compared case by case.
use std::collections::BTreeMap;
use std::process::{Command, exit};
use vh::ctx::ROOT;
use vh::{Ctx, run};

struct Config {
    name: &'static str,
    profile: &'static str,
    flags: &'static str,
}

const CONFIGS: [Config; 5] = [
    Config { name: "optimised", profile: "o3", flags: "" },
    Config { name: "unoptimised with checks", profile: "o0", flags: "" },
    Config { name: "optimised for size", profile: "os", flags: "" },
    Config { name: "x86-64-v3 processor", profile: "o3", flags: "-Ctarget-cpu=x86-64-v3" },
    Config { name: "sse4.1 processor without vectorisation", profile: "o3", flags: "-Ctarget-feature=+sse4.1 -Cno-vectorize-loops -Cno-vectorize-slp" },
];

fn dir(i: usize) -> String {
    format!("{ROOT}/target/cfgs{}", if CONFIGS[i].flags.is_empty() { 0 } else { i })
}

fn build(i: usize) {
    let c = &CONFIGS[i];
    let flags = format!("{} {}", std::env::var("RUSTFLAGS").unwrap_or_default(), c.flags);
    let out = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--profile", c.profile])
        .current_dir(format!("{ROOT}/cfgs"))
        .env("CARGO_TARGET_DIR", dir(i))
        .env("RUSTFLAGS", flags)
        .output();
    match out {
        Ok(o) if o.status.success() => {}
        Ok(o) => {
            println!("{}", String::from_utf8_lossy(&o.stderr));
            println!("build of configuration '{}' failed", c.name);
            exit(2);
        }
        Err(e) => {
            println!("cargo: {e}");
            exit(2);
        }
    }
}

fn worker(ctx: &Ctx, i: usize, args: &[&str]) -> String {
    let c = &CONFIGS[i];
    let o = Command::new(format!("{}/{}/cfgs", dir(i), c.profile)).args(args).output().unwrap();
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if e.contains("/repo/") {
            ctx.violate(&format!("a routine in the configuration '{}'", c.name), &args.join(" "), "results", &e);
        }
        println!("{e}");
        exit(3);
    }
    String::from_utf8(o.stdout).unwrap()
}

/// Library, routine and block number to digest.
type Digests = BTreeMap<(String, String, u64), (bool, u64, String)>;

fn parse(s: &str) -> Digests {
    s.lines()
        .map(|l| {
            let t: Vec<&str> = l.split(' ').collect();
            ((t[0].into(), t[1].into(), t[3].parse().unwrap()), (t[2] == "true", t[4].parse().unwrap(), t[5].into()))
        })
        .collect()
}

fn differ(ctx: &Ctx, size: &str, (i, lib): (usize, &str), (j, other): (usize, &str), name: &str, block: u64) {
    let b = block.to_string();
    let x = worker(ctx, i, &[size, lib, name, &b]);
    let y = worker(ctx, j, &[size, other, name, &b]);
    for (p, q) in x.lines().zip(y.lines()) {
        if p != q {
            let (input, want) = p.split_once(" = ").unwrap();
            let got = q.split_once(" = ").unwrap().1;
            ctx.violate(name, &format!("{input} ({other}, {})", CONFIGS[j].name), &format!("{want} as in {lib}, {}", CONFIGS[i].name), got);
            return;
        }
    }
    println!("digests of {name} block {block} differ but the results do not");
    exit(3);
}

fn build_all() {
    std::thread::scope(|s| {
        // Builds that share a directory one after another.
        s.spawn(|| [0, 1, 2].map(build));
        s.spawn(|| [3, 4].map(build));
    });
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("build") {
        build_all();
        return;
    }
    run("C44", "exploration", |ctx| {
        ctx.rule("every routine over its boundary domain gives the same bits (NaNs alike) in every build; nontrivial = a case compared across at least two builds");
        build_all();
        let size = if ctx.thorough { "1" } else { "0" };
        let able = |i: usize| i != 3 || (is_x86_feature_detected!("avx2") && is_x86_feature_detected!("fma") && is_x86_feature_detected!("bmi2"));
        let all: Vec<Digests> = (0..CONFIGS.len()).map(|i| if able(i) { parse(&worker(ctx, i, &[size])) } else { Digests::new() }).collect();
        for (i, d) in all.iter().enumerate().skip(1) {
            ctx.seq(&format!("{} against {}", CONFIGS[i].name, CONFIGS[0].name), |w| {
                for (k, v) in d {
                    if all[0][k].2 != v.2 {
                        differ(ctx, size, (0, &k.0), (i, &k.0), &k.1, k.2);
                    }
                    w.evals += v.1;
                    w.nontrivial += v.1;
                    w.beat();
                }
            });
        }
        for (i, d) in all.iter().enumerate() {
            for (lib, others) in [("libm", &["libm_gen", "libm_intr"][..]), ("runtime", &["runtime_gen"][..])] {
                for other in others {
                    ctx.seq(&format!("{other} against {lib}, {}", CONFIGS[i].name), |w| {
                        for (k, v) in d.iter().filter(|(k, v)| k.0 == *other && v.0) {
                            let l = &d[&(lib.to_string(), k.1.clone(), k.2)];
                            if l.2 != v.2 {
                                differ(ctx, size, (i, lib), (i, other), &k.1, k.2);
                            }
                            w.evals += v.1;
                            w.nontrivial += v.1;
                            w.beat();
                        }
                    });
                }
            }
        }
    });
}
