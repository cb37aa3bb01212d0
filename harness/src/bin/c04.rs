//! C04: shifts.
use vh::alpha::*;
use vh::run;

macro_rules! all {
    ($w:ident, $cb:ident, $v:ident) => {{
        use $cb::int::shift::*;
        macro_rules! one {
            ($f:ident, $t:ty, $bits:expr, $kind:expr) => {
                for s in 0..$bits {
                    $w.func(stringify!($f));
                    $w.args([$v as u64, ($v >> 64) as u64, s as u64]);
                    let m: u128 = if $bits == 128 { u128::MAX } else { (1u128 << ($bits % 128)) - 1 };
                    let x = $v & m;
                    // bit-by-bit definition
                    let want = match $kind {
                        'l' => x.checked_shl(s).unwrap() & m,
                        'r' => x >> s,
                        _ => (sext(x, $bits) >> s) as u128 & m,
                    };
                    let g = $f(x as $t, s) as u128 & m;
                    if g != want {
                        $w.fail(concat!(stringify!($cb), "::", stringify!($f)), &format!("{x:#x}, {s}"), &format!("{want:#x}"), &format!("{g:#x}"));
                    }
                    $w.done(s != 0 && x != 0);
                }
            };
        }
        one!(__ashlsi3, u32, 32, 'l');
        one!(__ashldi3, u64, 64, 'l');
        one!(__ashlti3, u128, 128, 'l');
        one!(__lshrsi3, u32, 32, 'r');
        one!(__lshrdi3, u64, 64, 'r');
        one!(__lshrti3, u128, 128, 'r');
        one!(__ashrsi3, i32, 32, 'a');
        one!(__ashrdi3, i64, 64, 'a');
        one!(__ashrti3, i128, 128, 'a');
    }};
}

fn main() {
    run("C04", "exploration", |ctx| {
        ctx.rule("every alphabet value with every shift amount below the width, nine routines, two builds; nontrivial = non-zero value and amount");
        let mut v = ints_allruns(128);
        v.extend(ints_allruns(64).iter().flat_map(|x| [*x, x << 64, x << 64 | x]));
        v.extend(ints_allruns(32));
        v.extend(ints_limbs(128, 32, &limb_edges(32)));
        v.extend(ints_limbs(64, 16, &limb_edges(16)));
        v.extend((0..1u128 << 16).flat_map(|x| [x, x << 16, x << 48, x << 112]));
        let v = dedup(v);
        ctx.par("alphabet values x all amounts", v.len() as u64, |i, w| {
            let x = v[i as usize];
            all!(w, compiler_builtins, x);
            all!(w, cb_gen, x);
            w.sample(|| format!("{x:#x} by every amount"));
        });
        #[cfg(feature = "inc")]
        ctx.seq("ARM names", |w| {
            use armish::int::shift::*;
            for x in ints_allruns(64) {
                for s in 0..64 {
                    w.args([x as u64, s as u64]);
                    let x = x as u64;
                    let g = (__aeabi_llsl(x, s), __aeabi_llsr(x, s), __aeabi_lasr(x as i64, s));
                    let r = (x << s, x >> s, x as i64 >> s);
                    if g != r {
                        w.fail("__aeabi_llsl/llsr/lasr", &format!("{x:#x}, {s}"), &format!("{r:x?}"), &format!("{g:x?}"));
                    }
                    w.done(s != 0 && x != 0);
                }
            }
        });
        if ctx.thorough {
            use compiler_builtins::int::shift::*;
            ctx.par("every 32-bit value x all amounts", 1 << 16, |c, w| {
                w.func("32-bit shifts");
                for l in 0..1u32 << 16 {
                    let x = (c as u32) << 16 | l;
                    for s in 0..32 {
                        w.args([x as u64, s as u64]);
                        let (a, b, d) = (__ashlsi3(x, s), __lshrsi3(x, s), __ashrsi3(x as i32, s));
                        let y = x as u64;
                        if a as u64 != (y << s) & 0xffff_ffff || b as u64 != y >> s || d as i64 != (x as i32 as i64) >> s {
                            w.fail("32-bit shifts", &format!("{x:#x}, {s}"), "exact shift", &format!("{a:#x} {b:#x} {d:#x}"));
                        }
                        w.done(s != 0 && x != 0);
                    }
                }
            });
        }
    })
}
