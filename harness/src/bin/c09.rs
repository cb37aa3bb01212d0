//! C09: comparisons.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::{Ctx, Worker, run};

/// The seven results in the order eq ne lt le gt ge unord, and the ordering they must encode.
fn judge(w: &mut Worker, name: &'static str, f: &Fmt, a: u128, b: u128, o: Option<i32>, r: [i64; 7]) {
    let ok = match o {
            Some(c) => {
                (r[0] == 0) == (c == 0)
                    && (r[1] == 0) == (c == 0)
                    && (r[2] < 0) == (c < 0)
                    && (r[3] <= 0) == (c <= 0)
                    && (r[4] > 0) == (c > 0)
                    && (r[5] >= 0) == (c >= 0)
                    // the three-way forms also tell the other two outcomes apart
                    && r[2].signum() as i32 == c.signum()
                    && r[3].signum() as i32 == c.signum()
                    && r[4].signum() as i32 == c.signum()
                    && r[5].signum() as i32 == c.signum()
                    && r[6] == 0
            }
            None => r[0] != 0 && r[1] != 0 && !(r[2] < 0) && !(r[3] <= 0) && !(r[4] > 0) && !(r[5] >= 0) && r[6] != 0,
        };
    if !ok {
        w.fail(name, &format!("{}, {}", hex(f, a), hex(f, b)), &format!("ordering {o:?} (-1 less, 0 equal, 1 greater, None unordered)"), &format!("eq,ne,lt,le,gt,ge,unord = {r:?}"));
    }
    w.done(o != Some(0));
}

fn aeabi(w: &mut Worker, name: &'static str, f: &Fmt, a: u128, b: u128, o: Option<i32>, r: [i64; 6]) {
    let want = match o {
        Some(c) => [(c == 0) as i64, (c < 0) as i64, (c <= 0) as i64, (c > 0) as i64, (c >= 0) as i64, 0],
        None => [0, 0, 0, 0, 0, 1],
    };
    // unordered is only specified as zero / non-zero
    let r = [r[0], r[1], r[2], r[3], r[4], (r[5] != 0) as i64];
    if r != want {
        w.fail(name, &format!("{}, {}", hex(f, a), hex(f, b)), &format!("eq,lt,le,gt,ge,un = {want:?}"), &format!("{r:?}"));
    }
    w.done(o != Some(0));
}

macro_rules! seven {
    ($cb:ident, $x:ident, $y:ident, $($f:ident)*) => { [$($cb::float::cmp::$f($x, $y) as i64),*] };
}

fn pairs(ctx: &Ctx, name: &'static str, va: &[u128], vb: &[u128], case: &(dyn Fn(&mut Worker, u128, u128) + Sync)) {
    ctx.par(name, va.len() as u64, |i, w| {
        w.func(name);
        for &b in vb {
            w.args([va[i as usize] as u64, (va[i as usize] >> 64) as u64, b as u64, (b >> 64) as u64]);
            case(w, va[i as usize], b);
        }
        w.sample(|| format!("{name}: {:#x} with {} second operands", va[i as usize], vb.len()));
    });
}

fn main() {
    run("C09", "exploration", |ctx| {
        ctx.rule("all seven comparison routines per operand pair; binary16: all values x all (thorough) or alphabet second operands; other formats: all pairs of (all or edge exponents x significand alphabets x signs), NaN payloads included; nontrivial = operands not equal");
        let t = ctx.thorough;
        let tab = table16();
        let all16: Vec<u128> = (0..1 << 16).collect();
        let s16: Vec<u128> = second16(t).into_iter().map(|x| x as u128).collect();
        pairs(ctx, "__cmphf2 family", &all16, &s16, &|w, a, b| {
            let (x, y) = (f16::from_bits(a as u16), f16::from_bits(b as u16));
            let o = tab[a as usize].partial_cmp(&tab[b as usize]).map(|o| o as i32);
            judge(w, "__cmphf2 family", &F16, a, b, o, seven!(compiler_builtins, x, y, __eqhf2 __nehf2 __lthf2 __lehf2 __gthf2 __gehf2 __unordhf2));
        });
        let e32 = if t { exps_all(&F32) } else { exps_edge(&F32, 3) };
        let v32 = values(&F32, &e32, &sig_small(23));
        let c32 = |w: &mut Worker, a: u128, b: u128| {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            let o = x.partial_cmp(&y).map(|o| o as i32);
            judge(w, "__cmpsf2 family", &F32, a, b, o, seven!(compiler_builtins, x, y, __eqsf2 __nesf2 __ltsf2 __lesf2 __gtsf2 __gesf2 __unordsf2));
            #[cfg(feature = "inc")]
            aeabi(w, "__aeabi_fcmp* family", &F32, a, b, o, seven!(armish, x, y, __aeabi_fcmpeq __aeabi_fcmplt __aeabi_fcmple __aeabi_fcmpgt __aeabi_fcmpge __aeabi_fcmpun));
        };
        pairs(ctx, "__cmpsf2 family", &v32, &v32, &c32);
        let r32 = values(&F32, &[0, 1, 127, 254, 255], &sig_runs(23));
        pairs(ctx, "__cmpsf2 family, run significands", &r32, &r32, &c32);
        let v64 = values(&F64, &exps_edge(&F64, if t { 6 } else { 3 }), &sig_small(52));
        let c64 = |w: &mut Worker, a: u128, b: u128| {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            let o = x.partial_cmp(&y).map(|o| o as i32);
            judge(w, "__cmpdf2 family", &F64, a, b, o, seven!(compiler_builtins, x, y, __eqdf2 __nedf2 __ltdf2 __ledf2 __gtdf2 __gedf2 __unorddf2));
            #[cfg(feature = "inc")]
            aeabi(w, "__aeabi_dcmp* family", &F64, a, b, o, seven!(armish, x, y, __aeabi_dcmpeq __aeabi_dcmplt __aeabi_dcmple __aeabi_dcmpgt __aeabi_dcmpge __aeabi_dcmpun));
        };
        pairs(ctx, "__cmpdf2 family", &v64, &v64, &c64);
        let r64 = values(&F64, &[0, 1, 1023, 2046, 2047], &if t { sig_allruns(52) } else { sig_runs(52) });
        pairs(ctx, "__cmpdf2 family, run significands", &r64, &r64, &c64);
        let v128 = values(&F128, &exps_edge(&F128, if t { 6 } else { 3 }), &sig_small(112));
        let c128 = |w: &mut Worker, a: u128, b: u128| {
            let (x, y) = (f128::from_bits(a), f128::from_bits(b));
            let o = F128.cmp(a, b);
            judge(w, "__cmptf2 family", &F128, a, b, o, seven!(compiler_builtins, x, y, __eqtf2 __netf2 __lttf2 __letf2 __gttf2 __getf2 __unordtf2));
            #[cfg(feature = "inc")]
            judge(w, "__cmpkf2 family (PowerPC names)", &F128, a, b, o, seven!(armish, x, y, __eqkf2 __nekf2 __ltkf2 __lekf2 __gtkf2 __gekf2 __unordkf2));
        };
        pairs(ctx, "__cmptf2 family", &v128, &v128, &c128);
        let r128 = values(&F128, &[0, 1, 16383, 32767], &sig_runs(112));
        pairs(ctx, "__cmptf2 family, run significands", &r128, &r128, &c128);
    })
}
