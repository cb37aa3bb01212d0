//! Interpreter for the text of the Hexagon assembly routines.
//!
//! A packet reads its sources before anything is written, `.new` operands see the results of the
//! packet they stand in, and several writes to one predicate in a packet are combined by `and`.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    R(u8),
    D(u8),
    P(u8),
    I(i64),
    New(u8),
    No,
}
use A::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Mov,
    MovD,
    Comb,
    Add,
    AddD,
    AddC,
    Sub,
    SubD,
    SubC,
    SubSat,
    Neg,
    NegD,
    Abs,
    AbsD,
    AbsSat,
    Min,
    Minu,
    Max,
    Maxu,
    And,
    AndD,
    Or,
    OrD,
    Xor,
    XorD,
    Not,
    NotD,
    Asl,
    AslD,
    Asr,
    AsrD,
    Lsr,
    LsrD,
    Lsl,
    LslD,
    Vlslw,
    Vlsrw,
    Vmux,
    Mux,
    Cl0,
    Cl0D,
    Clb,
    ClbD,
    AddClbD,
    Extu,
    ExtuD,
    Ext,
    ExtD,
    ExtuP,
    ExtP,
    Ins,
    InsD,
    Setbit,
    Clrbit,
    Toggle,
    Mpyu,
    Mpy,
    Sxth,
    Zxth,
    Vabsdiffh,
    D2df,
    Ud2df,
    Df2sf,
    Sf2df,
    SfLib,
    SfScale,
    Fixupn,
    Fixupd,
    Fixupr,
    Usr,
    Recipa,
    Invsqrta,
    // predicates
    Eq,
    EqD,
    Gt,
    GtD,
    Gtu,
    GtuD,
    Ge,
    PMov,
    PXor,
    PAnd,
    POr,
    PNot,
    Tst,
    Clr,
    Set,
    DfClass,
    SfClass,
    DfEq,
    DfGt,
    DfGe,
    DfUo,
}

#[derive(Clone, Copy, Debug)]
struct Cond {
    p: u8,
    neg: bool,
    new: bool,
}

#[derive(Clone, Debug)]
enum O {
    Set { dst: A, acc: u8, f: F, neg: bool, a: [A; 3] },
    Half { r: u8, hi: bool, v: u32 },
    Load { dst: A, base: u8, off: i32, post: i32 },
    Store { src: A, base: u8, off: i32, post: i32 },
    Jump(usize),
    JumpR(u8),
    NewJump { f: F, neg: bool, a: A, b: A, to: usize },
    Loop(u8, usize, A),
    Alloc(u32),
    Dealloc,
    DeallocRet,
    UsrSet(u8),
    Ext(u16),
    Bad(u16),
    Nop,
}

#[derive(Clone, Debug)]
struct Ins {
    cond: Option<Cond>,
    o: O,
}

#[derive(Clone, Debug, Default)]
struct Pk {
    ins: Vec<Ins>,
    end0: bool,
    end1: bool,
}

#[derive(Default)]
pub struct Prog {
    pk: Vec<Pk>,
    labels: HashMap<String, usize>,
    ext: Vec<String>,
    alias: Vec<(String, String)>,
    bad: Vec<String>,
    globals: std::collections::HashSet<String>,
}

fn eval(s: &str) -> Result<i64, String> {
    struct E<'a>(&'a [u8], usize);
    impl E<'_> {
        fn ws(&mut self) {
            while self.1 < self.0.len() && self.0[self.1] == b' ' {
                self.1 += 1;
            }
        }
        fn eat(&mut self, t: &str) -> bool {
            self.ws();
            let k = self.0[self.1..].starts_with(t.as_bytes());
            if k {
                self.1 += t.len();
            }
            k
        }
        fn prim(&mut self) -> Option<i64> {
            if self.eat("-") {
                return Some(-self.prim()?);
            }
            if self.eat("+") {
                return self.prim();
            }
            if self.eat("~") {
                return Some(!self.prim()?);
            }
            if self.eat("(") {
                let v = self.bits()?;
                return self.eat(")").then_some(v);
            }
            self.ws();
            let b = self.1;
            while self.1 < self.0.len() && self.0[self.1].is_ascii_alphanumeric() {
                self.1 += 1;
            }
            let t = std::str::from_utf8(&self.0[b..self.1]).ok()?;
            match t.strip_prefix("0x").or(t.strip_prefix("0X")) {
                Some(h) => i64::from_str_radix(h, 16).ok(),
                None => t.parse().ok(),
            }
        }
        fn mul(&mut self) -> Option<i64> {
            let mut v = self.prim()?;
            while self.eat("*") {
                v *= self.prim()?;
            }
            Some(v)
        }
        fn sum(&mut self) -> Option<i64> {
            let mut v = self.mul()?;
            loop {
                if self.eat("+") {
                    v += self.mul()?;
                } else if self.eat("-") {
                    v -= self.mul()?;
                } else {
                    return Some(v);
                }
            }
        }
        fn shift(&mut self) -> Option<i64> {
            let mut v = self.sum()?;
            loop {
                if self.eat("<<") {
                    v <<= self.sum()?;
                } else if self.eat(">>") {
                    v >>= self.sum()?;
                } else {
                    return Some(v);
                }
            }
        }
        fn bits(&mut self) -> Option<i64> {
            let mut v = self.shift()?;
            loop {
                if self.eat("^") {
                    v ^= self.shift()?;
                } else if self.eat("|") {
                    v |= self.shift()?;
                } else if self.eat("&") {
                    v &= self.shift()?;
                } else {
                    return Some(v);
                }
            }
        }
    }
    let mut e = E(s.as_bytes(), 0);
    let v = e.bits().ok_or_else(|| format!("expression {s}"))?;
    e.ws();
    if e.1 != s.len() { Err(format!("expression {s}")) } else { Ok(v) }
}

fn reg(s: &str) -> Option<A> {
    let s = s.trim();
    match s {
        "fp" => return Some(R(30)),
        "lr" => return Some(R(31)),
        "sp" => return Some(R(29)),
        _ => {}
    }
    if let Some(p) = s.strip_prefix('p') {
        return p.parse().ok().filter(|&n: &u8| n < 4).map(P);
    }
    let t = s.strip_prefix('r')?;
    if let Some((h, l)) = t.split_once(':') {
        let (h, l): (u8, u8) = (h.trim().parse().ok()?, l.trim().parse().ok()?);
        return (h == l + 1 && l % 2 == 0 && h < 32).then_some(D(l));
    }
    if let Some(n) = t.strip_suffix(".new") {
        return n.parse().ok().filter(|&n: &u8| n < 32).map(New);
    }
    t.parse().ok().filter(|&n: &u8| n < 32).map(R)
}

fn operand(s: &str) -> Result<A, String> {
    let s = s.trim();
    if s.starts_with('#') {
        return Ok(I(eval(s.trim_start_matches('#').trim())?));
    }
    reg(s).ok_or_else(|| format!("operand {s}"))
}

/// Splits `name(args)mods`.
fn call(s: &str) -> Option<(&str, Vec<&str>, &str)> {
    let o = s.find('(')?;
    let mut d = 0;
    let mut args = vec![];
    let mut b = o + 1;
    for (i, c) in s.char_indices().skip(o) {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 {
                    args.push(&s[b..i]);
                    return Some((s[..o].trim(), args, s[i + 1..].trim()));
                }
            }
            ',' if d == 1 => {
                args.push(&s[b..i]);
                b = i + 1;
            }
            _ => {}
        }
    }
    None
}

fn address(s: &str) -> Result<(u8, i32, i32), String> {
    let s = s.trim();
    if let Some((b, o)) = s.split_once("++") {
        let I(n) = operand(o)? else { return Err(format!("address {s}")) };
        let Some(R(b)) = reg(b) else { return Err(format!("address {s}")) };
        return Ok((b, 0, n as i32));
    }
    let (b, o) = match s.split_once('+') {
        Some((b, o)) => {
            let I(n) = operand(o)? else { return Err(format!("address {s}")) };
            (b, n as i32)
        }
        None => (s, 0),
    };
    let Some(R(b)) = reg(b) else { return Err(format!("address {s}")) };
    Ok((b, o, 0))
}

fn func(name: &str, a: &[A], mods: &str) -> Option<F> {
    use F::*;
    let d = a.iter().any(|x| matches!(x, D(_)));
    let d0 = matches!(a.first(), Some(D(_)));
    let p0 = matches!(a.first(), Some(P(_)));
    let n = a.len();
    let pick = |w: F, q: F| if d { q } else { w };
    Some(match (name, mods, n) {
        ("add", ":carry", 3) => AddC,
        ("sub", ":carry", 3) => SubC,
        ("add", "", 2) => pick(Add, AddD),
        ("sub", "", 2) => pick(Sub, SubD),
        ("sub", ":sat", 2) if !d => SubSat,
        ("neg", "", 1) => pick(Neg, NegD),
        ("abs", "", 1) => pick(Abs, AbsD),
        ("abs", ":sat", 1) if !d => AbsSat,
        ("min", "", 2) if !d => Min,
        ("minu", "", 2) if !d => Minu,
        ("max", "", 2) if !d => Max,
        ("maxu", "", 2) if !d => Maxu,
        ("and", "", 2) if p0 => PAnd,
        ("or", "", 2) if p0 => POr,
        ("xor", "", 2) if p0 => PXor,
        ("not", "", 1) if p0 => PNot,
        ("and", "", 2) => pick(And, AndD),
        ("or", "", 2) => pick(Or, OrD),
        ("xor", "", 2) => pick(Xor, XorD),
        ("not", "", 1) => pick(Not, NotD),
        ("combine", "", 2) => Comb,
        ("asl", "", 2) => if d0 { AslD } else { Asl },
        ("asr", "", 2) => if d0 { AsrD } else { Asr },
        ("lsr", "", 2) => if d0 { LsrD } else { Lsr },
        ("lsl", "", 2) => if d0 { LslD } else { Lsl },
        ("vlslw", "", 2) => Vlslw,
        ("vlsrw", "", 2) => Vlsrw,
        ("vmux", "", 3) => Vmux,
        ("mux", "", 3) => Mux,
        ("cl0", "", 1) => pick(Cl0, Cl0D),
        ("clb", "", 1) => pick(Clb, ClbD),
        ("extractu", "", 3) => pick(Extu, ExtuD),
        ("extract", "", 3) => pick(Ext, ExtD),
        ("extractu", "", 2) if d0 => ExtuP,
        ("extract", "", 2) if d0 => ExtP,
        ("insert", "", 3) => pick(Ins, InsD),
        ("setbit", "", 2) => Setbit,
        ("clrbit", "", 2) => Clrbit,
        ("togglebit", "", 2) => Toggle,
        ("mpyu", "", 2) if !d => Mpyu,
        ("mpy", "", 2) if !d => Mpy,
        ("sxth", "", 1) => Sxth,
        ("zxth", "", 1) => Zxth,
        ("vabsdiffh", "", 2) if d => Vabsdiffh,
        ("convert_d2df", "", 1) if d => D2df,
        ("convert_ud2df", "", 1) if d => Ud2df,
        ("convert_df2sf", "", 1) if d => Df2sf,
        ("convert_sf2df", "", 1) if !d => Sf2df,
        ("sfmpy", ":lib", 2) => SfLib,
        ("sfmpy", ":scale", 3) => SfScale,
        ("sffixupn", "", 2) => Fixupn,
        ("sffixupd", "", 2) => Fixupd,
        ("sffixupr", "", 1) => Fixupr,
        ("sfrecipa", "", 2) => Recipa,
        ("sfinvsqrta", "", 1) => Invsqrta,
        ("cmp.eq", "", 2) => pick(Eq, EqD),
        ("cmp.gt", "", 2) => pick(Gt, GtD),
        ("cmp.gtu", "", 2) => pick(Gtu, GtuD),
        ("cmp.ge", "", 2) if !d => Ge,
        ("tstbit", "", 2) => Tst,
        ("bitsclr", "", 2) => Clr,
        ("bitsset", "", 2) => Set,
        ("dfclass", "", 2) if d => DfClass,
        ("sfclass", "", 2) if !d => SfClass,
        ("dfcmp.eq", "", 2) if d => DfEq,
        ("dfcmp.gt", "", 2) if d => DfGt,
        ("dfcmp.ge", "", 2) if d => DfGe,
        ("dfcmp.uo", "", 2) if d => DfUo,
        _ => return None,
    })
}

fn is_pred(f: F) -> bool {
    f as u8 >= F::Eq as u8
}

fn wide(f: F) -> bool {
    use F::*;
    matches!(f, MovD | Comb | AddD | AddC | SubD | SubC | NegD | AbsD | AndD | OrD | XorD | NotD | AslD | AsrD | LsrD | LslD | Vlslw | Vlsrw | Vmux | ExtuD | ExtD | ExtuP | ExtP | InsD | Mpyu | Mpy | Vabsdiffh | D2df | Ud2df | Sf2df)
}

enum Ref {
    Name(String),
    Local(u32, bool),
}

struct Build {
    p: Prog,
    /// (packet, instruction, reference)
    fix: Vec<(usize, usize, Ref)>,
    local: Vec<(u32, usize)>,
}

impl Build {
    fn target(&mut self, at: (usize, usize), s: &str) {
        let s = s.trim();
        let b = s.as_bytes();
        let r = match b.last() {
            Some(b'f' | b'b') if b[..b.len() - 1].iter().all(|c| c.is_ascii_digit()) && b.len() > 1 => Ref::Local(s[..s.len() - 1].parse().unwrap(), b[b.len() - 1] == b'f'),
            _ => Ref::Name(s.trim_end_matches("@PLT").to_string()),
        };
        self.fix.push((at.0, at.1, r));
    }

    fn instr(&mut self, raw: &str, at: (usize, usize)) -> Result<Ins, String> {
        let raw = raw.trim();
        let low = raw.to_ascii_lowercase();
        let mut s = low.as_str();
        let mut t = raw;
        let mut cond = None;
        let mut newcmp = None;
        if let Some(x) = s.strip_prefix("if").filter(|x| x.trim_start().starts_with('(')) {
            let (_, a, rest) = call(x).ok_or("condition")?;
            // the condition is one argument, possibly with commas of an inner call
            let inner = a.join(",");
            let inner = inner.trim();
            let (neg, c) = match inner.strip_prefix('!') {
                Some(c) => (true, c.trim()),
                None => (false, inner),
            };
            if c.starts_with('p') {
                let (c, new) = match c.strip_suffix(".new") {
                    Some(c) => (c, true),
                    None => (c, false),
                };
                let Some(P(p)) = reg(c) else { return Err(format!("condition {inner}")) };
                cond = Some(Cond { p, neg, new });
            } else {
                let (n, a, m) = call(c).ok_or("condition")?;
                let a: Vec<A> = a.iter().map(|x| operand(x)).collect::<Result<_, _>>()?;
                let f = func(n, &a, m).filter(|f| matches!(f, F::Eq | F::Gt | F::Gtu)).ok_or_else(|| format!("condition {inner}"))?;
                newcmp = Some((f, neg, a[0], a[1]));
            }
            t = raw[raw.len() - rest.len()..].trim();
            s = rest;
        }
        let word = |w: &str| s == w || s.starts_with(&format!("{w} ")) || s.starts_with(&format!("{w}:"));
        let o = if word("jumpr") {
            let r = s.split_whitespace().last().unwrap();
            let Some(R(r)) = reg(r) else { return Err(format!("jumpr {r}")) };
            O::JumpR(r)
        } else if word("jump") {
            let to = t.split_whitespace().last().unwrap().to_string();
            self.target(at, &to);
            match newcmp.take() {
                Some((f, neg, a, b)) => O::NewJump { f, neg, a, b, to: 0 },
                None => O::Jump(0),
            }
        } else if word("dealloc_return") {
            O::DeallocRet
        } else if s == "deallocframe" {
            O::Dealloc
        } else if s == "nop" {
            O::Nop
        } else if s.starts_with("l2fetch") || s.starts_with("dcfetch") {
            O::Nop
        } else if s.starts_with("allocframe") {
            let (_, a, _) = call(s).ok_or("allocframe")?;
            let I(n) = operand(a[0])? else { return Err("allocframe".into()) };
            O::Alloc(n as u32)
        } else if s.starts_with("loop0") || s.starts_with("loop1") {
            let (_, a, _) = call(t).ok_or("loop")?;
            let to = a[0].to_string();
            let n = operand(&a[1].to_ascii_lowercase())?;
            self.target(at, &to);
            O::Loop(s.as_bytes()[4] - b'0', 0, n)
        } else if s.starts_with("memw") || s.starts_with("memd") {
            let w = s.as_bytes()[3];
            let (_, a, rest) = call(s).ok_or("store")?;
            let (base, off, post) = address(a[0])?;
            let src = operand(rest.strip_prefix('=').ok_or("store")?)?;
            if (w == b'd') != matches!(src, D(_)) {
                return Err("store width".into());
            }
            O::Store { src, base, off, post }
        } else {
            self.assign(s)?
        };
        if newcmp.is_some() {
            return Err(format!("{raw}: compare condition"));
        }
        Ok(Ins { cond, o })
    }

    fn assign(&mut self, s: &str) -> Result<O, String> {
        let err = || format!("instruction {s}");
        let e = s.find('=').ok_or_else(err)?;
        let (mut l, r) = (s[..e].trim(), s[e + 1..].trim());
        let mut acc = b'=';
        if let Some(c) = l.bytes().last().filter(|c| b"+-|&^".contains(c)) {
            acc = c;
            l = l[..l.len() - 1].trim();
        }
        if let Some((a, p)) = l.split_once(',') {
            let (Some(R(a)), Some(P(p))) = (reg(a), reg(p)) else { return Err(err()) };
            let (n, x, m) = call(r).ok_or_else(err)?;
            let x: Vec<A> = x.iter().map(|x| operand(x)).collect::<Result<_, _>>()?;
            let f = func(n, &x, m).filter(|f| matches!(f, F::Recipa | F::Invsqrta)).ok_or_else(err)?;
            return Ok(O::Set { dst: R(a), acc, f, neg: false, a: [x[0], *x.get(1).unwrap_or(&No), P(p)] });
        }
        if l == "usr" {
            let Some(R(r)) = reg(r) else { return Err(err()) };
            return Ok(O::UsrSet(r));
        }
        if let Some((a, h)) = l.split_once('.') {
            let (Some(R(a)), I(v)) = (reg(a), operand(r)?) else { return Err(err()) };
            return Ok(O::Half { r: a, hi: h.trim() == "h", v: v as u32 & 0xffff });
        }
        let dst = reg(l).ok_or_else(err)?;
        if r == "usr" {
            return Ok(O::Set { dst, acc, f: F::Usr, neg: false, a: [No; 3] });
        }
        let (neg, r) = match r.strip_prefix('!') {
            Some(r) => (true, r.trim()),
            None => (false, r),
        };
        if r.starts_with("memw") || r.starts_with("memd") {
            let (_, a, _) = call(r).ok_or_else(err)?;
            let (base, off, post) = address(a[0])?;
            if (r.as_bytes()[3] == b'd') != matches!(dst, D(_)) {
                return Err(err());
            }
            return Ok(O::Load { dst, base, off, post });
        }
        let mut a = [No; 3];
        let f = if r.starts_with('#') || reg(r).is_some() {
            a[0] = operand(r)?;
            match (dst, a[0]) {
                (R(_), R(_) | I(_)) => F::Mov,
                (D(_), D(_) | I(_)) => F::MovD,
                (P(_), P(_)) => F::PMov,
                _ => return Err(err()),
            }
        } else {
            let (n, x, m) = call(r).ok_or_else(err)?;
            if n == "add" && x[0].trim().starts_with("clb") {
                let (_, y, _) = call(x[0].trim()).ok_or_else(err)?;
                a[0] = operand(y[0])?;
                a[1] = operand(x[1])?;
                if !matches!(a[0], D(_)) {
                    return Err(err());
                }
                F::AddClbD
            } else {
                let x: Vec<A> = x.iter().map(|x| operand(x)).collect::<Result<_, _>>()?;
                for (i, v) in x.iter().enumerate() {
                    a[i] = *v;
                }
                func(n, &x, m).ok_or_else(err)?
            }
        };
        let ok = match dst {
            P(_) => is_pred(f) && acc == b'=',
            D(_) => wide(f) && !is_pred(f) && !neg,
            R(_) => !wide(f) && !is_pred(f) && !neg,
            _ => false,
        };
        if !ok || (matches!(f, F::SfLib | F::SfScale) && !matches!(acc, b'+' | b'-')) {
            return Err(err());
        }
        Ok(O::Set { dst, acc, f, neg, a })
    }
}

/// Removes comments.
fn strip(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(b) = rest.find("/*") {
        out.push_str(&rest[..b]);
        out.push(' ');
        match rest[b + 2..].find("*/") {
            Some(e) => rest = &rest[b + 2 + e + 2..],
            None => rest = "",
        }
    }
    out.push_str(rest);
    let lines: Vec<&str> = out
        .lines()
        .map(|l| {
            let l = l.split("//").next().unwrap();
            if l.trim_start().starts_with('#') { "" } else { l }
        })
        .collect();
    lines.join("\n")
}

impl Prog {
    pub fn parse(text: &str) -> Result<Prog, String> {
        let text = strip(text);
        let mut b = Build { p: Prog::default(), fix: vec![], local: vec![] };
        let mut open: Option<Pk> = None;
        let mut closed_at: Option<usize> = None;
        let mut in_macro = false;
        for line in text.lines() {
            let l = line.trim();
            if l.starts_with(".macro") {
                in_macro = true;
            }
            if in_macro {
                in_macro = l != ".endm";
                continue;
            }
            let mut rest = l;
            while !rest.is_empty() {
                rest = rest.trim_start_matches([' ', '\t', ';']);
                if rest.is_empty() {
                    break;
                }
                if let Some(r) = rest.strip_prefix('{') {
                    if open.is_some() {
                        return Err(format!("nested packet: {l}"));
                    }
                    open = Some(Pk::default());
                    closed_at = None;
                    rest = r;
                    continue;
                }
                if let Some(r) = rest.strip_prefix('}') {
                    let p = open.take().ok_or_else(|| format!("unmatched brace: {l}"))?;
                    b.p.pk.push(p);
                    closed_at = Some(b.p.pk.len() - 1);
                    rest = r;
                    continue;
                }
                if rest.starts_with(":endloop") {
                    let at = closed_at.ok_or("endloop")?;
                    let k = rest.as_bytes().get(8).copied().ok_or("endloop")?;
                    if k == b'0' {
                        b.p.pk[at].end0 = true;
                    } else {
                        b.p.pk[at].end1 = true;
                    }
                    rest = rest[9..].trim_start();
                    continue;
                }
                let e = rest.find([';', '}', '{']).unwrap_or(rest.len());
                let mut st = rest[..e].trim();
                rest = &rest[e..];
                closed_at = None;
                // labels
                let n = b.p.pk.len();
                if let Some(c) = st.find(':') {
                    let name = &st[..c];
                    let tail = &st[c + 1..];
                    let word = name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$');
                    if word && (tail.is_empty() || tail.starts_with([' ', '\t'])) {
                        if open.is_some() {
                            return Err(format!("label in packet: {l}"));
                        }
                        match name.parse::<u32>() {
                            Ok(k) => b.local.push((k, n)),
                            Err(_) => {
                                if b.p.labels.insert(name.to_string(), n).is_some() {
                                    return Err(format!("label {name} twice"));
                                }
                            }
                        }
                        st = tail.trim();
                    }
                }
                if st.is_empty() {
                    continue;
                }
                if st.starts_with('.') {
                    if let Some(x) = st.strip_prefix(".set") {
                        let (a, c) = x.split_once(',').ok_or("set")?;
                        b.p.alias.push((a.trim().into(), c.trim().into()));
                    }
                    if let Some(x) = st.strip_prefix(".global ").or(st.strip_prefix(".globl ")) {
                        b.p.globals.insert(x.trim().into());
                    }
                    continue;
                }
                let mut w = st.split_whitespace();
                match w.next().unwrap() {
                    "FUNCTION_BEGIN" | "ABI2_FUNCTION_BEGIN" => {
                        let name = w.next().ok_or("function name")?;
                        b.p.globals.insert(name.into());
                        if b.p.labels.insert(name.into(), n).is_some() {
                            return Err(format!("label {name} twice"));
                        }
                        continue;
                    }
                    "FALLTHROUGH_TAIL_CALL" => {
                        let name = w.nth(1).ok_or("function name")?;
                        b.p.globals.insert(name.into());
                        if b.p.labels.insert(name.into(), n).is_some() {
                            return Err(format!("label {name} twice"));
                        }
                        continue;
                    }
                    "FUNCTION_END" | "ABI2_FUNCTION_END" => continue,
                    _ => {}
                }
                let at = (n, open.as_ref().map_or(0, |p| p.ins.len()));
                let i = b.instr(st, at).unwrap_or_else(|e| {
                    b.p.bad.push(format!("{e}: {st}"));
                    Ins { cond: None, o: O::Bad(b.p.bad.len() as u16 - 1) }
                });
                match &mut open {
                    Some(p) => p.ins.push(i),
                    None => b.p.pk.push(Pk { ins: vec![i], ..Pk::default() }),
                }
            }
        }
        if open.is_some() {
            return Err("open packet".into());
        }
        for (a, c) in b.p.alias.clone() {
            let at = *b.p.labels.get(&c).ok_or_else(|| format!("unknown name {c}"))?;
            b.p.labels.insert(a, at);
        }
        for (pk, i, r) in &b.fix {
            let to = match r {
                Ref::Name(n) => b.p.labels.get(n).copied(),
                Ref::Local(k, true) => b.local.iter().find(|x| x.0 == *k && x.1 > *pk).map(|x| x.1),
                Ref::Local(k, false) => b.local.iter().rev().find(|x| x.0 == *k && x.1 <= *pk).map(|x| x.1),
            };
            let ins = &mut b.p.pk[*pk].ins[*i];
            match (to, &mut ins.o) {
                (_, O::Bad(_)) => {}
                (Some(x), O::Jump(t) | O::NewJump { to: t, .. } | O::Loop(_, t, _)) => *t = x,
                (None, o @ O::Jump(_)) => {
                    let Ref::Name(n) = r else { return Err("local label".into()) };
                    b.p.ext.push(n.clone());
                    *o = O::Ext(b.p.ext.len() as u16 - 1);
                }
                _ => return Err("unresolved label".into()),
            }
        }
        Ok(b.p)
    }

    pub fn entry(&self, name: &str) -> Option<usize> {
        self.labels.get(name).copied()
    }

    pub fn is_global(&self, name: &str) -> bool {
        self.globals.contains(name)
    }

    /// Instructions the interpreter does not know.
    pub fn unsupported(&self) -> &[String] {
        &self.bad
    }

    pub fn names(&self) -> Vec<&str> {
        let mut v: Vec<&str> = self.labels.keys().map(|s| s.as_str()).filter(|s| !s.starts_with('.')).collect();
        v.sort();
        v
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Exit {
    Ret(u32),
    Ext(String),
}

pub struct Hx {
    pub r: [u32; 32],
    pub p: [u8; 4],
    pub usr: u32,
    pub lc: [u32; 2],
    sa: [usize; 2],
    pub base: u32,
    pub mem: Vec<u8>,
    pub steps: u64,
    /// lowest and highest address read
    pub seen: (u32, u32),
}

fn recip_common(n: f32, d: f32) -> (f32, f32, Option<f32>, u8) {
    let nan = f32::from_bits(!0);
    if n.is_nan() || d.is_nan() || (n.is_infinite() && d.is_infinite()) || (n == 0.0 && d == 0.0) {
        return (nan, nan, Some(nan), 0);
    }
    let sign = (n.to_bits() ^ d.to_bits()) & 0x8000_0000;
    if d == 0.0 || n.is_infinite() {
        return (f32::from_bits(0x7f80_0000 | sign), 1.0, Some(1.0), 0);
    }
    if d.is_infinite() || n == 0.0 {
        return (f32::from_bits(sign), 1.0, Some(1.0), 0);
    }
    let exp = |x: f32| ((x.to_bits() >> 23 & 0xff) as i32).max(1);
    let sc = |x: f32, k: i32| (x as f64 * 2f64.powi(k)) as f32;
    let (ne, de) = (exp(n), exp(d));
    let (n, d, p) = if ne - de + 127 <= 23 {
        (sc(n, 64), sc(d, -64), 0x80)
    } else if ne - de + 127 > 254 - 24 {
        (sc(n, -32), sc(d, 32), 0x40)
    } else if ne <= 23 + 2 {
        (sc(n, 64), sc(d, 64), 0)
    } else if de <= 1 {
        (sc(n, 32), sc(d, 32), 0)
    } else if de > 252 {
        (sc(n, -32), sc(d, -32), 0)
    } else {
        (n, d, 0)
    };
    (n, d, None, p)
}

fn invsqrt_common(x: f32) -> (f32, Option<f32>, u8) {
    let nan = f32::from_bits(!0);
    if x.is_nan() || x < 0.0 {
        return (nan, Some(nan), 0);
    }
    if x.is_infinite() {
        return (f32::NEG_INFINITY, Some(f32::NEG_INFINITY), 0);
    }
    if x == 0.0 {
        return (x, Some(1.0), 0);
    }
    if x.to_bits() >> 23 <= 24 { ((x as f64 * 2f64.powi(64)) as f32, None, 0xe0) } else { (x, None, 0) }
}

/// Seed of the reciprocal: eight bits of the quotient at the middle of the interval of the divisor, in the last
/// interval at its end (the all-ones divisor is the hard case of the iteration and gets the exact start).
fn recipa(d: f32) -> f32 {
    let b = d.to_bits();
    let i = b >> 16 & 0x7f;
    let t = ((2.0 / (1.0 + (i as f64 + 0.5) / 128.0) - 1.0) * 256.0).round() as u32;
    let t = if i == 127 { 0 } else { t };
    let e = 253i32.wrapping_sub((b >> 23 & 0xff) as i32) as u32 & 0xff;
    f32::from_bits(b & 0x8000_0000 | e << 23 | t << 15 | 1)
}

/// Seed of the reciprocal square root.
fn invsqrta(x: f32) -> f32 {
    let b = x.to_bits();
    let i = b >> 17 & 0x7f;
    let m = if i < 64 { 2.0 * (1.0 + (i as f64 + 0.5) / 64.0) } else { 1.0 + (i as f64 - 63.5) / 64.0 };
    let t = ((2.0 / m.sqrt() - 1.0) * 256.0).round().clamp(0.0, 255.0) as u32;
    let e = (127 - (((b >> 23 & 0xff) as i32 - 127) >> 1) - 1) as u32 & 0xff;
    f32::from_bits(e << 23 | t << 15)
}

fn sf_lib(x: u32, s: u32, t: u32, neg: bool) -> u32 {
    let (xf, sf, tf) = (f32::from_bits(x), f32::from_bits(s ^ if neg { 0x8000_0000 } else { 0 }), f32::from_bits(t));
    if xf.is_nan() || sf.is_nan() || tf.is_nan() {
        return !0;
    }
    let inf = xf.is_infinite() || sf.is_infinite() || tf.is_infinite();
    if xf.is_infinite() && (sf.is_infinite() || tf.is_infinite()) && sf != 0.0 && tf != 0.0 && (x ^ sf.to_bits() ^ t) >> 31 != 0 {
        return 0;
    }
    if xf == 0.0 && (sf == 0.0 || tf == 0.0) && !inf {
        return x;
    }
    let r = sf.mul_add(tf, xf);
    if r.is_nan() {
        return !0;
    }
    if r.is_infinite() && !inf { r.to_bits() - 1 } else { r.to_bits() }
}

fn sf_scale(x: u32, s: u32, t: u32, k: i32, neg: bool) -> u32 {
    let (xf, sf, tf) = (f32::from_bits(x), f32::from_bits(s ^ if neg { 0x8000_0000 } else { 0 }), f32::from_bits(t));
    if xf.is_nan() || sf.is_nan() || tf.is_nan() {
        return !0;
    }
    let inf = xf.is_infinite() || sf.is_infinite() || tf.is_infinite();
    if inf {
        let r = sf * tf + xf;
        return if r.is_nan() { !0 } else { r.to_bits() };
    }
    if xf == 0.0 && (sf == 0.0 || tf == 0.0) {
        return x;
    }
    // the sum rounded to odd, scaled, then rounded once
    let (a, b) = (sf as f64 * tf as f64, xf as f64);
    let h = a + b;
    let bb = h - a;
    let l = (a - (h - bb)) + (b - bb);
    let mut h = h;
    if l != 0.0 && h.to_bits() & 1 == 0 {
        h = f64::from_bits(if (l > 0.0) == (h > 0.0) { h.to_bits() + 1 } else { h.to_bits() - 1 });
    }
    ((h * 2f64.powi(k)) as f32).to_bits()
}

fn class64(b: u64) -> u32 {
    let (e, m) = (b >> 52 & 0x7ff, b << 12);
    match (e, m) {
        (0, 0) => 1,
        (0, _) => 4,
        (0x7ff, 0) => 8,
        (0x7ff, _) => 16,
        _ => 2,
    }
}

fn class32(b: u32) -> u32 {
    let (e, m) = (b >> 23 & 0xff, b << 9);
    match (e, m) {
        (0, 0) => 1,
        (0, _) => 4,
        (0xff, 0) => 8,
        (0xff, _) => 16,
        _ => 2,
    }
}

fn sxt7(x: u64) -> i32 {
    ((x as i32) << 25) >> 25
}

fn shl_u(x: u64, n: i32) -> u64 {
    if n >= 64 { 0 } else if n >= 0 { x << n } else { shr_u(x, -n) }
}
fn shr_u(x: u64, n: i32) -> u64 {
    if n >= 64 { 0 } else if n >= 0 { x >> n } else { shl_u(x, -n) }
}
fn shr_s(x: i64, n: i32) -> i64 {
    if n >= 64 { x >> 63 } else if n >= 0 { x >> n } else { shl_u(x as u64, -n) as i64 }
}
fn shl_s(x: i64, n: i32) -> i64 {
    if n >= 0 { shl_u(x as u64, n) as i64 } else { shr_s(x, -n) }
}
fn mask(n: u64) -> u64 {
    if n >= 64 { !0 } else { (1 << n) - 1 }
}

impl Hx {
    pub fn new(base: u32, len: usize) -> Hx {
        Hx { r: [0; 32], p: [0; 4], usr: 0, lc: [0; 2], sa: [0; 2], base, mem: vec![0; len], steps: 0, seen: (!0, 0) }
    }

    pub fn d(&self, l: usize) -> u64 {
        (self.r[l + 1] as u64) << 32 | self.r[l] as u64
    }

    pub fn set_d(&mut self, l: usize, v: u64) {
        self.r[l] = v as u32;
        self.r[l + 1] = (v >> 32) as u32;
    }

    pub fn load(&self, a: u32, n: usize) -> Result<u64, String> {
        let o = a.wrapping_sub(self.base) as usize;
        if a as usize % n != 0 {
            return Err(format!("misaligned {n}-byte load at {a:#x}"));
        }
        let b = self.mem.get(o..o + n).ok_or_else(|| format!("load outside of memory at {a:#x}"))?;
        Ok(b.iter().rev().fold(0, |v, x| v << 8 | *x as u64))
    }

    pub fn store(&mut self, a: u32, n: usize, v: u64) -> Result<(), String> {
        let o = a.wrapping_sub(self.base) as usize;
        if a as usize % n != 0 {
            return Err(format!("misaligned {n}-byte store at {a:#x}"));
        }
        let b = self.mem.get_mut(o..o + n).ok_or_else(|| format!("store outside of memory at {a:#x}"))?;
        b.copy_from_slice(&v.to_le_bytes()[..n]);
        Ok(())
    }

    fn v(&self, a: A) -> u64 {
        match a {
            R(r) => self.r[r as usize] as u64,
            D(r) => self.d(r as usize),
            P(p) => self.p[p as usize] as u64,
            I(i) => i as u64,
            New(_) | No => 0,
        }
    }

    /// Shift amount: immediates as they are, registers as seven signed bits.
    fn sh(&self, a: A) -> i32 {
        match a {
            I(i) => i as i32,
            a => sxt7(self.v(a)),
        }
    }

    fn pred(&self, f: F, a: [A; 3], neg: bool) -> u8 {
        use F::*;
        let (x, y) = (self.v(a[0]), self.v(a[1]));
        let (xi, yi) = (x as i32, y as i32);
        let (xd, yd) = (f64::from_bits(x), f64::from_bits(y));
        let r = match f {
            Eq => x as u32 == y as u32,
            Gt => xi > yi,
            Gtu => x as u32 > y as u32,
            Ge => xi >= yi,
            EqD => x == y,
            GtD => x as i64 > y as i64,
            GtuD => x > y,
            PMov => return x as u8 ^ if neg { 0xff } else { 0 },
            PXor => return (x ^ y) as u8,
            PAnd => return (x & y) as u8,
            POr => return (x | y) as u8,
            PNot => return !x as u8,
            Tst => x >> (y & 31) & 1 != 0,
            Clr => x as u32 & y as u32 == 0,
            Set => x as u32 & y as u32 == y as u32,
            DfClass => class64(x) & y as u32 != 0,
            SfClass => class32(x as u32) & y as u32 != 0,
            DfEq => xd == yd,
            DfGt => xd > yd,
            DfGe => xd >= yd,
            DfUo => xd.is_nan() || yd.is_nan(),
            _ => false,
        };
        if r != neg { 0xff } else { 0 }
    }

    fn calc(&self, f: F, acc: u8, dst: A, a: [A; 3], neg: bool) -> u64 {
        use F::*;
        let (x, y) = (self.v(a[0]), self.v(a[1]));
        let (xw, yw) = (x as u32, y as u32);
        let (xi, yi) = (x as i32, y as i32);
        let _ = neg;
        let v = match f {
            Mov | MovD => x,
            Comb => (xw as u64) << 32 | yw as u64,
            Add | AddD => x.wrapping_add(y),
            Sub | SubD => x.wrapping_sub(y),
            AddC => x.wrapping_add(y).wrapping_add(self.v(a[2]) & 1),
            SubC => x.wrapping_add(!y).wrapping_add(self.v(a[2]) & 1),
            SubSat => xi.saturating_sub(yi) as u64,
            Neg => 0u32.wrapping_sub(xw) as u64,
            NegD => 0u64.wrapping_sub(x),
            Abs => xi.wrapping_abs() as u64,
            AbsD => (x as i64).wrapping_abs() as u64,
            AbsSat => xi.saturating_abs() as u64,
            Min => xi.min(yi) as u64,
            Minu => xw.min(yw) as u64,
            Max => xi.max(yi) as u64,
            Maxu => xw.max(yw) as u64,
            And | AndD => x & y,
            Or | OrD => x | y,
            Xor | XorD => x ^ y,
            Not | NotD => !x,
            Asl => shl_s(xi as i64, self.sh(a[1])) as u64,
            Asr => shr_s(xi as i64, self.sh(a[1])) as u64,
            Lsr => shr_u(xw as u64, self.sh(a[1])),
            Lsl => shl_u(xw as u64, self.sh(a[1])),
            AslD => shl_s(x as i64, self.sh(a[1])) as u64,
            AsrD => shr_s(x as i64, self.sh(a[1])) as u64,
            LsrD => shr_u(x, self.sh(a[1])),
            LslD => shl_u(x, self.sh(a[1])),
            Vlslw | Vlsrw => {
                let n = self.sh(a[1]);
                let s = |w: u64| if f == Vlslw { shl_u(w, n) } else { shr_u(w, n) } & 0xffff_ffff;
                s(x >> 32) << 32 | s(x & 0xffff_ffff)
            }
            Vmux => {
                let mut m = 0u64;
                for i in 0..8 {
                    if x >> i & 1 != 0 {
                        m |= 0xff << (8 * i);
                    }
                }
                y & m | self.v(a[2]) & !m
            }
            Mux => if x & 1 != 0 { y } else { self.v(a[2]) },
            Cl0 => xw.leading_zeros() as u64,
            Cl0D => x.leading_zeros() as u64,
            Clb => xw.leading_zeros().max((!xw).leading_zeros()) as u64,
            ClbD => x.leading_zeros().max((!x).leading_zeros()) as u64,
            AddClbD => (x.leading_zeros().max((!x).leading_zeros()) as u64).wrapping_add(y),
            Extu => (xw as u64 >> self.v(a[2])) & mask(y),
            ExtuD => (x >> self.v(a[2])) & mask(y),
            Ext | ExtD => {
                let x = if f == Ext { xw as u64 } else { x };
                let t = (x >> self.v(a[2])) & mask(y);
                shr_s((t << (64 - y)) as i64, 64 - y as i32) as u64
            }
            ExtuP | ExtP => {
                let (w, o) = (y >> 32 & 63, sxt7(y));
                let t = shr_u(x, o) & mask(w);
                if f == ExtuP || w == 0 { t } else { shr_s((t << (64 - w)) as i64, 64 - w as i32) as u64 }
            }
            Ins | InsD => {
                let o = self.v(a[2]);
                let old = self.v(dst);
                let m = mask(y) << o;
                old & !m | (x << o) & m
            }
            Setbit => x | 1 << (y & 31),
            Clrbit => x & !(1 << (y & 31)),
            Toggle => x ^ 1 << (y & 31),
            Mpyu => xw as u64 * yw as u64,
            Mpy => (xi as i64).wrapping_mul(yi as i64) as u64,
            Sxth => xw as u16 as i16 as u64,
            Zxth => xw as u16 as u64,
            Vabsdiffh => (0..4).fold(0, |v, i| {
                let (p, q) = ((x >> (16 * i)) as i16 as i32, (y >> (16 * i)) as i16 as i32);
                v | ((p - q).unsigned_abs() as u16 as u64) << (16 * i)
            }),
            D2df => (x as i64 as f64).to_bits(),
            Ud2df => (x as f64).to_bits(),
            Df2sf => {
                let r = f64::from_bits(x) as f32;
                if r.is_nan() { !0 } else { r.to_bits() as u64 }
            }
            Sf2df => {
                let r = f32::from_bits(xw) as f64;
                if r.is_nan() { !0 } else { r.to_bits() }
            }
            SfLib => return sf_lib(self.v(dst) as u32, xw, yw, acc == b'-') as u64,
            SfScale => return sf_scale(self.v(dst) as u32, xw, yw, self.v(a[2]) as u8 as i8 as i32, acc == b'-') as u64,
            Fixupn => recip_common(f32::from_bits(xw), f32::from_bits(yw)).0.to_bits() as u64,
            Fixupd => recip_common(f32::from_bits(xw), f32::from_bits(yw)).1.to_bits() as u64,
            Fixupr => invsqrt_common(f32::from_bits(xw)).0.to_bits() as u64,
            Recipa => {
                let (_, d, r, _) = recip_common(f32::from_bits(xw), f32::from_bits(yw));
                r.unwrap_or_else(|| recipa(d)).to_bits() as u64
            }
            Invsqrta => {
                let (d, r, _) = invsqrt_common(f32::from_bits(xw));
                r.unwrap_or_else(|| invsqrta(d)).to_bits() as u64
            }
            Usr => self.usr as u64,
            _ => 0,
        };
        let old = self.v(dst);
        match acc {
            b'+' => old.wrapping_add(v),
            b'-' => old.wrapping_sub(v),
            b'|' => old | v,
            b'&' => old & v,
            b'^' => old ^ v,
            _ => v,
        }
    }

    /// Runs from packet `at` until control leaves the program.
    pub fn run(&mut self, prog: &Prog, at: usize, limit: u64) -> Result<Exit, String> {
        let mut pc = at;
        let mut left = limit;
        loop {
            if left == 0 {
                return Err("runs on".into());
            }
            left -= 1;
            self.steps += 1;
            let pk = prog.pk.get(pc).ok_or("runs off the end")?;
            // predicates first
            let mut np = self.p;
            let mut wrote = [false; 4];
            let mut put = |p: u8, v: u8| {
                let p = p as usize;
                np[p] = if wrote[p] { np[p] & v } else { v };
                wrote[p] = true;
            };
            for i in &pk.ins {
                if let O::Set { dst, f, neg, a, .. } = &i.o {
                    match (*dst, *f) {
                        (P(p), _) => put(p, self.pred(*f, *a, *neg)),
                        (_, F::AddC | F::SubC) => {
                            let P(p) = a[2] else { return Err("carry".into()) };
                            let (x, y) = (self.v(a[0]), self.v(a[1]));
                            let y = if *f == F::SubC { !y } else { y };
                            let s = x as u128 + y as u128 + (self.p[p as usize] & 1) as u128;
                            put(p, if s >> 64 != 0 { 0xff } else { 0 });
                        }
                        (_, F::Recipa) => {
                            let P(p) = a[2] else { return Err("recipa".into()) };
                            put(p, recip_common(f32::from_bits(self.v(a[0]) as u32), f32::from_bits(self.v(a[1]) as u32)).3);
                        }
                        (_, F::Invsqrta) => {
                            let P(p) = a[2] else { return Err("invsqrta".into()) };
                            put(p, invsqrt_common(f32::from_bits(self.v(a[0]) as u32)).2);
                        }
                        _ => {}
                    }
                }
            }
            let mut nr = self.r;
            let mut dirty = 0u32;
            let mut usr = self.usr;
            let mut go: Option<Result<usize, u32>> = None;
            let mut ext = None;
            let mut stores: [(u32, u8, u64); 2] = [(0, 0, 0); 2];
            let mut ns = 0;
            let mut late = false;
            macro_rules! wr {
                ($r:expr, $v:expr) => {{
                    let r = $r as usize;
                    if dirty >> r & 1 != 0 {
                        return Err(format!("two writes of r{r} in packet {pc}"));
                    }
                    dirty |= 1 << r;
                    nr[r] = $v;
                }};
            }
            for i in &pk.ins {
                if let Some(c) = i.cond {
                    let p = if c.new { np[c.p as usize] } else { self.p[c.p as usize] };
                    if (p & 1 != 0) == c.neg {
                        continue;
                    }
                }
                match &i.o {
                    O::Set { dst, acc, f, neg, a } => match *dst {
                        P(_) => {}
                        R(r) => wr!(r, self.calc(*f, *acc, *dst, *a, *neg) as u32),
                        D(l) => {
                            let v = self.calc(*f, *acc, *dst, *a, *neg);
                            wr!(l, v as u32);
                            wr!(l + 1, (v >> 32) as u32);
                        }
                        _ => return Err("destination".into()),
                    },
                    O::Half { r, hi, v } => {
                        let o = self.r[*r as usize];
                        wr!(*r, if *hi { o & 0xffff | v << 16 } else { o & 0xffff_0000 | v });
                    }
                    O::Load { dst, base, off, post } => {
                        let ea = self.r[*base as usize].wrapping_add(*off as u32);
                        self.seen = (self.seen.0.min(ea), self.seen.1.max(ea + if matches!(dst, D(_)) { 7 } else { 3 }));
                        match *dst {
                            R(r) => wr!(r, self.load(ea, 4)? as u32),
                            D(l) => {
                                let v = self.load(ea, 8)?;
                                wr!(l, v as u32);
                                wr!(l + 1, (v >> 32) as u32);
                            }
                            _ => return Err("destination".into()),
                        }
                        if *post != 0 {
                            wr!(*base, self.r[*base as usize].wrapping_add(*post as u32));
                        }
                    }
                    O::Store { src, base, off, post } => {
                        if ns == 2 {
                            return Err("three stores".into());
                        }
                        let ea = self.r[*base as usize].wrapping_add(*off as u32);
                        stores[ns] = match *src {
                            New(r) => {
                                late = true;
                                (ea, r | 0x40, 0)
                            }
                            R(r) => (ea, 4, self.r[r as usize] as u64),
                            D(l) => (ea, 8, self.d(l as usize)),
                            _ => return Err("source".into()),
                        };
                        ns += 1;
                        if *post != 0 {
                            wr!(*base, self.r[*base as usize].wrapping_add(*post as u32));
                        }
                    }
                    O::Jump(t) => {
                        go.get_or_insert(Ok(*t));
                    }
                    O::JumpR(r) => {
                        go.get_or_insert(Err(self.r[*r as usize]));
                    }
                    O::NewJump { .. } => late = true,
                    O::Loop(k, t, n) => {
                        self.lc[*k as usize] = self.v(*n) as u32;
                        self.sa[*k as usize] = *t;
                    }
                    O::Alloc(n) => {
                        let ea = self.r[29].wrapping_sub(8);
                        stores[ns] = (ea, 8, self.d(30));
                        ns += 1;
                        wr!(30, ea);
                        wr!(29, ea.wrapping_sub(*n));
                    }
                    O::Dealloc | O::DeallocRet => {
                        let ea = self.r[30];
                        let v = self.load(ea, 8)?;
                        wr!(30, v as u32);
                        wr!(31, (v >> 32) as u32);
                        wr!(29, ea.wrapping_add(8));
                        if matches!(i.o, O::DeallocRet) {
                            go.get_or_insert(Err((v >> 32) as u32));
                        }
                    }
                    O::UsrSet(r) => usr = self.r[*r as usize],
                    O::Ext(n) => ext = Some(*n),
                    O::Bad(n) => return Err(format!("unsupported instruction: {}", prog.bad[*n as usize])),
                    O::Nop => {}
                }
            }
            if late {
                for i in &pk.ins {
                    if let O::NewJump { f, neg, a, b, to } = &i.o {
                        let v = |x: A| match x {
                            New(r) => I(nr[r as usize] as i64),
                            x => x,
                        };
                        if self.pred(*f, [v(*a), v(*b), No], *neg) != 0 {
                            go.get_or_insert(Ok(*to));
                        }
                    }
                }
            }
            for s in &stores[..ns] {
                if s.1 & 0x40 != 0 {
                    self.store(s.0, 4, nr[(s.1 & 0x3f) as usize] as u64)?;
                } else {
                    self.store(s.0, s.1 as usize, s.2)?;
                }
            }
            self.r = nr;
            self.p = np;
            self.usr = usr;
            if let Some(n) = ext {
                if go.is_none() {
                    return Ok(Exit::Ext(prog.ext[n as usize].clone()));
                }
            }
            pc = match go {
                Some(Ok(t)) => t,
                Some(Err(a)) => return Ok(Exit::Ret(a)),
                None => {
                    if pk.end0 && self.lc[0] > 1 {
                        self.lc[0] -= 1;
                        self.sa[0]
                    } else if pk.end1 && self.lc[1] > 1 {
                        self.lc[1] -= 1;
                        self.sa[1]
                    } else {
                        pc + 1
                    }
                }
            };
        }
    }
}
