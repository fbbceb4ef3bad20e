//! The reference language: terms, their arithmetic meaning with an error bound, and their enumeration.
//! Nothing here calls the code under test.

use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum U {
    Ln,
    Exp,
    Sqrt,
    Sin,
    Cos,
    Neg,
    /// 1 / (1 + e^-a), of the tagless layers
    Logistic,
    /// ln(1 + e^a), of the tagless layers
    Softplus,
}
/// The operators of the core language.
pub const US: [U; 6] = [U::Ln, U::Exp, U::Sqrt, U::Sin, U::Cos, U::Neg];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}
pub const BS: [B; 5] = [B::Add, B::Sub, B::Mul, B::Div, B::Pow];

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    C(f64),
    V(u8),
    U(U, Rc<T>),
    B(B, Rc<T>, Rc<T>),
}

/// The names the four variables go by: the first set everywhere, the others where a check says so.
const NAME_SETS: [[&str; 4]; 16] = [
    ["x", "y", "z", "w"],
    // one a prefix of the other, in both orders of the alphabet
    ["x1", "x", "x10", "x2"],
    ["mu", "mu_0", "sigma", "sigma2"],
    ["b", "a", "B", "A"],
    // names that begin like a function
    ["ln_x", "exp1", "sinx", "sqrt2"],
    ["_a", "a_", "a", "__"],
    // from here on: names that are no identifiers
    ["\\nu", "\\theta", "\\rho", "\\\\"],
    ["a b", " ", "", "a"],
    ["f(x)", "x)", "(x", "x"],
    ["\u{3b1}", "\u{3b2}", "\u{e9}", "e\u{301}"],
    ["5", "1.0", "-x", "x+y"],
    ["Const", "Add", "Var", "Expr"],
    ["ln", "exp", "sqrt", "Num"],
    ["inf", "NaN", "true", "let"],
    ["\"", "'", "\"x\"", "\\\""],
    ["{x}", "{}", "%s", "$x"],
];
/// How many of the sets are made of identifiers.
pub const IDENTIFIERS: usize = 6;
pub const SETS: usize = NAME_SETS.len();

static SET: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn var_names() -> &'static [&'static str; 4] {
    &NAME_SETS[SET.load(std::sync::atomic::Ordering::Relaxed)]
}

/// Call `f` once for each of the name sets in the range, with that set in force (no worker runs meanwhile
/// but those `f` starts).
pub fn renamed(sets: std::ops::Range<usize>, mut f: impl FnMut()) {
    for i in sets {
        SET.store(i, std::sync::atomic::Ordering::Relaxed);
        f();
    }
    SET.store(0, std::sync::atomic::Ordering::Relaxed);
}

pub fn c(v: f64) -> Rc<T> {
    Rc::new(T::C(v))
}
pub fn v(i: u8) -> Rc<T> {
    Rc::new(T::V(i))
}
pub fn un(op: U, a: &Rc<T>) -> Rc<T> {
    Rc::new(T::U(op, a.clone()))
}
pub fn bi(op: B, a: &Rc<T>, b: &Rc<T>) -> Rc<T> {
    Rc::new(T::B(op, a.clone(), b.clone()))
}

/// Prefix form, used as the key of a case.
pub fn show(t: &T) -> String {
    match t {
        T::C(x) => format!("{x:?}"),
        T::V(i) => var_names()[*i as usize].to_string(),
        T::U(o, a) => format!("({o:?} {})", show(a)),
        T::B(o, a, b) => format!("({o:?} {} {})", show(a), show(b)),
    }
}

pub fn vars(t: &T, out: &mut [bool; 4]) {
    match t {
        T::C(_) => {}
        T::V(i) => out[*i as usize] = true,
        T::U(_, a) => vars(a, out),
        T::B(_, a, b) => {
            vars(a, out);
            vars(b, out);
        }
    }
}

pub fn var_set(t: &T) -> [bool; 4] {
    let mut o = [false; 4];
    vars(t, &mut o);
    o
}

pub fn size(t: &T) -> usize {
    match t {
        T::C(_) | T::V(_) => 0,
        T::U(_, a) => 1 + size(a),
        T::B(_, a, b) => 1 + size(a) + size(b),
    }
}

/// Why a term has no finite value. The first four are errors of evaluation; the last two are values
/// (infinite or not a number) of floating-point arithmetic.
pub const DIV0: u8 = 1;
pub const LN: u8 = 2;
pub const SQRT: u8 = 4;
pub const UNBOUND: u8 = 8;
pub const POW: u8 = 16;
pub const OVER: u8 = 32;
pub const HARD: u8 = DIV0 | LN | SQRT | UNBOUND;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    /// the real value lies within `e` of `v`, and so does every sane floating-point evaluation (up to a
    /// small factor)
    Val(f64, f64),
    /// no finite value, whatever the rounding
    Undef(u8),
    /// too close to the edge of a domain for floating point to decide
    Unsure,
}

pub const EPS: f64 = 1.2e-16;
const BIG: f64 = 1e290;
const TINY: f64 = 1e-290;

fn val(v: f64, e: f64) -> R {
    if !v.is_finite() {
        return R::Undef(OVER);
    }
    if !(e < 1e300) || v.abs() > BIG || (v != 0.0 && v.abs() < TINY) {
        return R::Unsure;
    }
    R::Val(v, e)
}

fn two_sum_exact(a: f64, b: f64, s: f64) -> bool {
    let bb = s - a;
    (a - (s - bb)) + (b - bb) == 0.0
}

pub fn unary(op: U, a: R) -> R {
    let (a, ea) = match a {
        R::Val(a, e) => (a, e),
        o => return o,
    };
    match op {
        U::Neg => R::Val(-a, ea),
        U::Ln => {
            if a + 2.0 * ea < 0.0 || (ea == 0.0 && a <= 0.0) {
                return R::Undef(LN);
            }
            if a <= 2.0 * ea {
                return R::Unsure;
            }
            let l = a.ln();
            val(l, if ea == 0.0 && a == 1.0 { 0.0 } else { ea / (a - ea) + 2.0 * EPS * l.abs() })
        }
        U::Sqrt => {
            if a + 2.0 * ea < 0.0 {
                return R::Undef(SQRT);
            }
            if ea == 0.0 && a == 0.0 {
                return R::Val(0.0, 0.0);
            }
            if a <= 2.0 * ea {
                return R::Unsure;
            }
            let s = a.sqrt();
            let exact = ea == 0.0 && s.mul_add(s, -a) == 0.0;
            val(s, if exact { 0.0 } else { ea / (a - ea).sqrt() + EPS * s })
        }
        U::Exp => {
            if ea > 0.1 {
                return R::Unsure;
            }
            let x = a.exp();
            if x == 0.0 {
                return R::Unsure;
            }
            val(x, if ea == 0.0 && a == 0.0 { 0.0 } else { x * (1.2 * ea + 2.0 * EPS) })
        }
        U::Logistic => {
            if ea > 0.1 || a.abs() > 650.0 {
                return R::Unsure;
            }
            let s = 1.0 / (1.0 + (-a).exp());
            val(s, s * (1.2 * ea + 8.0 * EPS))
        }
        U::Softplus => {
            if ea > 0.1 || a.abs() > 650.0 {
                return R::Unsure;
            }
            let s = a.max(0.0) + (-a.abs()).exp().ln_1p();
            val(s, 1.2 * ea + 4.0 * EPS * (1.0 + s.abs()))
        }
        U::Sin => val(a.sin(), if ea == 0.0 && a == 0.0 { 0.0 } else { ea + 2.0 * EPS }),
        U::Cos => val(a.cos(), if ea == 0.0 && a == 0.0 { 0.0 } else { ea + 2.0 * EPS }),
    }
}

pub fn binary(op: B, a: R, b: R) -> R {
    let (a, ea, b, eb) = match (a, b) {
        (R::Val(a, ea), R::Val(b, eb)) => (a, ea, b, eb),
        (R::Undef(m), R::Undef(n)) => return R::Undef(m | n),
        (R::Undef(m), R::Val(0.0, 0.0)) if op == B::Div => return R::Undef(m | DIV0),
        (R::Undef(m), _) | (_, R::Undef(m)) => return R::Undef(m),
        _ => return R::Unsure,
    };
    match op {
        B::Add | B::Sub => {
            let b = if op == B::Sub { -b } else { b };
            let s = a + b;
            let r = if two_sum_exact(a, b, s) { 0.0 } else { EPS * s.abs() };
            val(s, ea + eb + r)
        }
        B::Mul => {
            let p = a * b;
            if p == 0.0 && a != 0.0 && b != 0.0 {
                return R::Unsure;
            }
            let r = if a.mul_add(b, -p) == 0.0 { 0.0 } else { EPS * p.abs() };
            val(p, a.abs() * eb + b.abs() * ea + ea * eb + r)
        }
        B::Div => {
            if b == 0.0 && eb == 0.0 {
                return R::Undef(DIV0);
            }
            if b.abs() <= 2.0 * eb {
                return R::Unsure;
            }
            let q = a / b;
            if q == 0.0 && a != 0.0 {
                return R::Unsure;
            }
            let r = if (-q).mul_add(b, a) == 0.0 { 0.0 } else { EPS * q.abs() };
            val(q, (ea + q.abs() * eb) / (b.abs() - eb) + r)
        }
        B::Pow => power(a, ea, b, eb),
    }
}

fn power(a: f64, ea: f64, b: f64, eb: f64) -> R {
    if eb == 0.0 && b.fract() == 0.0 {
        if b == 0.0 {
            return R::Val(1.0, 0.0);
        }
        if a == 0.0 && ea == 0.0 {
            return if b > 0.0 { R::Val(0.0, 0.0) } else { R::Undef(POW) };
        }
        if a.abs() <= 2.0 * ea {
            if b < 0.0 {
                return R::Unsure;
            }
            let p = a.powf(b);
            return val(p, (a.abs() + ea).powf(b) + p.abs());
        }
        if b == 1.0 {
            return R::Val(a, ea);
        }
        let p = a.powf(b);
        if p == 0.0 {
            return R::Unsure;
        }
        if ea == 0.0 && (2.0..=16.0).contains(&b) {
            // exact when every partial product is
            let (mut q, mut ok) = (a, true);
            for _ in 1..b as i32 {
                let n = q * a;
                ok &= q.mul_add(a, -n) == 0.0;
                q = n;
            }
            if ok && q == p {
                return val(p, 0.0);
            }
        }
        if ea == 0.0 && a.abs() == 1.0 {
            return val(p, 0.0);
        }
        let rel = b.abs() * ea / (a.abs() - ea);
        if rel > 0.1 {
            return R::Unsure;
        }
        return val(p, p.abs() * (rel * 1.5 + 4.0 * EPS));
    }
    if a < 0.0 {
        let near = (b - b.round()).abs() <= 2.0 * eb;
        return if a + 2.0 * ea < 0.0 && !near { R::Undef(POW) } else { R::Unsure };
    }
    if a == 0.0 && ea == 0.0 {
        return if b - 2.0 * eb > 0.0 {
            R::Val(0.0, 0.0)
        } else if b + 2.0 * eb < 0.0 {
            R::Undef(POW)
        } else {
            R::Unsure
        };
    }
    if a <= 2.0 * ea {
        return R::Unsure;
    }
    let p = a.powf(b);
    if p == 0.0 {
        return R::Unsure;
    }
    let rel = b.abs() * ea / (a - ea) + a.ln().abs() * eb;
    if rel > 0.1 {
        return R::Unsure;
    }
    if a == 1.0 && ea == 0.0 {
        return R::Val(1.0, 0.0);
    }
    val(p, p * (rel * 1.5 + 4.0 * EPS))
}

pub type Env = [Option<f64>; 4];

pub fn leaf_c(x: f64) -> R {
    if x.is_finite() { R::Val(x, 0.0) } else { R::Undef(OVER) }
}

pub fn ev(t: &T, env: &Env) -> R {
    match t {
        T::C(x) => leaf_c(*x),
        T::V(i) => match env[*i as usize] {
            Some(x) => R::Val(x, 0.0),
            None => R::Undef(UNBOUND),
        },
        T::U(o, a) => unary(*o, ev(a, env)),
        T::B(o, a, b) => binary(*o, ev(a, env), ev(b, env)),
    }
}

/// Two computations of the same real number agree.
pub enum Agree {
    Yes,
    No,
    /// rounding is too coarse to tell
    Skip,
}

pub fn agree(v0: f64, e0: f64, v1: f64, e1: f64) -> Agree {
    let tol = 4.0 * (e0 + e1);
    if (v0 - v1).abs() <= tol + 1e-300 {
        return Agree::Yes;
    }
    if tol > 1e-6 * v0.abs().max(1.0) && !((v0 - v1).abs() > 1e3 * tol) {
        return Agree::Skip;
    }
    Agree::No
}

/// The largest magnitude among the values of all subterms: the scale of the rounding of any reordering.
pub fn scale(t: &T, env: &Env) -> f64 {
    let own = match ev(t, env) {
        R::Val(v, _) => v.abs(),
        _ => 0.0,
    };
    match t {
        T::C(_) | T::V(_) => own,
        T::U(_, a) => own.max(scale(a, env)),
        T::B(_, a, b) => own.max(scale(a, env)).max(scale(b, env)),
    }
}

/// Does some subterm satisfy `f`?
pub fn uses(t: &T, f: &impl Fn(&T) -> bool) -> bool {
    f(t) || match t {
        T::C(_) | T::V(_) => false,
        T::U(_, a) => uses(a, f),
        T::B(_, a, b) => uses(a, f) || uses(b, f),
    }
}

/// A term with a literal zero factor: evaluation takes it as zero without looking at the other factor.
pub fn zero_factor(t: &T) -> bool {
    match t {
        T::C(_) | T::V(_) => false,
        T::U(_, a) => zero_factor(a),
        T::B(o, a, b) => {
            (*o == B::Mul && (matches!(**a, T::C(0.0)) || matches!(**b, T::C(0.0)))) || zero_factor(a) || zero_factor(b)
        }
    }
}

// ---- enumeration -------------------------------------------------------------------------------------

/// Every term of height at most 1 over the leaves (the leaves included).
pub fn height1(leaves: &[Rc<T>]) -> Vec<Rc<T>> {
    grow(leaves, leaves)
}

/// The leaves, every unary operator on a term of `sub`, every binary operator on two terms of `sub`.
pub fn grow(leaves: &[Rc<T>], sub: &[Rc<T>]) -> Vec<Rc<T>> {
    let mut out = leaves.to_vec();
    for o in US {
        for a in sub {
            out.push(un(o, a));
        }
    }
    for o in BS {
        for a in sub {
            for b in sub {
                out.push(bi(o, a, b));
            }
        }
    }
    out
}

/// Visit every chain: a leaf, then `depth` frames, each a unary operator or a binary operator with a leaf
/// on the left or the right. Visits every intermediate chain as well.
pub fn chains(leaves: &[Rc<T>], depth: usize, f: &mut impl FnMut(&Rc<T>)) {
    fn rec(t: &Rc<T>, leaves: &[Rc<T>], left: usize, f: &mut impl FnMut(&Rc<T>)) {
        f(t);
        if left == 0 {
            return;
        }
        for o in US {
            rec(&un(o, t), leaves, left - 1, f);
        }
        for o in BS {
            for l in leaves {
                rec(&bi(o, t, l), leaves, left - 1, f);
                rec(&bi(o, l, t), leaves, left - 1, f);
            }
        }
    }
    for l in leaves {
        rec(l, leaves, depth, f);
    }
}

/// As `chains`, but only those whose first frame has index `part` of `chain_parts`.
pub fn chain_parts(leaves: usize) -> usize {
    leaves * (US.len() + 2 * BS.len() * leaves)
}

pub fn chains_part(leaves: &[Rc<T>], depth: usize, part: usize, f: &mut impl FnMut(&Rc<T>)) {
    fn rec(t: &Rc<T>, leaves: &[Rc<T>], left: usize, f: &mut impl FnMut(&Rc<T>)) {
        f(t);
        if left == 0 {
            return;
        }
        for o in US {
            rec(&un(o, t), leaves, left - 1, f);
        }
        for o in BS {
            for l in leaves {
                rec(&bi(o, t, l), leaves, left - 1, f);
                rec(&bi(o, l, t), leaves, left - 1, f);
            }
        }
    }
    let frames = US.len() + 2 * BS.len() * leaves.len();
    let l = &leaves[part / frames];
    let k = part % frames;
    if k == 0 {
        f(l);
    }
    let first = if k < US.len() {
        un(US[k], l)
    } else {
        let k = k - US.len();
        let (side, k) = (k % 2, k / 2);
        let (o, m) = (BS[k / leaves.len()], &leaves[k % leaves.len()]);
        if side == 0 { bi(o, l, m) } else { bi(o, m, l) }
    };
    rec(&first, leaves, depth - 1, f);
}

/// Long terms: every one-frame and two-frame pattern over the leaves, repeated alternately up to each of the
/// lengths; and every balanced term of five levels with one operator per level, over three rows of leaves.
pub fn long_terms(leaves: &[Rc<T>], lengths: &[usize], levels: usize) -> Vec<Rc<T>> {
    type Frame = Box<dyn Fn(&Rc<T>) -> Rc<T>>;
    let mut frames: Vec<Frame> = US.iter().map(|o| -> Frame { Box::new(move |t| un(*o, t)) }).collect();
    for o in BS {
        for l in leaves {
            let (a, b) = (l.clone(), l.clone());
            frames.push(Box::new(move |t| bi(o, t, &a)));
            frames.push(Box::new(move |t| bi(o, &b, t)));
        }
    }
    let mut out = vec![];
    let longest = lengths.iter().copied().max().unwrap_or(0);
    for (i, f) in frames.iter().enumerate() {
        for (j, g) in frames.iter().enumerate() {
            let mut t = v(0);
            for n in 1..=longest {
                t = if n % 2 == 1 { f(&t) } else { g(&t) };
                // the same pattern with the roles exchanged comes by itself one frame later
                if lengths.contains(&n) && (i <= j || n % 2 == 1) {
                    out.push(t.clone());
                }
            }
        }
    }
    let rows: [[Rc<T>; 4]; 3] = [[v(0), v(1), v(0), v(1)], [v(0), c(2.0), v(1), c(-1.0)], [v(0), v(0), v(1), c(0.5)]];
    for row in rows {
        for code in 0..4usize.pow(levels as u32) {
            let mut level: Vec<Rc<T>> = (0..1usize << levels).map(|i| row[i % 4].clone()).collect();
            let mut k = code;
            while level.len() > 1 {
                let o = BS[k % 4];
                k /= 4;
                level = level.chunks(2).map(|p| bi(o, &p[0], &p[1])).collect();
            }
            out.push(level[0].clone());
        }
    }
    out
}

/// Has the term a value under some assignment?
pub fn somewhere(t: &T, envs: &[Env]) -> bool {
    envs.iter().any(|e| matches!(ev(t, e), R::Val(..)))
}
