//! Where a distribution offers native code for its log-density, the code computes the log-density. The
//! library refuses most of them ("not yet implemented"), which is not judged.

use crate::fam::{self, Law, Pt, Size};
use mc::{Check, quiet};
use measures_exponential_family::exponential_family::jit::BayesianJITOptimizer;
use measures_exponential_family::{AutoJITExt, AutoJITOptimizer, AutoJITPattern, AutoJITRegistry, CustomJITOptimizer, JITError, JITFunction, JITOptimizer};
use std::any::{Any, TypeId};
use std::collections::HashMap;
use symbolic_math::expr::SymbolicLogDensity;
use symbolic_math::jit::CustomSymbolicLogDensity;
use symbolic_math::{EvalError, Expr};

fn judge<X: Pt>(ck: &mut Check, route: &str, l: &Law<X>, made: Result<Result<JITFunction, JITError>, String>) {
    ck.state();
    let k = format!("{route}|{}", l.key);
    match made {
        Err(p) => ck.fail(&k, &format!("panicked: {p}")),
        Ok(Err(_)) => ck.outside += 1,
        Ok(Ok(f)) => {
            for x in l.support().iter().chain(l.support().iter().rev()) {
                ck.at(&format!("{k}|x={x:?}"), false);
                ck.expect_alt(&format!("{k}|x={x:?}"), l.at(x), 1e-9, l.tol::<f64>(x), l.form_defect(x), || f.call_single(x.d()));
            }
            ck.trace();
        }
    }
}

fn symbolic<X: Pt>(ck: &mut Check, l: &Law<X>, made: Result<Result<SymbolicLogDensity, JITError>, String>) {
    ck.state();
    let k = format!("auto_symbolic|{}", l.key);
    match made {
        Err(p) => ck.fail(&k, &format!("panicked: {p}")),
        Ok(Err(_)) => ck.outside += 1,
        Ok(Ok(s)) => {
            for x in &l.support() {
                let v: Result<f64, EvalError> = s.evaluate_single("x", x.d());
                ck.require(&format!("{k}|x={x:?}"), v.is_ok_and(|v| (v - l.at(x)).abs() <= 10.0 * l.tol::<f64>(x)), || format!("the symbolic form does not have the value {}", l.at(x)));
            }
        }
    }
}

/// a normal law, written with its parameters by name
#[derive(Clone)]
struct Sym(f64, f64, u8);
fn normal_expr(form: u8) -> Expr {
    let x = || Expr::variable("x");
    let (mu, sigma) = (|| Expr::variable("mu"), || Expr::variable("sigma"));
    let c = Expr::constant;
    let z = Expr::div(Expr::sub(x(), mu()), sigma());
    let q = match form {
        0 => Expr::mul(c(-0.5), Expr::mul(z.clone(), z)),
        1 => Expr::mul(c(-0.5), Expr::pow(z, c(2.0))),
        _ => Expr::neg(Expr::div(Expr::pow(Expr::sub(mu(), x()), c(2.0)), Expr::mul(c(2.0), Expr::pow(sigma(), c(2.0))))),
    };
    Expr::sub(Expr::sub(q, Expr::ln(sigma())), c(0.5 * (2.0 * std::f64::consts::PI).ln()))
}
impl Sym {
    fn parameters(&self) -> HashMap<String, f64> {
        [("mu".to_string(), self.0), ("sigma".to_string(), self.1)].into()
    }
}
impl CustomJITOptimizer<f64, f64> for Sym {
    fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity {
        CustomSymbolicLogDensity::new(normal_expr(self.2), self.parameters())
    }
}

/// A pattern that marks what it was asked for.
struct Mark(f64);
impl AutoJITPattern for Mark {
    fn generate_symbolic(&self, d: &dyn Any) -> Result<SymbolicLogDensity, JITError> {
        let at = d.downcast_ref::<f64>().copied().unwrap_or(f64::NAN);
        Ok(SymbolicLogDensity { expression: Expr::constant(self.0 + at), variables: vec![], parameters: HashMap::new() })
    }
}

/// After any sequence of registrations, a type has the pattern registered for it last.
fn registry(ck: &mut Check) {
    let types = [TypeId::of::<f64>(), TypeId::of::<f32>(), TypeId::of::<Sym>()];
    for n in 0..=(if ck.thorough() { 6 } else { 5 }) {
        for s in mc::sequences(types.len(), n) {
            let mut r = AutoJITRegistry::new();
            let mut last: [Option<f64>; 3] = [None; 3];
            for (i, &t) in s.iter().enumerate() {
                r.register_pattern(types[t], Box::new(Mark(100.0 * (i + 1) as f64)));
                last[t] = Some(100.0 * (i + 1) as f64);
                for (u, want) in last.iter().enumerate() {
                    let got = r.get_pattern(types[u]).map(|p| p.generate_symbolic(&0.25f64).ok().and_then(|s| s.evaluate_single("x", 0.0).ok()));
                    ck.require(&format!("registry|{s:?}|after {i}|type {u}"), got == want.map(|w| Some(w + 0.25)), || format!("{got:?} instead of {want:?}"));
                }
            }
            ck.state();
            ck.trace();
        }
    }
}

pub fn run(ck: &mut Check) {
    let z = if ck.thorough() { Size::Quick } else { Size::Small };
    macro_rules! each {
        ($x:ty: $($e:expr),*) => { $( for (d, l) in $e {
            judge(ck, "compile_jit", &l, quiet(|| JITOptimizer::<$x, f64>::compile_jit(&d)));
        } )* };
    }
    each!(f64: fam::exponential::<f64>(z), fam::gamma::<f64>(z), fam::beta::<f64>(z), fam::chi_squared::<f64>(z));
    each!(u64: fam::binomial::<f64>(z, false), fam::negative_binomial::<f64>(z), fam::geometric::<f64>(z, false));
    each!(u8: fam::bernoulli::<f64>(z, false));
    each!(usize: fam::categorical::<f64>(z, false));
    macro_rules! auto {
        ($($e:expr),*) => { $( for (d, l) in $e {
            judge(ck, "auto_jit", &l, quiet(|| d.auto_jit()));
            judge(ck, "AutoJITOptimizer", &l, quiet(|| AutoJITOptimizer::new().compile_jit(&d)));
            symbolic(ck, &l, quiet(|| d.auto_symbolic()));
            symbolic(ck, &l, quiet(|| AutoJITOptimizer::default().generate_symbolic(&d)));
        } )* };
    }
    auto!(fam::normal::<f64>(z), fam::std_normal::<f64>(z), fam::exponential::<f64>(z), fam::gamma::<f64>(z), fam::beta::<f64>(z), fam::chi_squared::<f64>(z), fam::cauchy::<f64>(z), fam::student_t::<f64>(z));
    auto!(fam::binomial::<f64>(z, false), fam::negative_binomial::<f64>(z), fam::geometric::<f64>(z, false), fam::bernoulli::<f64>(z, false), fam::poisson::<f64>(z), fam::categorical::<f64>(z, false));
    for (d, l) in fam::normal::<f64>(z) {
        for form in 0..3 {
            let made = quiet(|| Sym(d.mean, d.std_dev, form).compile_custom_jit());
            ck.require(&format!("compile_custom_jit|{}|form {form}", l.key), matches!(made, Ok(Ok(_))), || "does not compile".into());
            judge(ck, &format!("compile_custom_jit|form {form}"), &l, made);
        }
    }
    registry(ck);
    let _ = |m: &dyn BayesianJITOptimizer| m.compile_prior_jit().is_ok();
}
