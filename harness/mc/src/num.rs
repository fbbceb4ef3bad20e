//! Reference numerics, written independently of the code under test.

/// log Gamma(x) for x > 0: shift up to x >= 30, then the Stirling series (error far below 1e-15 relative).
pub fn ln_gamma(x: f64) -> f64 {
    assert!(x > 0.0);
    let mut shift = 0.0;
    let mut y = x;
    // product form keeps the number of logs small
    let mut prod = 1.0f64;
    while y < 30.0 {
        prod *= y;
        if prod > 1e250 {
            shift += prod.ln();
            prod = 1.0;
        }
        y += 1.0;
    }
    shift += prod.ln();
    let i = 1.0 / y;
    let i2 = i * i;
    let series = i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 / 1188.0))));
    (y - 0.5) * y.ln() - y + 0.5 * (2.0 * std::f64::consts::PI).ln() + series - shift
}

/// log k! by summation for small k, by `ln_gamma` beyond.
pub fn ln_fact(k: u64) -> f64 {
    if k <= 170 {
        let mut s = 0.0;
        for i in 2..=k {
            s += (i as f64).ln();
        }
        s
    } else {
        ln_gamma(k as f64 + 1.0)
    }
}

pub fn ln_choose(n: u64, k: u64) -> f64 {
    if k > n {
        return f64::NEG_INFINITY;
    }
    let k = k.min(n - k);
    if k <= 2000 {
        let (mut s, mut c) = (0.0, 0.0);
        for i in 0..k {
            let y = ((n - i) as f64 / (i + 1) as f64).ln() - c;
            let t = s + y;
            c = (t - s) - y;
            s = t;
        }
        s
    } else {
        // entropy form: log of the most likely binomial probability, which has no large terms to cancel
        let (a, b) = (k as f64, (n - k) as f64);
        let p = a / (a + b);
        let entropy = -(a * p.ln() + b * (-p).ln_1p());
        let d = |x: f64| {
            let i = 1.0 / x;
            i / 12.0 - i * i * i / 360.0
        };
        entropy - 0.5 * (2.0 * std::f64::consts::PI * a * (1.0 - p)).ln() + d(a + b) - d(a) - d(b)
    }
}

pub fn ln_beta(a: f64, b: f64) -> f64 {
    ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b)
}
