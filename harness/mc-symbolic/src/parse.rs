//! Readers of printed mathematics with the usual precedence, written from the notations' own rules:
//! powers bind tightest and to the right, then signs, then products, then sums.

use crate::ast::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lang {
    /// `^` and bare function names
    Plain,
    /// `**` and `math.` functions
    Python,
    Latex,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    lang: Lang,
}

pub fn parse(text: &str, lang: Lang) -> Result<Rc<T>, String> {
    let mut p = P { s: text.as_bytes(), i: 0, lang };
    let t = p.sum()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("left over: {:?}", &text[p.i..]));
    }
    Ok(t)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i).is_some_and(|c| *c == b' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, w: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            return true;
        }
        false
    }
    fn need(&mut self, w: &str) -> Result<(), String> {
        if self.eat(w) { Ok(()) } else { Err(format!("expected {w:?} at {}", self.i)) }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }

    fn sum(&mut self) -> Result<Rc<T>, String> {
        let mut t = self.product()?;
        loop {
            if self.eat("+") {
                let r = self.product()?;
                t = bi(B::Add, &t, &r);
            } else if self.eat("-") {
                let r = self.product()?;
                t = bi(B::Sub, &t, &r);
            } else {
                return Ok(t);
            }
        }
    }

    fn product(&mut self) -> Result<Rc<T>, String> {
        let mut t = self.signed()?;
        loop {
            if self.lang == Lang::Latex {
                if !self.eat("\\cdot") {
                    return Ok(t);
                }
                let r = self.signed()?;
                t = bi(B::Mul, &t, &r);
            } else if self.peek() == b'*' && !self.s[self.i..].starts_with(b"**") {
                self.i += 1;
                let r = self.signed()?;
                t = bi(B::Mul, &t, &r);
            } else if self.eat("/") {
                let r = self.signed()?;
                t = bi(B::Div, &t, &r);
            } else {
                return Ok(t);
            }
        }
    }

    fn signed(&mut self) -> Result<Rc<T>, String> {
        if self.eat("-") {
            let t = self.signed()?;
            return Ok(un(U::Neg, &t));
        }
        if self.eat("+") {
            return self.signed();
        }
        self.juxtaposed()
    }

    /// `2x` binds tighter than `2 \cdot x`
    fn juxtaposed(&mut self) -> Result<Rc<T>, String> {
        let mut t = self.power()?;
        while self.lang == Lang::Latex {
            let c = self.peek();
            if !(c.is_ascii_alphanumeric() || c == b'(' || (c == b'\\' && !self.s[self.i..].starts_with(b"\\cdot"))) {
                break;
            }
            let r = self.power()?;
            t = bi(B::Mul, &t, &r);
        }
        Ok(t)
    }

    fn power(&mut self) -> Result<Rc<T>, String> {
        let t = self.atom()?;
        match self.lang {
            Lang::Latex => {
                if self.eat("^") {
                    self.need("{")?;
                    let e = self.sum()?;
                    self.need("}")?;
                    // a second superscript is an error in LaTeX
                    if self.peek() == b'^' {
                        return Err("double superscript".into());
                    }
                    if *t == T::V(200) {
                        return Ok(un(U::Exp, &e));
                    }
                    return Ok(bi(B::Pow, &t, &e));
                }
                if *t == T::V(200) {
                    return Err("bare e".into());
                }
                Ok(t)
            }
            _ => {
                if self.eat(if self.lang == Lang::Plain { "^" } else { "**" }) {
                    let e = self.signed()?;
                    return Ok(bi(B::Pow, &t, &e));
                }
                Ok(t)
            }
        }
    }

    fn number(&mut self) -> Result<Rc<T>, String> {
        let start = self.i;
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_digit() || *c == b'.') {
            self.i += 1;
        }
        if self.lang != Lang::Latex && matches!(self.s.get(self.i), Some(b'e' | b'E')) {
            let mut j = self.i + 1;
            if matches!(self.s.get(j), Some(b'+' | b'-')) {
                j += 1;
            }
            if self.s.get(j).is_some_and(u8::is_ascii_digit) {
                while self.s.get(j).is_some_and(u8::is_ascii_digit) {
                    j += 1;
                }
                self.i = j;
            }
        }
        let w = std::str::from_utf8(&self.s[start..self.i]).unwrap();
        w.parse().map(c).map_err(|_| format!("bad number {w:?}"))
    }

    fn atom(&mut self) -> Result<Rc<T>, String> {
        let ch = self.peek();
        if ch == b'(' {
            self.i += 1;
            let t = self.sum()?;
            self.need(")")?;
            return Ok(t);
        }
        if ch.is_ascii_digit() || ch == b'.' {
            return self.number();
        }
        if self.lang == Lang::Latex && ch == b'\\' {
            self.i += 1;
            let start = self.i;
            while self.s.get(self.i).is_some_and(u8::is_ascii_alphabetic) {
                self.i += 1;
            }
            let w = std::str::from_utf8(&self.s[start..self.i]).unwrap().to_string();
            if let Some(i) = var_names().iter().position(|n| n.strip_prefix('\\') == Some(w.as_str())) {
                return Ok(v(i as u8));
            }
            let (open, close) = if matches!(w.as_str(), "frac" | "sqrt") { ("{", "}") } else { ("(", ")") };
            self.need(open)?;
            let a = self.sum()?;
            self.need(close)?;
            if w == "frac" {
                self.need("{")?;
                let b = self.sum()?;
                self.need("}")?;
                return Ok(bi(B::Div, &a, &b));
            }
            return Ok(un(func(&w).ok_or(format!("unknown command {w}"))?, &a));
        }
        if ch.is_ascii_alphabetic() || ch == b'_' {
            let start = self.i;
            while self.s.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_' || (*c == b'.' && self.lang == Lang::Python)) {
                self.i += 1;
            }
            let w = std::str::from_utf8(&self.s[start..self.i]).unwrap().to_string();
            if self.lang == Lang::Latex && w == "e" {
                return Ok(v(200));
            }
            if self.lang != Lang::Latex && self.peek() == b'(' {
                let name = match self.lang {
                    Lang::Python => match w.strip_prefix("math.").ok_or(format!("unknown function {w}"))? {
                        "log" => "ln",
                        "ln" => return Err("math.ln does not exist".into()),
                        o => o,
                    },
                    _ => &w,
                };
                let f = func(name).ok_or(format!("unknown function {w}"))?;
                self.need("(")?;
                let a = self.sum()?;
                self.need(")")?;
                return Ok(un(f, &a));
            }
            return var_names().iter().position(|n| *n == w).map(|i| v(i as u8)).ok_or(format!("unknown name {w}"));
        }
        Err(format!("unexpected {:?} at {}", ch as char, self.i))
    }
}

fn func(w: &str) -> Option<U> {
    Some(match w {
        "ln" => U::Ln,
        "exp" => U::Exp,
        "sqrt" => U::Sqrt,
        "sin" => U::Sin,
        "cos" => U::Cos,
        _ => return None,
    })
}
