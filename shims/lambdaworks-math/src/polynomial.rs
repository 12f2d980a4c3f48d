use crate::field::element::FieldElement;
use crate::field::traits::IsField;
use std::ops::*;

/// Represents the polynomial c_0 + c_1 * X + c_2 * X^2 + ... + c_n * X^n
/// as a vector of coefficients `[c_0, c_1, ... , c_n]`
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        crate::sim::point("polynomial");
        let mut c = coefficients.to_vec();
        while let Some(l) = c.last() {
            if *l == FieldElement::zero() {
                c.pop();
            } else {
                break;
            }
        }
        Self { coefficients: c }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut c = vec![FieldElement::zero(); degree];
        c.push(coefficient);
        Self::new(&c)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn is_zero(&self) -> bool {
        self.coefficients.iter().all(|c| *c == FieldElement::zero())
    }
    pub fn interpolate(xs: &[FieldElement<F>], ys: &[FieldElement<F>]) -> Result<Self, &'static str> {
        if xs.len() != ys.len() {
            return Err("unequal lengths");
        }
        let mut result = Self::zero();
        for (i, y) in ys.iter().enumerate() {
            let mut term = Self::new_monomial(y.clone(), 0);
            for (j, x) in xs.iter().enumerate() {
                if i == j {
                    continue;
                }
                let d = (&xs[i] - x).inv();
                term = term * Self::new(&[-(x * &d), d]);
            }
            result = result + term;
        }
        Ok(result)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        crate::sim::point("evaluate");
        self.coefficients
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, c| c + acc * x)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        if self.coefficients.is_empty() {
            0
        } else {
            self.coefficients.len() - 1
        }
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or_else(FieldElement::zero)
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients().len()
    }
    /// Computes quotient with `x - b` in place.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            core::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut p = self.clone();
        p.ruffini_division_inplace(b);
        Self::new(&p.coefficients)
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        if dividend.degree() > self.degree() || self.is_zero() {
            (Self::zero(), self)
        } else {
            let mut n = self;
            let mut q: Vec<FieldElement<F>> = vec![FieldElement::zero(); n.degree() + 1];
            let denominator = dividend.leading_coefficient().inv();
            while !n.is_zero() && n.degree() >= dividend.degree() {
                let new_coefficient = n.leading_coefficient() * &denominator;
                q[n.degree() - dividend.degree()] = new_coefficient.clone();
                let d = dividend.mul_with_ref(&Polynomial::new_monomial(
                    new_coefficient,
                    n.degree() - dividend.degree(),
                ));
                n = n - d;
            }
            (Polynomial::new(&q), n)
        }
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Self::zero();
        }
        let mut c = vec![FieldElement::zero(); self.coeff_len() + factor.coeff_len() - 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] = &c[i + j] + a * b;
            }
        }
        Self::new(&c)
    }
    /// Scales the coefficients of a polynomial P by a factor: P(factor * x).
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut p = FieldElement::one();
        let mut c = Vec::with_capacity(self.coeff_len());
        for x in &self.coefficients {
            c.push(x * &p);
            p = &p * factor;
        }
        Self { coefficients: c }
    }
    /// Multiplies all coefficients by a factor.
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        Self { coefficients: self.coefficients.iter().map(|x| x * factor).collect() }
    }
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let n = std::cmp::max(pa.coeff_len(), pb.coeff_len());
        let mut a = pa.clone();
        let mut b = pb.clone();
        a.coefficients.resize(n, FieldElement::zero());
        b.coefficients.resize(n, FieldElement::zero());
        (a, b)
    }
    pub fn pad_with_zero_coefficients_to_length(pa: &mut Self, n: usize) {
        pa.coefficients.resize(n, FieldElement::zero());
    }
    /// P(x) = P_even(x^2) + x P_odd(x^2)
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let even: Vec<_> = self.coefficients.iter().step_by(2).cloned().collect();
        let odd: Vec<_> = self.coefficients.iter().skip(1).step_by(2).cloned().collect();
        (Self::new(&even), Self::new(&odd))
    }
    pub fn break_in_parts(&self, number_of_parts: usize) -> Vec<Self> {
        (0..number_of_parts)
            .map(|i| {
                let c: Vec<_> = self.coefficients.iter().skip(i).step_by(number_of_parts).cloned().collect();
                Self::new(&c)
            })
            .collect()
    }
}

impl<F: IsField> Default for Polynomial<FieldElement<F>> {
    fn default() -> Self {
        Self::zero()
    }
}

fn p_add<F: IsField>(a: &Polynomial<FieldElement<F>>, b: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
    let (pa, pb) = Polynomial::pad_with_zero_coefficients(a, b);
    let c: Vec<_> = pa.coefficients.iter().zip(&pb.coefficients).map(|(x, y)| x + y).collect();
    Polynomial::new(&c)
}
fn p_neg<F: IsField>(a: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
    Polynomial::new(&a.coefficients.iter().map(|x| -x).collect::<Vec<_>>())
}
fn p_sub<F: IsField>(a: &Polynomial<FieldElement<F>>, b: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
    p_add(a, &p_neg(b))
}
fn c_poly<F: IsField>(c: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::new_monomial(c.clone(), 0)
}
fn p_cmul<F: IsField>(a: &Polynomial<FieldElement<F>>, b: &FieldElement<F>) -> Polynomial<FieldElement<F>> {
    Polynomial::new(&a.coefficients.iter().map(|x| x * b).collect::<Vec<_>>())
}

macro_rules! p_op {
    ($tr:ident, $f:ident, $L:ty, $R:ty, |$a:ident, $b:ident| $e:expr) => {
        impl<F: IsField> $tr<&$R> for &$L {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, r: &$R) -> Self::Output { let ($a, $b) = (self, r); $e }
        }
        impl<F: IsField> $tr<$R> for $L {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, r: $R) -> Self::Output { let ($a, $b) = (&self, &r); $e }
        }
        impl<F: IsField> $tr<&$R> for $L {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, r: &$R) -> Self::Output { let ($a, $b) = (&self, r); $e }
        }
        impl<F: IsField> $tr<$R> for &$L {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, r: $R) -> Self::Output { let ($a, $b) = (self, &r); $e }
        }
    };
}
p_op!(Add, add, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>, |a, b| p_add(a, b));
p_op!(Sub, sub, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>, |a, b| p_sub(a, b));
p_op!(Mul, mul, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>, |a, b| a.mul_with_ref(b));
p_op!(Add, add, Polynomial<FieldElement<F>>, FieldElement<F>, |a, b| p_add(a, &c_poly(b)));
p_op!(Sub, sub, Polynomial<FieldElement<F>>, FieldElement<F>, |a, b| p_sub(a, &c_poly(b)));
p_op!(Mul, mul, Polynomial<FieldElement<F>>, FieldElement<F>, |a, b| p_cmul(a, b));
p_op!(Add, add, FieldElement<F>, Polynomial<FieldElement<F>>, |a, b| p_add(&c_poly(a), b));
p_op!(Sub, sub, FieldElement<F>, Polynomial<FieldElement<F>>, |a, b| p_sub(&c_poly(a), b));
p_op!(Mul, mul, FieldElement<F>, Polynomial<FieldElement<F>>, |a, b| p_cmul(b, a));

impl<F: IsField> Div<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn div(self, d: Polynomial<FieldElement<F>>) -> Self::Output {
        self.div_with_ref(&d)
    }
}
impl<F: IsField> Neg for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        p_neg(&self)
    }
}
impl<F: IsField> Neg for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        p_neg(self)
    }
}
