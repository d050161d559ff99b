//! Exact binomial quantiles in big fixed-point arithmetic.
use num::bigint::BigUint;
use num::{One, ToPrimitive, Zero};

/// Smallest and largest k that are quantiles of Binomial(n, num/den) at t/(2^256-1) -+ eps (eps = 2^-eps_bits).
/// None if the walk is longer than `limit`.
pub fn quantile(n: u64, num: u64, den: u64, t: &BigUint, eps_bits: u64, limit: u64) -> Option<(u64, u64)> {
    assert!(num <= den && den > 0);
    let f_num = num as f64 / den as f64;
    let bits = if num == den { 0.0 } else { -(n as f64) * (-f_num).ln_1p() / std::f64::consts::LN_2 };
    if bits > 40_000.0 {
        return None;
    }
    let f = bits as u64 + 400;
    let one = BigUint::one() << f;
    let max = (BigUint::one() << 256) - 1u32;
    let r = (t << f) / &max;
    let eps = BigUint::one() << (f - eps_bits);
    let lo_r = if r > eps { &r - &eps } else { BigUint::zero() };
    let hi_r = &r + &eps;
    if num == den {
        // all mass at n
        return Some((if lo_r.is_zero() { 0 } else { n }, n));
    }
    // (1-p)^n
    let mut pmf = one.clone();
    let mut b = (BigUint::from(den - num) << f) / den;
    let mut e = n;
    while e > 0 {
        if e & 1 == 1 {
            pmf = (&pmf * &b) >> f;
        }
        b = (&b * &b) >> f;
        e >>= 1;
    }
    let mut cdf = BigUint::zero();
    let mut lo = None;
    let mut k = 0u64;
    loop {
        if k == n {
            return Some((lo.unwrap_or(n), n));
        }
        cdf += &pmf;
        if lo.is_none() && cdf >= lo_r {
            lo = Some(k);
        }
        if cdf >= hi_r {
            return Some((lo.unwrap(), k));
        }
        if pmf.is_zero() && k as f64 > n as f64 * f_num {
            return Some((lo.unwrap_or(n), n));
        }
        pmf = pmf * (n - k) * num / (k + 1) / (den - num);
        k += 1;
        if k > limit {
            return None;
        }
    }
}

/// The value t with t/(2^256-1) closest to CDF(k) of Binomial(n, num/den), as 32 big-endian bytes plus an offset.
pub fn cdf_at(n: u64, num: u64, den: u64, k: u64) -> Option<BigUint> {
    let f_num = num as f64 / den as f64;
    if num == den {
        return None;
    }
    let bits = -(n as f64) * (-f_num).ln_1p() / std::f64::consts::LN_2;
    if bits > 40_000.0 {
        return None;
    }
    let f = bits as u64 + 400;
    let mut pmf = BigUint::one() << f;
    let mut b = (BigUint::from(den - num) << f) / den;
    let mut e = n;
    while e > 0 {
        if e & 1 == 1 {
            pmf = (&pmf * &b) >> f;
        }
        b = (&b * &b) >> f;
        e >>= 1;
    }
    let mut cdf = BigUint::zero();
    for i in 0..=k.min(n) {
        cdf += &pmf;
        pmf = pmf * (n - i) * num / (i + 1) / (den - num);
    }
    let max = (BigUint::one() << 256) - 1u32;
    let v: BigUint = (cdf * &max) >> f;
    Some(v.min(max))
}

pub fn be32(t: &BigUint) -> [u8; 32] {
    let v = t.to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - v.len()..].copy_from_slice(&v);
    let _ = t.to_u64();
    o
}
