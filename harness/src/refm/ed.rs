//! Independent ed25519 group arithmetic on big integers, and ECVRF-ED25519-SHA512-Elligator2 (draft 03).
use num::bigint::BigUint;
use num::{One, Zero};
use sha2::{Digest, Sha512};

pub struct Curve {
    pub p: BigUint,
    pub q: BigUint,
    d: BigUint,
    sqrtm1: BigUint,
    base: Pt,
}

#[derive(Clone, Debug)]
pub struct Pt {
    x: BigUint,
    y: BigUint,
    z: BigUint,
    t: BigUint,
}

fn le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}

pub fn le32(n: &BigUint) -> [u8; 32] {
    let mut o = [0u8; 32];
    let v = n.to_bytes_le();
    o[..v.len()].copy_from_slice(&v);
    o
}

impl Curve {
    pub fn new() -> Self {
        let one = BigUint::one();
        let p = (&one << 255) - BigUint::from(19u32);
        let q = (&one << 252) + "27742317777372353535851937790883648493".parse::<BigUint>().unwrap();
        let inv = |a: &BigUint| a.modpow(&(&p - 2u32), &p);
        let d = (&p - BigUint::from(121665u32)) * inv(&BigUint::from(121666u32)) % &p;
        let sqrtm1 = BigUint::from(2u32).modpow(&((&p - 1u32) >> 2), &p);
        let mut c = Curve { d, sqrtm1, base: Pt { x: one.clone(), y: one.clone(), z: one.clone(), t: one.clone() }, q, p };
        let y = BigUint::from(4u32) * c.inv(&BigUint::from(5u32)) % &c.p;
        c.base = c.decompress(&le32(&y)).unwrap();
        c
    }
    fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.p - 2u32), &self.p)
    }
    fn m(&self, a: &BigUint, b: &BigUint) -> BigUint {
        a * b % &self.p
    }
    fn s(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    pub fn base(&self) -> Pt {
        self.base.clone()
    }
    pub fn id(&self) -> Pt {
        Pt { x: BigUint::zero(), y: BigUint::one(), z: BigUint::one(), t: BigUint::zero() }
    }
    fn affine(&self, x: BigUint, y: BigUint) -> Pt {
        let t = self.m(&x, &y);
        Pt { x, y, z: BigUint::one(), t }
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        // complete twisted Edwards addition (a = -1), extended coordinates
        let aa = self.m(&self.s(&a.y, &a.x), &self.s(&b.y, &b.x));
        let bb = self.m(&(&a.y + &a.x), &(&b.y + &b.x));
        let cc = self.m(&self.m(&(&a.t * 2u32), &self.d), &b.t);
        let dd = self.m(&(&a.z * 2u32), &b.z);
        let e = self.s(&bb, &aa);
        let f = self.s(&dd, &cc);
        let g = (&dd + &cc) % &self.p;
        let h = (&bb + &aa) % &self.p;
        Pt { x: self.m(&e, &f), y: self.m(&g, &h), z: self.m(&f, &g), t: self.m(&e, &h) }
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        Pt { x: (&self.p - &a.x) % &self.p, y: a.y.clone(), z: a.z.clone(), t: (&self.p - &a.t) % &self.p }
    }
    pub fn mul(&self, k: &BigUint, a: &Pt) -> Pt {
        let mut r = self.id();
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, a);
            }
        }
        r
    }
    pub fn compress(&self, a: &Pt) -> [u8; 32] {
        let zi = self.inv(&a.z);
        let x = self.m(&a.x, &zi);
        let y = self.m(&a.y, &zi);
        let mut o = le32(&y);
        if x.bit(0) {
            o[31] |= 0x80;
        }
        o
    }
    pub fn is_id(&self, a: &Pt) -> bool {
        a.x.is_zero() && a.y == a.z
    }
    /// RFC 8032 decoding: canonical encodings only.
    pub fn decompress(&self, b: &[u8; 32]) -> Option<Pt> {
        let sign = b[31] >> 7 == 1;
        let mut c = *b;
        c[31] &= 0x7f;
        let y = le(&c);
        if y >= self.p {
            return None;
        }
        let yy = self.m(&y, &y);
        let u = self.s(&yy, &BigUint::one());
        let v = (self.m(&self.d, &yy) + 1u32) % &self.p;
        let x2 = self.m(&u, &self.inv(&v));
        let x = self.sqrt(&x2)?;
        if x.is_zero() && sign {
            return None;
        }
        let x = if x.bit(0) != sign { &self.p - &x } else { x };
        Some(self.affine(x, y))
    }
    fn sqrt(&self, a: &BigUint) -> Option<BigUint> {
        let r = a.modpow(&((&self.p + 3u32) >> 3), &self.p);
        if self.m(&r, &r) == *a {
            return Some(r);
        }
        let r = self.m(&r, &self.sqrtm1);
        if self.m(&r, &r) == *a {
            return Some(r);
        }
        None
    }
    /// The eight points of small order, as canonical encodings.
    pub fn torsion(&self) -> Vec<Pt> {
        let mut k = 2u32;
        loop {
            if let Some(pt) = self.decompress(&le32(&BigUint::from(k))) {
                let t = self.mul(&self.q, &pt);
                if !self.is_id(&self.mul(&BigUint::from(4u32), &t)) {
                    return (0..8u32).map(|i| self.mul(&BigUint::from(i), &t)).collect();
                }
            }
            k += 1;
        }
    }

    pub fn secret_scalar(&self, seed: &[u8; 32]) -> BigUint {
        let mut h = [0u8; 32];
        h.copy_from_slice(&Sha512::digest(seed)[..32]);
        h[0] &= 248;
        h[31] &= 127;
        h[31] |= 64;
        le(&h)
    }

    pub fn hash_to_curve(&self, y: &[u8; 32], alpha: &[u8]) -> Pt {
        let mut h = [0u8; 32];
        h.copy_from_slice(&Sha512::new().chain(&[4, 1]).chain(y).chain(alpha).finalize()[..32]);
        h[31] &= 0x7f;
        let r = le(&h) % &self.p;
        let a = BigUint::from(486662u32);
        let one = BigUint::one();
        let den = (BigUint::from(2u32) * &r * &r + &one) % &self.p;
        let mut u = self.m(&self.s(&BigUint::zero(), &a), &self.inv(&den));
        let w = (&u * (&u * &u + &a * &u + &one)) % &self.p;
        let leg = w.modpow(&((&self.p - 1u32) >> 1), &self.p);
        if !(leg.is_one() || leg.is_zero()) {
            u = self.s(&self.s(&BigUint::zero(), &a), &u);
        }
        let y = self.m(&self.s(&u, &one), &self.inv(&((&u + &one) % &self.p)));
        let pt = self.decompress(&le32(&y)).unwrap();
        self.mul(&BigUint::from(8u32), &pt)
    }

    pub fn challenge(&self, pts: [&Pt; 4]) -> BigUint {
        let mut d = Sha512::new().chain(&[4, 2]);
        for p in pts.iter() {
            d.update(&self.compress(p));
        }
        le(&d.finalize()[..16])
    }

    pub fn output(&self, gamma: &Pt) -> Vec<u8> {
        let g = self.compress(&self.mul(&BigUint::from(8u32), gamma));
        Sha512::new().chain(&[4, 3]).chain(&g).finalize().to_vec()
    }

    pub fn public(&self, seed: &[u8; 32]) -> [u8; 32] {
        self.compress(&self.mul(&self.secret_scalar(seed), &self.base))
    }

    pub fn prove(&self, seed: &[u8; 32], alpha: &[u8]) -> [u8; 80] {
        let x = self.secret_scalar(seed);
        let y = self.public(seed);
        let h = self.hash_to_curve(&y, alpha);
        let hs = self.compress(&h);
        let k = le(&Sha512::new().chain(&Sha512::digest(seed)[32..]).chain(&hs).finalize()) % &self.q;
        self.prove_with(&x, &h, &self.mul(&x, &h), &k)
    }

    pub fn prove_with(&self, x: &BigUint, h: &Pt, gamma: &Pt, k: &BigUint) -> [u8; 80] {
        let c = self.challenge([h, gamma, &self.mul(k, &self.base), &self.mul(k, h)]);
        let s = (k + &c * x) % &self.q;
        let mut o = [0u8; 80];
        o[..32].copy_from_slice(&self.compress(gamma));
        o[32..48].copy_from_slice(&le32(&c)[..16]);
        o[48..].copy_from_slice(&le32(&s));
        o
    }

    /// The output of an acceptable proof; keys of small order and non-canonical scalars are refused.
    pub fn verify(&self, pk: &[u8; 32], proof: &[u8; 80], alpha: &[u8]) -> Option<Vec<u8>> {
        let y = self.decompress(pk)?;
        if self.is_id(&self.mul(&BigUint::from(8u32), &y)) {
            return None;
        }
        let mut g = [0u8; 32];
        g.copy_from_slice(&proof[..32]);
        let gamma = self.decompress(&g)?;
        let c = le(&proof[32..48]);
        let s = le(&proof[48..]);
        if s >= self.q {
            return None;
        }
        let h = self.hash_to_curve(pk, alpha);
        let u = self.add(&self.mul(&s, &self.base), &self.neg(&self.mul(&c, &y)));
        let v = self.add(&self.mul(&s, &h), &self.neg(&self.mul(&c, &gamma)));
        if self.challenge([&h, &gamma, &u, &v]) == c {
            Some(self.output(&gamma))
        } else {
            None
        }
    }
}
