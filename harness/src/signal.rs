//! Input signals: small descriptors, so that a case is a pure, serialisable, shrinkable value.
use crate::elem::Elem;
use crate::plan::{below, chance, range};
use proptest::test_runner::TestRng;
use proptest::prelude::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Uniform(u64),
    Ints(u64),
    Wide(u64),
    Sparse(u64),
    Impulse(u64),
    Tone(u64),
    Ramp,
    Const,
    Alt,
    Zero,
    /// uniform noise on a large constant offset
    Offset(u64),
    /// x[i] = x[n-i]
    Even(u64),
    /// x[i] = -x[n-i]
    Odd(u64),
    /// repeats with a period that divides the length
    Periodic(u64),
    /// second half is minus the first half
    Anti(u64),
    /// two impulses
    Pair(u64),
    /// zero on one residue class of a divisor of the length
    Comb(u64),
    /// zero from some point on
    Head(u64),
    /// elements drawn from values that code might treat specially
    Specials(u64),
    /// only two distinct values
    Binary(u64),
}
use Shape::*;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sig {
    pub shape: Shape,
    /// multiply everything by 2^exp
    pub exp: i32,
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn unit(s: u64, i: usize) -> f64 {
    (mix(s.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ mix(i as u64)) >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
}
impl Sig {
    pub fn dense(seed: u64) -> Sig {
        Sig { shape: Uniform(seed), exp: 0 }
    }
    /// chunk `c` of a batch
    pub fn fill<T: Elem>(&self, n: usize, c: usize) -> Vec<T> {
        let sc = 2f64.powi(self.exp);
        let o = (c as u64).wrapping_mul(0x9e37);
        let div = match &self.shape {
            Periodic(s) | Comb(s) => {
                let ds: Vec<usize> = (2..=n.min(64)).filter(|d| n % d == 0).collect();
                if ds.is_empty() { 1 } else { ds[(mix(*s) % ds.len() as u64) as usize] }
            }
            _ => 1,
        };
        (0..n)
            .map(|i| {
                let v = match &self.shape {
                    Uniform(s) => unit(s.wrapping_add(o), i),
                    Ints(s) => (unit(s.wrapping_add(o), i) * 8.0).round(),
                    Wide(s) => {
                        let e = (unit(s.wrapping_add(o) ^ 0x55, i) * 20.0).round() as i32;
                        unit(s.wrapping_add(o), i) * 2f64.powi(e)
                    }
                    Sparse(s) => {
                        if mix(s.wrapping_add(o) ^ i as u64) % 7 == 0 { unit(s.wrapping_add(o), i) } else { 0.0 }
                    }
                    Impulse(p) => {
                        if i as u64 == p.wrapping_add(c as u64) % n.max(1) as u64 { if c % 2 == 0 { 1.0 } else { -0.75 } } else { 0.0 }
                    }
                    Tone(f) => {
                        let j = ((i as u128 * (f.wrapping_add(c as u64) % n.max(1) as u64) as u128) % n.max(1) as u128) as usize;
                        crate::oracle::cas(j, n)
                    }
                    Ramp => (i as f64 + 1.0) / n as f64 - 0.25 * (c as f64),
                    Const => 1.0 + c as f64 * 0.5,
                    Alt => (if i % 2 == 0 { 1.0 } else { -1.0 }) * (1.0 + c as f64 * 0.25),
                    Zero => 0.0,
                    Offset(s) => 1000.0 + unit(s.wrapping_add(o), i),
                    Even(s) => unit(s.wrapping_add(o), i.min(n - i)),
                    Odd(s) => {
                        if i == 0 || 2 * i == n { 0.0 } else { unit(s.wrapping_add(o), i.min(n - i)) * if 2 * i < n { 1.0 } else { -1.0 } }
                    }
                    Periodic(s) => unit(s.wrapping_add(o), i % (n / div)),
                    Anti(s) => {
                        let h = n / 2;
                        if n % 2 == 1 { unit(s.wrapping_add(o), i) } else { unit(s.wrapping_add(o), i % h) * if i < h { 1.0 } else { -1.0 } }
                    }
                    Pair(s) => {
                        let (a, b) = (mix(*s) % n as u64, mix(s.wrapping_add(o) ^ 1) % n as u64);
                        if i as u64 == a { 1.0 } else if i as u64 == b { unit(*s, 1) } else { 0.0 }
                    }
                    Comb(s) => {
                        if (i % div == (mix(*s) as usize >> 8) % div) == (s % 2 == 0) && div > 1 { 0.0 } else { unit(s.wrapping_add(o), i) }
                    }
                    Specials(s) => {
                        const V: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 0.25, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, std::f64::consts::PI, 100.0, 1e-6, -1e-3];
                        // a small palette per chunk
                        let p = 2 + mix(*s) % 6;
                        let k = mix(s.wrapping_add(o) ^ mix(i as u64)) % p;
                        V[(mix(s ^ k.wrapping_mul(77)) % 16) as usize]
                    }
                    Binary(s) => {
                        let (a, b) = (unit(*s, 1), unit(s.wrapping_add(o), 2));
                        if mix(s ^ mix(i as u64 + 9)) % 3 == 0 { a } else { b }
                    }
                    Head(s) => {
                        if i > (mix(*s) % n.max(1) as u64) as usize { 0.0 } else { unit(s.wrapping_add(o), i) }
                    }
                };
                T::of(v * sc)
            })
            .collect()
    }
    pub fn batch<T: Elem>(&self, n: usize, b: usize) -> Vec<T> {
        (0..b).flat_map(|c| self.fill::<T>(n, c)).collect()
    }
    pub fn gen(r: &mut TestRng) -> Sig {
        let s = r.next_u64() >> 32;
        let shape = match below(r, 31) {
            20 => Even(s),
            21 => Odd(s),
            22 | 23 => Periodic(s),
            24 => Anti(s),
            25 => Pair(s),
            26 => Comb(s),
            27 => Head(s),
            28 | 29 => Specials(s),
            30 => Binary(s),
            0..=8 => Uniform(s),
            9 => Ints(s),
            10 | 11 => Wide(s),
            12 => Sparse(s),
            13 | 14 => Impulse(s),
            15 => Tone(s),
            16 => Ramp,
            17 => Const,
            18 => Alt,
            _ => Offset(s),
        };
        let exp = if chance(r, 25) { range(r, 0, 80) as i32 - 40 } else { 0 };
        Sig { shape, exp }
    }
    /// log2 of a bound on the magnitude of the elements (before `exp`), for batches of up to 12
    pub fn bits(&self) -> i32 {
        match &self.shape {
            Offset(_) => 10,
            Wide(_) => 20,
            Specials(_) => 7,
            Ints(_) | Ramp | Const | Alt => 3,
            _ => 1,
        }
    }
    pub fn structured(s: u64) -> Vec<Sig> {
        [Even(s), Odd(s), Periodic(s), Periodic(s + 1), Anti(s), Pair(s), Comb(s), Comb(s + 1), Head(s), Const, Alt, Ramp, Impulse(0), Impulse(1), Tone(1), Ints(s), Sparse(s), Specials(s), Specials(s + 7), Binary(s)].into_iter().map(|shape| Sig { shape, exp: 0 }).collect()
    }
    pub fn shrink(&self) -> Vec<Sig> {
        let mut v = vec![];
        if self.exp != 0 {
            v.push(Sig { exp: 0, ..self.clone() });
        }
        match &self.shape {
            Impulse(p) => {
                for q in [0, 1, p / 2] {
                    if q < *p {
                        v.push(Sig { shape: Impulse(q), exp: self.exp });
                    }
                }
            }
            Uniform(s) => {
                for i in 0..3 {
                    v.push(Sig { shape: Impulse(i), exp: self.exp });
                }
                v.push(Sig { shape: Const, exp: self.exp });
                if *s != 1 {
                    v.push(Sig { shape: Uniform(1), exp: self.exp });
                }
            }
            Const | Alt | Zero | Ramp => {}
            _ => {
                v.push(Sig { shape: Const, exp: self.exp });
                v.push(Sig { shape: Uniform(1), exp: self.exp });
            }
        }
        v
    }
}
