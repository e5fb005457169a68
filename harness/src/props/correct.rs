//! C01-C07, C18, C21: output equals the DHT definition.
use super::*;
use crate::runner::{Prop, Tier};
use Plan::*;

pub struct Correct {
    pub id: &'static str,
    pub rule: &'static str,
    pub sys: fn(Tier) -> Vec<Tx>,
    pub n: (usize, usize),
    /// tolerance relative to the other correctness checks
    pub tight: f64,
    pub make: fn(&mut TestRng, Tier) -> Tx,
}
impl Prop for Correct {
    type Case = Tx;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn systematic(&self, t: Tier) -> Vec<Tx> {
        let mut v = (self.sys)(t);
        // spread the expensive cases over the workers, deterministically
        // and start the longest ones first
        v.sort_by_key(|c| (c.plan.cost() < 1e7, mix(c.plan.len() as u64 ^ (c.ty == Ty::F32) as u64)));
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(self.n.0, self.n.1)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> Tx {
        (self.make)(r, t)
    }
    fn shrink(&self, c: &Tx) -> Vec<Tx> {
        c.shrink()
    }
    fn check(&self, c: &Tx) -> Outcome {
        with_ty!(c.ty, T => check_tx::<T>(c, self.tight))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["reference values come from the definition evaluated in f64 with compensated summation (short lengths, and every reported mismatch) or from rustfft's f64 FFT (long lengths)",
             "tolerance: 6x a calibrated model of the rounding growth, relative to the 2-norm"]
    }
}
/// signals with symmetries or sparsity: data a shortcut might treat specially
fn structured(v: &mut Vec<Tx>, p: Plan, seed: u64) {
    for (i, sig) in Sig::structured(seed).into_iter().enumerate() {
        let ty = if (i as u64 + seed) % 2 == 0 { Ty::F64 } else { Ty::F32 };
        v.push(Tx { sig, ..Tx::new(p.clone(), ty, seed) });
    }
}
fn log_range(r: &mut TestRng, lo: usize, hi: usize) -> usize {
    let (a, b) = ((lo as f64).ln(), (hi as f64 + 0.999).ln());
    let u = below(r, 1 << 30) as f64 / (1u64 << 30) as f64;
    ((a + (b - a) * u).exp() as usize).clamp(lo, hi)
}
fn bx(p: Plan) -> Box<Plan> {
    Box::new(p)
}
/// inner transform for the isolated checks: accurate, exploits its contract fully
fn inner(r: &mut TestRng, n: usize) -> Plan {
    if n <= 256 && chance(r, 25) {
        return gen_exact(r, n, &GenCfg { naive: 64, ..GenCfg::lib(n) }, 2);
    }
    user(n)
}

// ---------- C01 kernels
fn c01_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    for n in 1..=t.pick(520, 2200) {
        v.extend(Tx::both(Naive(n), 1 + n as u64));
    }
    for n in 1..=t.pick(72, 200) {
        for s in 0..3 {
            structured(&mut v, Naive(n), s);
        }
    }
    for n in [100, 127, 128, 200, 255, 256, 257, 400] {
        structured(&mut v, Naive(n), 1);
    }
    for n in BFLY {
        for s in 0..24 {
            structured(&mut v, B(n), s);
        }
    }
    // index products exceed 32 bits here
    v.push(Tx::new(Naive(66_003), Ty::F64, 3));
    for n in BFLY {
        v.push(Tx { batch: 70_000, ..Tx::new(B(n), Ty::F64, 1) });
        for b in 1..=40 {
            for ty in [Ty::F32, Ty::F64] {
                v.push(Tx { batch: b, ..Tx::new(B(n), ty, b as u64) });
            }
        }
        for i in 0..n as u64 {
            for ty in [Ty::F32, Ty::F64] {
                v.push(Tx { sig: Sig { shape: Shape::Impulse(i), exp: 0 }, ..Tx::new(B(n), ty, 0) });
            }
        }
    }
    v
}
fn c01_gen(r: &mut TestRng, t: Tier) -> Tx {
    let p = if chance(r, 65) { B(BFLY[below(r, 9)]) } else { Naive(log_range(r, 1, t.pick(700, 4000))) };
    let mut c = Tx::gen(r, p);
    if matches!(c.plan, B(_)) && chance(r, 40) {
        c.batch = range(r, 1, 200);
    }
    c
}
// ---------- C02 radix 4
fn c02_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    v.push(Tx::new(R4(25), Ty::F32, 1));
    v.push(Tx::new(R4(24), Ty::F64, 1));
    for p in 0..=t.pick(23u32, 25) {
        let reps = if p <= 14 { 8 } else if p <= 18 { 2 } else { 1 };
        for s in 0..reps {
            v.extend(Tx::both(R4(p), s));
        }
        for s in 0..if p <= 12 { 6 } else if p <= 16 { 1 } else { 0 } {
            structured(&mut v, R4(p), s);
        }
        if p <= 12 {
            for b in [2, 3, 5] {
                for mut c in Tx::both(R4(p), b) {
                    c.batch = b as usize;
                    v.push(c);
                }
            }
        }
        if p <= 9 {
            for i in 0..1u64 << p {
                v.push(Tx { sig: Sig { shape: Shape::Impulse(i), exp: 0 }, ..Tx::new(R4(p), Ty::F64, 0) });
            }
        }
    }
    v
}
fn c02_gen(r: &mut TestRng, t: Tier) -> Tx {
    let p = R4(range(r, 0, t.pick(15, 20)) as u32);
    Tx::gen(r, p)
}
// ---------- C03 split radix
fn c03_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    for q in 1..=t.pick(1600, 6000) {
        v.extend(Tx::both(Split(bx(user(q)), bx(user(2 * q))), q as u64));
        if q <= 64 || q % 128 == 0 {
            structured(&mut v, Split(bx(user(q)), bx(user(2 * q))), q as u64);
            structured(&mut v, Split(bx(user(q)), bx(user(2 * q))), q as u64 + 1);
        }
        if q <= 40 {
            v.extend(Tx::both(Split(bx(Naive(q)), bx(Naive(2 * q))), q as u64));
            for b in 2..=5 {
                for mut c in Tx::both(Split(bx(Naive(q)), bx(Naive(2 * q))), b as u64) {
                    c.batch = b;
                    v.push(c);
                }
            }
        }
    }
    for q in [20_000, 32_768, 65_537, 70_001, 300_007, 1_048_579] {
        v.extend(Tx::both(Split(bx(user(q)), bx(user(2 * q))), q as u64));
    }
    // library-only chains: q, 2q, 4q, 8q, ... each built from the previous two
    for (a, b) in [(B(1), B(2)), (B(2), B(4)), (B(4), B(8)), (B(8), B(16)), (B(3), B(6)), (Naive(5), Naive(10)), (R4(4), R4(5)), (Naive(7), X(2, bx(Naive(7))))] {
        let (mut x, mut y) = (a, b);
        while 2 * y.len() <= t.pick(1 << 12, 1 << 16) {
            let z = Split(bx(x.clone()), bx(y.clone()));
            v.extend(Tx::both(z.clone(), 3));
            x = y;
            y = z;
        }
    }
    v
}
fn c03_gen(r: &mut TestRng, t: Tier) -> Tx {
    let q = log_range(r, 1, t.pick(30_000, 300_000));
    let p = Split(bx(inner(r, q)), bx(inner(r, 2 * q)));
    Tx::gen(r, p)
}
// ---------- C04 fixed-width mixed radix
fn c04_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    for k in 2..=6 {
        for h in [22_000, 65_536, 65_537, 70_001, 300_007, 1_048_583] {
            v.extend(Tx::both(X(k, bx(user(h))), h as u64));
        }
        for h in 1..=t.pick(1000, 4000) {
            v.extend(Tx::both(X(k, bx(user(h))), h as u64));
            if h <= 48 || h % 128 == 0 {
                structured(&mut v, X(k, bx(user(h))), h as u64);
            }
            if h <= 40 {
                v.extend(Tx::both(X(k, bx(Naive(h))), h as u64));
                for b in 2..=4 {
                    for mut c in Tx::both(X(k, bx(Naive(h))), b as u64) {
                        c.batch = b;
                        v.push(c);
                    }
                }
            }
        }
    }
    v
}
fn c04_gen(r: &mut TestRng, t: Tier) -> Tx {
    let k = range(r, 2, 6);
    let h = log_range(r, 1, t.pick(40_000, 400_000));
    let p = X(k, bx(inner(r, h)));
    Tx::gen(r, p)
}
// ---------- C05 general mixed radix
fn c05_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    let m = t.pick(44, 110);
    for w in 1..=m {
        for h in 1..=m {
            v.extend(Tx::both(Mixed(bx(user(w)), bx(user(h))), (w * 131 + h) as u64));
            if w <= 12 && h <= 12 {
                structured(&mut v, Mixed(bx(user(w)), bx(user(h))), (w * 131 + h) as u64);
            }
        }
    }
    // width and height transform are one object
    for w in (1..=t.pick(140, 300)).chain([200, 256, 257, 300]) {
        v.extend(Tx::both(Square(bx(user(w))), w as u64));
        v.push(Tx { batch: 2, ..Tx::new(Square(bx(simple(w.min(40)))), Ty::F64, 3) });
    }
    for (w, h) in [(257, 257), (256, 256), (257, 4099), (3, 70_001), (70_001, 3), (1009, 1013), (1, 66_000), (66_000, 1), (2, 400_000), (400_000, 2), (2049, 2053), (5, 800_003), (800_003, 5)] {
        v.extend(Tx::both(Mixed(bx(user(w)), bx(user(h))), 4));
    }
    for s in [1, 2, 3, 4, 5, 7, 8, 16] {
        for l in [97, 128, 255, 256, 257, 512, 1000, 1023, 4096, 4099] {
            v.extend(Tx::both(Mixed(bx(user(s)), bx(user(l))), 5));
            v.extend(Tx::both(Mixed(bx(user(l)), bx(user(s))), 6));
        }
    }
    v
}
fn c05_gen(r: &mut TestRng, t: Tier) -> Tx {
    let n = t.pick(40_000, 400_000);
    let a = log_range(r, 1, n);
    let b = log_range(r, 1, (n / a).max(1));
    let (w, h) = if chance(r, 50) { (a, b) } else { (b, a) };
    let p = Mixed(bx(inner(r, w)), bx(inner(r, h)));
    Tx::gen(r, p)
}
// ---------- C06 Rader
/// primes that are special: Fermat, large least primitive root, p-1 = 2q^2, p-1 = 2q, just above 2^16
pub const SPECIAL_PRIMES: [usize; 34] = [
    2, 3, 5, 7, 17, 23, 41, 47, 71, 191, 257, 409, 2161, 5881, 36721, 55441, 71761, 110881, 65537, 65539, 65543, 65551, 114689, 147457, 163841, 12289, 40961,
    19, 163, 243_343, 46337, 46349, 92821, 131071,
];
fn c06_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    for p in primes(2, t.pick(9000, 40_000)) {
        v.extend(Tx::both(Raders(bx(user(p - 1))), p as u64));
        if p <= 150 {
            structured(&mut v, Raders(bx(user(p - 1))), p as u64);
            structured(&mut v, Raders(bx(user(p - 1))), p as u64 + 1);
        }
        if p <= 60 {
            v.extend(Tx::both(Raders(bx(Naive(p - 1))), p as u64));
            for b in 2..=4 {
                for mut c in Tx::both(Raders(bx(Naive(p - 1))), b as u64) {
                    c.batch = b;
                    v.push(c);
                }
            }
        }
    }
    for p in SPECIAL_PRIMES {
        v.extend(Tx::both(Raders(bx(user(p - 1))), p as u64));
    }
    for big in t.pick(vec![400_000, 760_400, 1_000_000, 2_100_000, 4_200_000], vec![400_000, 760_400, 1_000_000, 4_200_000, 10_000_000, 20_000_000]) {
        v.push(Tx::new(Raders(bx(user(prev_prime(big) - 1))), Ty::F64, 9));
        v.push(Tx::new(Raders(bx(user(prev_prime(big) - 1))), Ty::F32, 9));
    }
    // p - 1 divisible by a large prime square (q^2 | p-1)
    for q in primes(3, t.pick(260, 700)) {
        if let Some(p) = (1..40).map(|k| 2 * k * q * q + 1).find(|&p| is_prime(p)) {
            if p < t.pick(400_000, 4_000_000) {
                v.push(Tx::new(Raders(bx(user(p - 1))), Ty::F64, 9));
            }
        }
    }
    v
}
fn c06_gen(r: &mut TestRng, t: Tier) -> Tx {
    let hi = t.pick(200_000, 2_000_000);
    let p = prev_prime(log_range(r, 2, hi));
    let i = inner(r, p - 1);
    Tx::gen(r, Raders(bx(i)))
}
// ---------- C07 compositions
fn c07_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    let inners: Vec<Plan> = zoo(2).into_iter().filter(|p| p.len() <= 64).collect();
    for i in &inners {
        let n = i.len();
        let mut outs = vec![];
        for k in 2..=6 {
            outs.push(X(k, bx(i.clone())));
        }
        outs.push(Mixed(bx(i.clone()), bx(B(3))));
        outs.push(Mixed(bx(B(4)), bx(i.clone())));
        outs.push(Mixed(bx(i.clone()), bx(i.clone())));
        outs.push(Split(bx(i.clone()), bx(simple(2 * n))));
        if n % 2 == 0 {
            outs.push(Split(bx(simple(n / 2)), bx(i.clone())));
        }
        if is_prime(n + 1) {
            outs.push(Raders(bx(i.clone())));
        }
        for o in outs {
            if t == Tier::Thorough && o.len() <= 200 {
                for k in 2..=6 {
                    v.extend(Tx::both(X(k, bx(o.clone())), 5));
                }
                v.extend(Tx::both(Mixed(bx(o.clone()), bx(X(2, bx(B(3))))), 6));
                v.extend(Tx::both(Split(bx(o.clone()), bx(X(2, bx(o.clone())))), 6));
            }
            structured(&mut v, o.clone(), 7);
            for mut c in Tx::both(o, 11) {
                v.push(c.clone());
                c.batch = 2;
                v.push(c);
            }
        }
    }
    v
}
fn c07_gen(r: &mut TestRng, t: Tier) -> Tx {
    let max = match below(r, 10) {
        0..=3 => 200,
        4..=7 => 3000,
        _ => t.pick(20_000, 200_000),
    };
    let p = gen_plan(r, &GenCfg::lib(max));
    Tx::gen(r, p)
}
// ---------- C18 precision
fn c18_sys(t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    let sizes: Vec<usize> = t.pick(vec![7, 60, 251, 1000, 4099, 16384, 60_000, 200_003, 1_100_009], vec![7, 60, 251, 1000, 4099, 16384, 60_000, 200_003, 1_000_000, 3_000_017]);
    let shapes = [Shape::Uniform(5), Shape::Const, Shape::Offset(3), Shape::Wide(4), Shape::Tone(3), Shape::Impulse(5)];
    for &m in &sizes {
        let mut ps = vec![];
        for k in 2..=6 {
            ps.push(X(k, bx(user(m / k + 1))));
        }
        let s = (m as f64).sqrt() as usize + 1;
        ps.push(Mixed(bx(user(s)), bx(user(s + 1))));
        ps.push(Mixed(bx(user(m / 3 + 1)), bx(user(3))));
        ps.push(Mixed(bx(user(3)), bx(user(m / 3 + 1))));
        ps.push(Split(bx(user(m / 4 + 1)), bx(user(2 * (m / 4 + 1)))));
        ps.push(Raders(bx(user(prev_prime(m) - 1))));
        ps.push(R4((m as f64).log2() as u32));
        for p in ps {
            for sh in &shapes {
                for ty in [Ty::F64, Ty::F32] {
                    v.push(Tx { sig: Sig { shape: sh.clone(), exp: 0 }, ..Tx::new(p.clone(), ty, 0) });
                }
            }
        }
    }
    for n in BFLY {
        for s in 0..200 {
            v.extend(Tx::both(B(n), s));
        }
    }
    for n in [10, 33, 100, 333] {
        for s in 0..10 {
            v.extend(Tx::both(Naive(n), s));
        }
    }
    v
}
fn c18_gen(r: &mut TestRng, t: Tier) -> Tx {
    let p = match below(r, 10) {
        0..=3 => gen_with_user(r, t.pick(30_000, 300_000), false),
        4..=6 => {
            let max = [100, 1000, 10_000][below(r, 3)];
            gen_plan(r, &GenCfg { naive: 40, ..GenCfg::lib(max) })
        }
        7 => R4(range(r, 0, t.pick(16, 20)) as u32),
        8 => B(BFLY[below(r, 9)]),
        _ => Naive(log_range(r, 1, 600)),
    };
    let n = p.len();
    let mut c = Tx::gen(r, p);
    c.batch = (2000 / n).clamp(1, 4);
    c
}
// ---------- C21 magnitude
fn c21_sys(_t: Tier) -> Vec<Tx> {
    let mut v = vec![];
    for p in zoo(2) {
        for (ty, exps) in [(Ty::F64, [-900, -300, -60, 60, 300, 900]), (Ty::F32, [-80, -60, -30, 30, 60, 85])] {
            for e in exps {
                v.push(Tx { sig: Sig { shape: Shape::Uniform(3), exp: e }, ..Tx::new(p.clone(), ty, 0) });
                v.push(Tx { sig: Sig { shape: Shape::Impulse(1), exp: e }, ..Tx::new(p.clone(), ty, 0) });
            }
            for shape in [Shape::Zero, Shape::Sparse(3), Shape::Ints(4), Shape::Const, Shape::Alt] {
                v.push(Tx { sig: Sig { shape, exp: 0 }, ..Tx::new(p.clone(), ty, 0) });
            }
        }
    }
    v
}
fn c21_gen(r: &mut TestRng, t: Tier) -> Tx {
    let max = [60, 400, t.pick(4000, 40_000)][below(r, 3)];
    let p = if chance(r, 30) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg::lib(max)) };
    let mut c = Tx::gen(r, p);
    // from near the bottom of the range (subnormal for short transforms) to as large as sums of n terms allow
    let l = (c.plan.len() as f64).log2().ceil() as i32 + 5 + c.sig.bits();
    let small = c.plan.len() <= 100;
    let (lo, hi) = match c.ty {
        Ty::F64 => (if small { -1060 } else { -1000 }, 1024 - l),
        Ty::F32 => (if small { -136 } else { -100 }, 128 - l),
    };
    let e = if chance(r, 30) { if chance(r, 50) { lo + below(r, 60) as i32 } else { hi - below(r, 60) as i32 } } else { lo + below(r, (hi - lo) as usize) as i32 };
    // keep |x|*n representable and the smallest product normal
    c.sig.exp = e;
    if let Shape::Wide(s) = c.sig.shape {
        c.sig.shape = Shape::Uniform(s);
    }
    c
}

pub fn all() -> Vec<Correct> {
    vec![
        Correct { id: "C01", rule: "enumerated: every naive length up to the bound, every butterfly x batch 1..40 x every impulse; random: kernel x signal family x batch x element type x prior buffer contents. Non-trivial: length > 1 and a non-zero signal.", sys: c01_sys, n: (300_000, 3_000_000), make: c01_gen, tight: 1.0 },
        Correct { id: "C02", rule: "enumerated: every power of two up to the bound (dense signals, batches, all impulses up to 512); random: power x signal family x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c02_sys, n: (60_000, 200_000), make: c02_gen, tight: 1.0 },
        Correct { id: "C03", rule: "enumerated: every quarter length up to the bound over user-supplied inners, and library-only split-radix chains; random: quarter length (log-uniform) x inner kind x signal x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c03_sys, n: (36_000, 200_000), make: c03_gen, tight: 1.0 },
        Correct { id: "C04", rule: "enumerated: widths 2..6 x every height up to the bound; random: width x height (log-uniform) x inner kind x signal x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c04_sys, n: (22_000, 150_000), make: c04_gen, tight: 1.0 },
        Correct { id: "C05", rule: "enumerated: every width x height pair up to the bound and skewed shapes; random: width x height (log-uniform, either skew) x inner kind x signal x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c05_sys, n: (11_000, 100_000), make: c05_gen, tight: 1.0 },
        Correct { id: "C06", rule: "enumerated: every prime up to the bound, primes with extreme primitive roots or factor structure, primes beyond 2^16 and 10^6; random: prime (log-uniform) x inner kind x signal x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c06_sys, n: (6_000, 30_000), make: c06_gen, tight: 1.0 },
        Correct { id: "C07", rule: "enumerated: every composing algorithm over every small library transform; random: trees of library algorithms up to depth 7 over random lengths (smooth, prime, power of two, arbitrary) x signal x batch x element type. Non-trivial: length > 1 and a non-zero signal.", sys: c07_sys, n: (80_000, 800_000), make: c07_gen, tight: 1.0 },
        Correct { id: "C18", rule: "enumerated: every algorithm at eight or more sizes x six signal families (offset, wide dynamic range, tone, ...) x element type; random: plan x signal. Error must stay within the calibrated bound, linear in algorithm depth. Non-trivial: length > 1 and a non-zero signal.", sys: c18_sys, n: (24_000, 150_000), make: c18_gen, tight: 0.45 },
        Correct { id: "C21", rule: "enumerated: every algorithm x magnitudes 2^-900..2^900 (f64) and 2^-80..2^85 (f32), zero, sparse and integer signals; random: plan x signal x magnitude. Non-trivial: length > 1 and a non-zero signal.", sys: c21_sys, n: (200_000, 2_000_000), make: c21_gen, tight: 1.0 },
    ]
}
