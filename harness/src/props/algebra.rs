//! C15: the theorems of the Hartley transform. C22: interchangeable decompositions.
use super::*;
use crate::runner::{Prop, Tier};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct AlgCase {
    tx: Tx,
    other: Sig,
    shift: usize,
    a: f64,
    b: f64,
    api: Api,
}
pub struct Algebra;
fn cs(j: usize, n: usize) -> (f64, f64) {
    // cos and sin of 2 pi j / n from the two casoids
    let j = j % n;
    let (p, m) = (oracle::cas(j, n), oracle::cas((n - j) % n, n));
    ((p + m) / 2.0, (p - m) / 2.0)
}
impl Prop for Algebra {
    type Case = AlgCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "plan x two signals x shift x coefficients x entry point; relations between the library's own outputs: involution, Parseval, linearity, shift, reversal, impulse and constant response, circular convolution. Non-trivial: length > 2, both signals non-zero."
    }
    fn systematic(&self, t: Tier) -> Vec<AlgCase> {
        let mut v = vec![];
        let mk = |p: Plan, ty, s: usize| AlgCase { tx: Tx::new(p, ty, s as u64), other: Sig::dense(s as u64 + 1), shift: s, a: 0.75, b: -1.5, api: APIS[s % 3] };
        for p in zoo(2) {
            for s in 0..6 {
                v.push(mk(p.clone(), if s % 2 == 0 { Ty::F64 } else { Ty::F32 }, s));
            }
        }
        for p in 9..=t.pick(15u32, 20) {
            for s in 0..3 {
                v.push(mk(Plan::R4(p), Ty::F64, s));
            }
        }
        let u = |n: usize| Box::new(user(n));
        for h in 1..=t.pick(400, 1500) {
            // s odd and even: in-place and out-of-place
            for s in [3 * h + 1, 3 * h + 2] {
                let (a, b) = if (h + s) % 2 == 0 { (Ty::F64, Ty::F32) } else { (Ty::F32, Ty::F64) };
                for k in 2..=6 {
                    v.push(mk(Plan::X(k, u(h)), a, s));
                }
                v.push(mk(Plan::Split(u(h), u(2 * h)), b, s));
                v.push(mk(Plan::Mixed(u(h), u(1 + h % 19)), a, s));
                v.push(mk(Plan::Mixed(u(1 + h % 17), u(h)), b, s));
                if h <= 250 {
                    v.push(mk(Plan::Naive(h), Ty::F64, s));
                }
                if h <= 60 {
                    v.push(mk(Plan::Square(u(h)), b, s));
                }
            }
        }
        for w in 1..=t.pick(24, 60) {
            for h in 1..=t.pick(24, 60) {
                v.push(mk(Plan::Mixed(u(w), u(h)), Ty::F64, w + h));
                v.push(mk(Plan::Mixed(u(w), u(h)), Ty::F64, w + h + 1));
            }
        }
        for p in primes(2, t.pick(2000, 8000)) {
            v.push(mk(Plan::Raders(u(p - 1)), Ty::F64, 3 * p + 1));
            v.push(mk(Plan::Raders(u(p - 1)), Ty::F32, 3 * p + 2));
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(75_000, 700_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> AlgCase {
        let max = [50, 400, t.pick(6000, 60_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 150_000) } else if chance(r, 35) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg::lib(max)) };
        let n = p.len();
        let mut tx = Tx::gen(r, p);
        tx.batch = 1;
        let mut other = Sig::gen(r);
        tx.sig.exp /= 8;
        other.exp /= 8;
        AlgCase { tx, other, shift: below(r, n), a: unit(below(r, 1 << 20) as u64, 1) * 2.0, b: unit(below(r, 1 << 20) as u64, 2) * 2.0, api: APIS[below(r, 3)] }
    }
    fn shrink(&self, c: &AlgCase) -> Vec<AlgCase> {
        let mut v: Vec<AlgCase> = c.tx.shrink().into_iter().map(|tx| AlgCase { tx, ..c.clone() }).collect();
        v.extend(c.other.shrink().into_iter().map(|other| AlgCase { other, ..c.clone() }));
        if c.shift > 1 {
            v.push(AlgCase { shift: 1, ..c.clone() });
        }
        if c.a != 1.0 {
            v.push(AlgCase { a: 1.0, ..c.clone() });
        }
        if c.b != 1.0 {
            v.push(AlgCase { b: 1.0, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &AlgCase) -> Outcome {
        with_ty!(c.tx.ty, T => {
            let t = &c.tx;
            let n = t.plan.len();
            let d = build::<T>(&t.plan)?;
            let h = |x: &[T]| call(&*d, c.api, x, 0, t.fill);
            let x: Vec<T> = t.sig.fill(n, 0);
            let y: Vec<T> = c.other.fill(n, 1);
            let (fx, fy) = (comp(&x, 0), comp(&y, 0));
            let (hx, hy) = (h(&x)?, h(&y)?);
            let (gx, gy) = (comp(&hx, 0), comp(&hy, 0));
            let unit_err = K * t.plan.err(T::EPS);
            let rt = (n as f64).sqrt();
            let (nx, ny) = (norm(&fx), norm(&fy));
            let rel = |name: &str, want: &[f64], got: &[f64], tol: f64| -> Result<(), String> {
                close(want, got, tol).map_err(|(k, e)| format!("{:?}/{:?} length {}: {} fails at output {}: {:e}, expected {:e} (2-norm error {:.2e}, tolerance {:.2e})", t.ty, c.api, n, name, k, got[k], want[k], e, tol))
            };
            // involution
            let hh = comp(&h(&hx)?, 0);
            let want: Vec<f64> = fx.iter().map(|v| v * n as f64).collect();
            rel("H(H(x)) = N x", &want, &hh, 2.5 * unit_err * n as f64 * nx)?;
            // Parseval
            let nh = norm(&gx);
            if !((nh - rt * nx).abs() <= 1.5 * unit_err * rt * nx) {
                return Err(format!("{:?}/{:?} length {}: |H x| = {:e}, expected sqrt(N) |x| = {:e}", t.ty, c.api, n, nh, rt * nx));
            }
            // linearity
            let z: Vec<T> = fx.iter().zip(&fy).map(|(p, q)| T::of(c.a * p + c.b * q)).collect();
            let hz = comp(&h(&z)?, 0);
            let want: Vec<f64> = gx.iter().zip(&gy).map(|(p, q)| c.a * p + c.b * q).collect();
            rel("linearity", &want, &hz, (3.0 * unit_err + 4.0 * T::EPS) * rt * (c.a.abs() * nx + c.b.abs() * ny))?;
            // shift
            let s = c.shift % n;
            let sh: Vec<T> = (0..n).map(|i| x[(i + n - s) % n]).collect();
            let hs = comp(&h(&sh)?, 0);
            let want: Vec<f64> = (0..n).map(|k| {
                let (co, si) = cs((k as u128 * s as u128 % n as u128) as usize, n);
                gx[k] * co + gx[(n - k) % n] * si
            }).collect();
            rel("shift theorem", &want, &hs, 3.0 * unit_err * rt * nx)?;
            // reversal
            let rv: Vec<T> = (0..n).map(|i| x[(n - i) % n]).collect();
            let hr = comp(&h(&rv)?, 0);
            let want: Vec<f64> = (0..n).map(|k| gx[(n - k) % n]).collect();
            rel("reversal", &want, &hr, 2.5 * unit_err * rt * nx)?;
            // impulse response
            let im: Vec<T> = (0..n).map(|i| T::of(if i == s { 1.0 } else { 0.0 })).collect();
            let hi = comp(&h(&im)?, 0);
            let want: Vec<f64> = (0..n).map(|k| oracle::cas((k as u128 * s as u128 % n as u128) as usize, n)).collect();
            rel("impulse response", &want, &hi, (unit_err + 2.0 * T::EPS) * rt)?;
            // constant response
            let co: Vec<T> = vec![T::of(1.0); n];
            let hc = comp(&h(&co)?, 0);
            let want: Vec<f64> = (0..n).map(|k| if k == 0 { n as f64 } else { 0.0 }).collect();
            rel("constant response", &want, &hc, unit_err * n as f64)?;
            let mut calls = 8;
            // circular convolution
            if n <= 200 {
                let cv: Vec<f64> = (0..n).map(|m| (0..n).map(|i| fx[i] * fy[(m + n - i) % n]).sum()).collect();
                let zt: Vec<T> = cv.iter().map(|v| T::of(*v)).collect();
                let hz = comp(&h(&zt)?, 0);
                let want: Vec<f64> = (0..n).map(|k| {
                    let m = (n - k) % n;
                    0.5 * (gx[k] * (gy[k] + gy[m]) + gx[m] * (gy[k] - gy[m]))
                }).collect();
                rel("convolution theorem", &want, &hz, (4.0 * unit_err + 4.0 * T::EPS) * n as f64 * nx * ny * rt.max(1.0))?;
                calls += 1;
            }
            Ok(Info { nontrivial: n > 2 && nx > 0.0 && ny > 0.0, labels: labels(&t.plan, t.ty), calls })
        })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PairCase {
    a: Plan,
    b: Plan,
    ty: Ty,
    sig: Sig,
    api_a: Api,
    api_b: Api,
}
pub struct Pairs;
impl Prop for Pairs {
    type Case = PairCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "two independently generated decompositions of one random length (and width/height swaps) x signal x entry points x element type; outputs compared with each other. Non-trivial: the decompositions differ and length > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<PairCase> {
        let mut v = vec![];
        let b = |p: Plan| Box::new(p);
        let mut put = |a: Plan, c: Plan, s: usize| {
            for ty in [Ty::F64, Ty::F32] {
                for (api_a, api_b) in [(Api::InPlace, Api::Oop), (Api::Oop, Api::Process)] {
                    v.push(PairCase { a: a.clone(), b: c.clone(), ty, sig: Sig::dense(s as u64), api_a, api_b });
                }
            }
        };
        for p in 2..=t.pick(15u32, 20) {
            put(Plan::R4(p), Plan::X(2, b(Plan::R4(p - 1))), p as usize);
            put(Plan::R4(p), Plan::X(4, b(Plan::R4(p - 2))), p as usize + 1);
            put(Plan::R4(p), Plan::Split(b(Plan::R4(p - 2)), b(Plan::R4(p - 1))), p as usize + 2);
            put(Plan::R4(p), Plan::Mixed(b(Plan::R4(p / 2)), b(Plan::R4(p - p / 2))), p as usize + 3);
        }
        for h in (1..=t.pick(400, 1500)).chain([1000, 1024, 2048, 4096, 5000, 10_000, 16_384, 20_000, 32_768, 65_536, 65_537]) {
            for k in 2..=6 {
                put(Plan::X(k, b(user(h))), Plan::Mixed(b(simple(k)), b(user(h))), h + k);
            }
            put(Plan::Split(b(user(h)), b(user(2 * h))), Plan::X(4, b(user(h))), h);
            put(Plan::Mixed(b(user(h)), b(user(6))), Plan::Mixed(b(user(6)), b(user(h))), h);
        }
        for w in 1..=t.pick(24, 60) {
            for h in 1..=t.pick(24, 60) {
                put(Plan::Mixed(b(user(w)), b(user(h))), Plan::Mixed(b(user(h)), b(user(w))), h);
            }
        }
        for w in 1..=t.pick(80, 200) {
            put(Plan::Square(b(user(w))), user(w * w), w);
        }
        for p in primes(2, t.pick(600, 2000)) {
            put(Plan::Naive(p), Plan::Raders(b(user(p - 1))), p);
        }
        for p in primes(600, t.pick(3000, 12_000)) {
            put(user(p), Plan::Raders(b(user(p - 1))), p);
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(140_000, 1_200_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> PairCase {
        let max = [60, 600, t.pick(10_000, 100_000)][below(r, 3)];
        let a = if chance(r, 1) { gen_big(r, 150_000) } else if chance(r, 20) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg::lib(max)) };
        let n = a.len();
        let mut p = gen_exact(r, n, &GenCfg { naive: 128, ..GenCfg::lib(max) }, 0);
        if p.cost() > 2e7 {
            p = user(n);
        }
        PairCase { a, b: p, ty: gen_ty(r), sig: Sig::gen(r), api_a: APIS[below(r, 3)], api_b: APIS[below(r, 3)] }
    }
    fn shrink(&self, c: &PairCase) -> Vec<PairCase> {
        let n = c.a.len();
        let mut v = vec![];
        for p in c.a.shrink() {
            if p.len() == n {
                v.push(PairCase { a: p, ..c.clone() });
            } else if p.len() <= 4096 {
                v.push(PairCase { b: Plan::Naive(p.len()), a: p, ..c.clone() });
            }
        }
        for p in c.b.shrink() {
            if p.len() == n {
                v.push(PairCase { b: p, ..c.clone() });
            } else if p.len() <= 4096 {
                v.push(PairCase { a: Plan::Naive(p.len()), b: p, ..c.clone() });
            }
        }
        v.extend(c.sig.shrink().into_iter().map(|sig| PairCase { sig, ..c.clone() }));
        if c.ty == Ty::F32 {
            v.push(PairCase { ty: Ty::F64, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &PairCase) -> Outcome {
        with_ty!(c.ty, T => {
            let n = c.a.len();
            let (da, db) = (build::<T>(&c.a)?, build::<T>(&c.b)?);
            let x: Vec<T> = c.sig.fill(n, 0);
            let ya = comp(&call(&*da, c.api_a, &x, 0, Fill::Nan)?, 0);
            let yb = comp(&call(&*db, c.api_b, &x, 0, Fill::Nan)?, 0);
            let tol = K * (c.a.err(T::EPS) + c.b.err(T::EPS)) * norm(&comp(&x, 0)) * (n as f64).sqrt();
            close(&ya, &yb, tol).map_err(|(k, e)| format!("{:?}: two decompositions of length {} disagree at output {}: {:e} vs {:e} (2-norm difference {:.2e}, tolerance {:.2e})", c.ty, n, k, ya[k], yb[k], e, tol))?;
            Ok(Info { nontrivial: c.a != c.b && n > 1, labels: vec![c.a.kind().into(), c.b.kind().into(), format!("{:?}", c.ty)], calls: 2 })
        })
    }
}
