//! C17 construction domain, C19 user-defined element types, C20 cost.
use super::*;
use crate::elem::{Dual, Fixed, Hooked, Odd12, Single, Tagged, Wide, OPS};
use crate::runner::{Prop, Tier};
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::Length;
use std::sync::Arc;

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ctor {
    Radix4(usize),
    /// inner length
    Raders(usize),
    /// quarter, half
    Split(usize, usize),
    /// anything else is always accepted
    Any(Plan),
    /// zero-length naive transform on empty buffers
    Empty,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CtorCase {
    c: Ctor,
    ty: Ty,
}
pub struct Construct;
impl Prop for Construct {
    type Case = CtorCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "constructor x argument lengths, exhaustive up to the bound and random beyond; must be accepted exactly when the algorithm is defined there, and then report the right length and transform correctly. Non-trivial: length argument > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<CtorCase> {
        let mut v = vec![];
        let mut put = |c: Ctor, s: usize| v.push(CtorCase { c, ty: if s % 2 == 0 { Ty::F64 } else { Ty::F32 } });
        for n in 0..=t.pick(5000, 20_000) {
            put(Ctor::Radix4(n), n);
        }
        for p in 3..=t.pick(23u32, 25) {
            for d in [-2i64, -1, 0, 1, 2, 3, 4, 8, 16] {
                put(Ctor::Radix4(((1i64 << p) + d) as usize), p as usize);
            }
            put(Ctor::Radix4(3 << (p - 1)), 0);
            put(Ctor::Radix4(5 << (p - 2)), 0);
        }
        for m in 0..=t.pick(4000, 12_000) {
            put(Ctor::Raders(m), m);
        }
        // composites that fool weak primality tests: Carmichael numbers, strong pseudoprimes, prime squares, semiprimes
        for c in [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 2047, 3277, 4033, 4681, 8321, 15841, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 66049, 63001, 72361, 77837, 341, 645, 1387, 1905] {
            put(Ctor::Raders(c - 1), c);
        }
        // strong pseudoprimes to several small bases at once, squares and products of primes further up, large primes
        for c in [1_373_653, 1_530_787, 1_987_021, 2_284_453, 3_116_107, 25_326_001, 1_018_081, 1_022_117, 4_202_501, 999_983, 1_299_709, 2_097_143] {
            put(Ctor::Raders(c - 1), c);
        }
        for q in 0..=t.pick(60, 150) {
            for h in 0..=t.pick(125, 310) {
                put(Ctor::Split(q, h), q + h);
            }
        }
        for (i, p) in zoo(2).into_iter().enumerate() {
            put(Ctor::Any(p), i);
        }
        for w in 1..=24 {
            for h in 1..=24 {
                put(Ctor::Any(Plan::Mixed(Box::new(user(w)), Box::new(user(h)))), w + h);
            }
        }
        for h in 1..=500 {
            for k in 2..=6 {
                put(Ctor::Any(Plan::X(k, Box::new(user(h)))), h);
            }
            put(Ctor::Any(Plan::Naive(h)), h);
        }
        put(Ctor::Empty, 0);
        put(Ctor::Empty, 1);
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(60_000, 600_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> CtorCase {
        let ty = gen_ty(r);
        let c = match below(r, 6) {
            0 => Ctor::Radix4({
                let p = range(r, 1, 17);
                match below(r, 3) {
                    0 => 1 << p,
                    1 => (1usize << p) + range(r, 0, 6) - 1,
                    _ => range(r, 0, 1 << p),
                }
            }),
            1 | 2 => Ctor::Raders({
                let m = range(r, 1, t.pick(60_000, 1_000_000));
                if chance(r, 40) { prev_prime(m + 1) - 1 } else { m }
            }),
            3 => {
                let q = range(r, 1, 2000);
                Ctor::Split(q, if chance(r, 50) { 2 * q } else { (2 * q + range(r, 0, 4)).saturating_sub(2).max(1) })
            }
            _ => Ctor::Any({
                let max = [40, 400, 4000][below(r, 3)];
                if chance(r, 40) { gen_with_user(r, max, true) } else { gen_plan(r, &GenCfg::lib(max)) }
            }),
        };
        CtorCase { c, ty }
    }
    fn shrink(&self, c: &CtorCase) -> Vec<CtorCase> {
        let mk = |x: Ctor| CtorCase { c: x, ty: c.ty };
        match &c.c {
            Ctor::Radix4(n) => [n / 2, n.saturating_sub(1)].iter().filter(|m| *m < n).map(|m| mk(Ctor::Radix4(*m))).collect(),
            Ctor::Raders(n) => [n / 2, n.saturating_sub(1)].iter().filter(|m| *m < n).map(|m| mk(Ctor::Raders(*m))).collect(),
            Ctor::Split(q, h) => {
                let mut v = vec![];
                if *q > 1 {
                    v.push(mk(Ctor::Split(q / 2, (h - (h % 2)) / 2 + h % 2)));
                    v.push(mk(Ctor::Split(q - 1, h.saturating_sub(2))));
                    v.push(mk(Ctor::Split(q - 1, *h)));
                }
                if *h > 1 {
                    v.push(mk(Ctor::Split(*q, h - 1)));
                }
                v
            }
            Ctor::Any(p) => p.shrink().into_iter().map(|p| mk(Ctor::Any(p))).collect(),
            Ctor::Empty => vec![],
        }
    }
    fn check(&self, c: &CtorCase) -> Outcome {
        with_ty!(c.ty, T => {
            let leaf = |n: usize| -> Arc<dyn Dht<T>> { if n == 0 { Arc::new(DhtNaive::new(0)) } else { user(n).build() } };
            let (name, made, ok, plan): (&str, Result<Arc<dyn Dht<T>>, String>, bool, Option<Plan>) = match &c.c {
                Ctor::Radix4(n) => ("radix-4", guard(|| Arc::new(Radix4::<T>::new(*n)) as Arc<dyn Dht<T>>), n.is_power_of_two(), Some(*n).filter(|n| n.is_power_of_two()).map(|n| Plan::R4(n.trailing_zeros()))),
                Ctor::Raders(m) => ("Rader", guard(|| Arc::new(RadersAlgorithm::new(leaf(*m))) as Arc<dyn Dht<T>>), is_prime(m + 1), Some(Plan::Raders(Box::new(user((*m).max(1)))))),
                Ctor::Split(q, h) => {
                    if *q == 0 || *h == 0 {
                        // zero-length inners: outside the claimed domain unless the lengths mismatch
                        if 2 * q == *h {
                            return Ok(Info::default());
                        }
                    }
                    ("split-radix", guard(|| Arc::new(SplitRadix::new(leaf(*q), leaf(*h))) as Arc<dyn Dht<T>>), 2 * q == *h, Some(Plan::Split(Box::new(user((*q).max(1))), Box::new(user((*h).max(1))))))
                }
                Ctor::Any(p) => (p.kind(), guard(|| p.build::<T>()), true, Some(p.clone())),
                Ctor::Empty => {
                    let d = guard(|| DhtNaive::<T>::new(0)).map_err(|m| format!("zero-length naive transform cannot be built: {}", m))?;
                    if d.len() != 0 {
                        return Err("zero-length transform reports a length".into());
                    }
                    guard(|| {
                        d.process(&mut []);
                        d.process_with_scratch(&mut [], &mut []);
                        d.process_outofplace_with_scratch(&mut [], &mut [], &mut []);
                    }).map_err(|m| format!("zero-length transform panicked on empty buffers: {}", m))?;
                    return Ok(Info { nontrivial: false, labels: vec!["empty".into()], calls: 3 });
                }
            };
            match (made, ok) {
                (Ok(_), false) => Err(format!("{} constructor accepted {:?}, for which the algorithm is not defined", name, c.c)),
                (Err(m), true) => Err(format!("{} constructor rejected {:?}: {}", name, c.c, m)),
                (Err(_), false) => Ok(Info { nontrivial: true, labels: vec![name.into(), "rejected".into()], calls: 1 }),
                (Ok(d), true) => {
                    let plan = plan.unwrap();
                    let n = plan.len();
                    if d.len() != n {
                        return Err(format!("{} transform built from {:?} reports length {} instead of {}", name, c.c, d.len(), n));
                    }
                    if n <= 3000 {
                        let x: Vec<T> = Sig::dense(3).batch(n, 1);
                        let y = call(&*d, Api::Process, &x, 0, Fill::Nan)?;
                        check_batch(n, &x, &y, plan.err(T::EPS))?;
                    }
                    Ok(Info { nontrivial: n > 1, labels: vec![name.into(), "accepted".into()], calls: 2 })
                }
            }
        })
    }
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum User {
    Dual,
    Tagged,
    Hooked,
    Single,
    Odd12,
    Wide,
    Fixed,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct GenericCase {
    tx: Tx,
    user: User,
}
pub struct Generic;
/// A long prime-length step scales a table down by its length and the sums up again: fixed-point numbers lose
/// their low bits there, as they must.
fn long_prime(p: &Plan) -> bool {
    (matches!(p, Plan::Raders(_)) && p.len() > 40) || p.children().iter().any(|c| long_prime(c))
}
impl Prop for Generic {
    type Case = GenericCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "plan x signal x batch x user-defined element type: 16-byte dual numbers (product not component-wise), a 32-byte over-aligned type that panics on any value its own operations did not make, a 12-byte single-precision dual number with an integrity word, a 4-byte type, a 64-byte type, a fixed-point type (integers: no NaN, no exponent), and an operator-instrumented wrapper. Every component must be transformed, all entry points. Non-trivial: length > 1 and a non-zero signal."
    }
    fn systematic(&self, t: Tier) -> Vec<GenericCase> {
        let mut v = vec![];
        let mut put = |p: Plan, b: usize| {
            for user in [User::Dual, User::Tagged, User::Hooked, User::Single, User::Odd12, User::Wide, User::Fixed] {
                if user == User::Fixed && long_prime(&p) {
                    continue;
                }
                v.push(GenericCase { tx: Tx { batch: b, fill: Fill::Noise, ..Tx::new(p.clone(), Ty::F64, b as u64) }, user });
            }
        };
        for p in zoo(2) {
            put(p.clone(), 1);
            put(p, 3);
        }
        for h in 1..=t.pick(120, 500) {
            let u = |n: usize| Box::new(user(n));
            for k in 2..=6 {
                put(Plan::X(k, u(h)), 1);
            }
            put(Plan::Split(u(h), u(2 * h)), 1);
            put(Plan::Mixed(u(h), u(5)), 1);
            put(Plan::Mixed(u(4), u(h)), 1);
            put(Plan::Naive(h), 1);
            if is_prime(h) {
                put(Plan::Raders(u(h - 1)), 1);
            }
        }
        for p in 9..=t.pick(13, 16) {
            put(Plan::R4(p), 1);
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(180_000, 1_800_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> GenericCase {
        let max = [40, 300, t.pick(3000, 30_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 60_000) } else if chance(r, 30) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) }) };
        let mut tx = Tx::gen(r, p);
        tx.ty = Ty::F64;
        let mut user = [User::Dual, User::Dual, User::Tagged, User::Hooked, User::Single, User::Odd12, User::Wide, User::Fixed][below(r, 8)];
        if user == User::Fixed && long_prime(&tx.plan) {
            user = User::Wide;
        }
        if user == User::Fixed {
            // keep every sum within the fixed-point range
            if let Shape::Wide(s) = tx.sig.shape {
                tx.sig.shape = Shape::Uniform(s);
            }
            tx.sig.exp = -tx.sig.bits();
        }
        GenericCase { tx, user }
    }
    fn shrink(&self, c: &GenericCase) -> Vec<GenericCase> {
        c.tx.shrink().into_iter().map(|tx| GenericCase { tx, user: c.user }).collect()
    }
    fn check(&self, c: &GenericCase) -> Outcome {
        let mut i = match c.user {
            User::Dual => check_tx::<Dual>(&c.tx, 1.0),
            User::Tagged => check_tx::<Tagged>(&c.tx, 1.0),
            User::Hooked => check_tx::<Hooked>(&c.tx, 1.0),
            User::Single => check_tx::<Single>(&c.tx, 1.0),
            User::Odd12 => check_tx::<Odd12>(&c.tx, 1.0),
            User::Wide => check_tx::<Wide>(&c.tx, 1.0),
            User::Fixed => check_tx::<Fixed>(&c.tx, 1.0),
        }?;
        i.labels = vec![c.tx.plan.kind().into(), format!("{:?}", c.user)];
        Ok(i)
    }
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CostCase {
    plan: Plan,
    api: Api,
    batch: usize,
}
pub struct Cost;
/// bound on the arithmetic operations of one transform
pub fn bound(p: &Plan) -> f64 {
    let n = p.len() as f64;
    match p {
        Plan::Naive(_) => 4.0 * n * n + 8.0,
        Plan::B(k) => 2.0 * [0.0, 0.0, 2.0, 12.0, 8.0, 40.0, 36.0, 0.0, 30.0, 110.0, 100.0][(*k).min(10)] + 8.0 + if *k == 16 { 60.0 } else { 0.0 },
        Plan::R4(b) => n * (4.0 * *b as f64 + 12.0) + 16.0,
        Plan::Split(q, h) => 2.0 * bound(q) + bound(h) + 10.0 * n + 16.0,
        Plan::Mixed(a, b) => b.len() as f64 * bound(a) + a.len() as f64 * bound(b) + 12.0 * n + 16.0,
        Plan::Square(a) => 2.0 * a.len() as f64 * bound(a) + 12.0 * n + 16.0,
        Plan::Wrap(a) => bound(a),
        Plan::X(k, h) => *k as f64 * bound(h) + 16.0 * n + 32.0,
        Plan::Raders(i) => 2.0 * bound(i) + 16.0 * n + 16.0,
        Plan::Ref(_) => 0.0,
    }
}
impl Prop for Cost {
    type Case = CostCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "plan x entry point; arithmetic operations on the element type are counted by an instrumented number type, and elements handed to user-supplied inner transforms are counted by them. Non-trivial: length >= 16."
    }
    fn systematic(&self, t: Tier) -> Vec<CostCase> {
        let mut v = vec![];
        let mut put = |plan: Plan| {
            for api in APIS {
                let batch = if plan.len() <= 300 && plan.len() % 3 == 0 { 3 } else { 1 };
                v.push(CostCase { plan: plan.clone(), api, batch });
            }
        };
        for p in zoo(2) {
            put(p);
        }
        for p in 0..=t.pick(18, 21) {
            put(Plan::R4(p));
        }
        let u = |n: usize| Box::new(user(n));
        for h in 1..=t.pick(700, 3000) {
            for k in 2..=6 {
                put(Plan::X(k, u(h)));
            }
            put(Plan::Split(u(h), u(2 * h)));
            if is_prime(h) {
                put(Plan::Raders(u(h - 1)));
            }
        }
        for w in 1..=t.pick(32, 80) {
            for h in 1..=t.pick(32, 80) {
                put(Plan::Mixed(u(w), u(h)));
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(80_000, 800_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> CostCase {
        let max = [60, 1000, t.pick(20_000, 100_000)][below(r, 3)];
        let plan = if chance(r, 1) { gen_big(r, 150_000) } else if chance(r, 50) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg { naive: 30, ..GenCfg::lib(max) }) };
        let batch = if plan.len() <= 1000 { range(r, 1, 6) } else { 1 };
        CostCase { plan, api: APIS[below(r, 3)], batch }
    }
    fn shrink(&self, c: &CostCase) -> Vec<CostCase> {
        let mut v: Vec<CostCase> = c.plan.shrink().into_iter().map(|plan| CostCase { plan, ..c.clone() }).collect();
        if c.batch > 1 {
            v.insert(0, CostCase { batch: 1, ..c.clone() });
            v.insert(1, CostCase { batch: c.batch - 1, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &CostCase) -> Outcome {
        let d = build::<Hooked>(&c.plan)?;
        let n = c.plan.len();
        let x: Vec<Hooked> = Sig::dense(1).batch(n, c.batch);
        OPS.with(|o| o.set(0));
        ELEMS.with(|o| o.set(0));
        call(&*d, c.api, &x, 0, Fill::Zero)?;
        let ops = OPS.with(|o| o.get()) as f64;
        let el = ELEMS.with(|o| o.get());
        let lim = c.batch as f64 * bound(&c.plan);
        if calib() && lim > 0.0 {
            let mut g = CALIB.lock().unwrap();
            let e = g.entry(c.plan.kind().into()).or_insert((0.0, String::new()));
            if ops / lim > e.0 {
                *e = (ops / lim, format!("{:?} {} {}", c, ops, lim));
            }
        }
        if ops > lim {
            return Err(format!("{:?}: {} transform(s) of length {} took {} arithmetic operations, more than the bound {}", c.api, c.batch, n, ops, lim));
        }
        // elements that pass through the user's inner transforms
        fn inner(p: &Plan) -> u64 {
            match p {
                Plan::Ref(s) => s.n as u64,
                Plan::X(k, h) => *k as u64 * inner(h),
                Plan::Mixed(a, b) => b.len() as u64 * inner(a) + a.len() as u64 * inner(b),
                Plan::Square(a) => 2 * a.len() as u64 * inner(a),
                Plan::Wrap(a) => inner(a),
                Plan::Split(q, h) => 2 * inner(q) + inner(h),
                Plan::Raders(i) => 2 * inner(i),
                _ => 0,
            }
        }
        let want = c.batch as u64 * inner(&c.plan);
        if el > want {
            return Err(format!("{:?}: {} transform(s) of length {} pushed {} elements through the inner transforms, the decomposition needs {}", c.api, c.batch, n, el, want));
        }
        Ok(Info { nontrivial: n >= 16, labels: vec![c.plan.kind().into(), format!("{:?}", c.api)], calls: 1 })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["only arithmetic on the element type is counted, not index arithmetic, copies or construction"]
    }
}

// ------------------------------------------------------------------ C24
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BadData {
    tx: Tx,
    /// (chunk, element) that gets a non-finite value
    at: (usize, usize),
    /// 0 NaN, 1 +inf, 2 -inf
    what: u8,
}
pub struct NonFinite;
impl Prop for NonFinite {
    type Case = BadData;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "plan x signal x batch x position of one non-finite sample x entry point; the sum of the chunk (its output 0) must come out non-finite, and the call must return. Non-trivial: length > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<BadData> {
        let mut v = vec![];
        for p in zoo(2) {
            let n = p.len();
            for i in 0..n.min(t.pick(70, 400)) {
                for what in 0..3 {
                    let ty = if (i + what as usize) % 2 == 0 { Ty::F64 } else { Ty::F32 };
                    v.push(BadData { tx: Tx { batch: 1 + i % 3, ..Tx::new(p.clone(), ty, 1) }, at: (i % 2, i), what });
                }
            }
        }
        let u = |n: usize| Box::new(user(n));
        for h in [7, 10, 16, 21] {
            let mut ps: Vec<Plan> = (2..=6).map(|k| Plan::X(k, u(h))).collect();
            ps.extend([Plan::Split(u(h), u(2 * h)), Plan::Mixed(u(h), u(6)), Plan::Mixed(u(5), u(h))]);
            ps.push(Plan::Raders(u(prev_prime(h) - 1)));
            for p in ps {
                for i in 0..p.len() {
                    v.push(BadData { tx: Tx::new(p.clone(), Ty::F64, 1), at: (0, i), what: (i % 3) as u8 });
                }
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(120_000, 1_200_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> BadData {
        let max = [40, 300, t.pick(3000, 30_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 60_000) } else if chance(r, 35) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) }) };
        let n = p.len();
        let tx = Tx::gen(r, p);
        let at = (below(r, tx.batch), below(r, n));
        BadData { tx, at, what: below(r, 3) as u8 }
    }
    fn shrink(&self, c: &BadData) -> Vec<BadData> {
        let mut v: Vec<BadData> = c.tx.shrink().into_iter().map(|tx| BadData { tx, ..c.clone() }).collect();
        for i in [0, c.at.1 / 2, c.at.1.saturating_sub(1)] {
            if i < c.at.1 {
                v.push(BadData { at: (c.at.0, i), ..c.clone() });
            }
        }
        if c.what > 0 {
            v.push(BadData { what: 0, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &BadData) -> Outcome {
        with_ty!(c.tx.ty, T => {
            let d = build::<T>(&c.tx.plan)?;
            let n = c.tx.plan.len();
            let mut x: Vec<T> = c.tx.sig.batch(n, c.tx.batch);
            let (b, i) = (c.at.0 % c.tx.batch, c.at.1 % n);
            x[b * n + i] = [T::NAN, T::INFINITY, T::NEG_INFINITY][c.what as usize % 3];
            for api in APIS {
                let y = call(&*d, api, &x, 0, Fill::Zero)?;
                if y[b * n].is_finite() {
                    return Err(format!("{:?}/{:?}: sample {} of chunk {} (length {}) is {:?}, yet the chunk's sum (output 0) comes out as the finite value {:?}", c.tx.ty, api, i, b, n, x[b * n + i], y[b * n]));
                }
            }
            Ok(Info { nontrivial: n > 1, labels: vec![c.tx.plan.kind().into(), ["NaN", "+inf", "-inf"][c.what as usize % 3].into()], calls: 3 })
        })
    }
}

// ------------------------------------------------------------------ C25
pub struct Modest;
/// (in-place, out-of-place) requirement a transform may advertise, from what its parts advertise
fn allowance<T: crate::elem::Elem>(p: &Plan) -> (usize, usize) {
    let n = p.len();
    let (mut ip, mut oop) = (0, 0);
    for c in p.children() {
        let d = c.build::<T>();
        ip = ip.max(d.get_inplace_scratch_len());
        oop = oop.max(d.get_outofplace_scratch_len());
    }
    (2 * n + 16 + ip + oop, n + 16 + ip + oop)
}
impl Prop for Modest {
    type Case = Tx;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "plan (library trees; composites over user inners of arbitrary requirement): the advertised lengths are compared with what the parts advertise plus a small multiple of the length, and asked again after valid calls, rejected calls, from another thread and on a second transform built the same way. Non-trivial: the plan has parts."
    }
    fn systematic(&self, t: Tier) -> Vec<Tx> {
        let mut v = vec![];
        for p in zoo(2) {
            v.extend(Tx::both(p, 1));
        }
        let u = |n: usize, i: usize, o: usize| Box::new(Plan::Ref(RefSpec { n, inp: i, oop: o, trash: true }));
        for h in (1..=t.pick(120, 500)).chain([1000, 1023, 1024, 1025, 4096, 10_000, 20_011, 65_537]) {
            let reqs = if h <= 40 { vec![(0, 0), (h, 0), (0, h), (3 * h, 5), (5, 3 * h), (20 * h, 30 * h)] } else { vec![(h, 0), (3 * h, 2 * h)] };
            for (i, o) in reqs {
                let ty = if h % 2 == 0 { Ty::F32 } else { Ty::F64 };
                for k in 2..=6 {
                    v.push(Tx::new(Plan::X(k, u(h, i, o)), ty, 1));
                }
                v.push(Tx::new(Plan::Split(u(h, i, o), u(2 * h, o, i)), ty, 1));
                v.push(Tx::new(Plan::Mixed(u(h, i, o), u(1 + h % 7, 3, 9)), ty, 1));
                v.push(Tx::new(Plan::Mixed(u(1 + h % 5, 9, 3), u(h, i, o)), ty, 1));
                if is_prime(h + 1) {
                    v.push(Tx::new(Plan::Raders(u(h, i, o)), ty, 1));
                }
            }
            if h <= 500 {
                v.push(Tx::new(Plan::Naive(h), Ty::F64, 1));
            }
        }
        for p in 9..=t.pick(18, 21) {
            v.extend(Tx::both(Plan::R4(p), 1));
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(120_000, 1_200_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> Tx {
        let max = [40, 300, t.pick(3000, 30_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 100_000) } else if chance(r, 40) { let g = chance(r, 60); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) }) };
        Tx::gen(r, p)
    }
    fn shrink(&self, c: &Tx) -> Vec<Tx> {
        c.shrink()
    }
    fn check(&self, c: &Tx) -> Outcome {
        with_ty!(c.ty, T => {
            let d = build::<T>(&c.plan)?;
            let n = c.plan.len();
            let ask = |d: &Arc<dyn Dht<T>>| guard(|| (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len())).map_err(|m| format!("asking for the scratch length panicked: {}", m));
            let first = ask(&d)?;
            let lim = guard(|| allowance::<T>(&c.plan))?;
            if first.0 > lim.0 || first.1 > lim.1 {
                return Err(format!("{:?}: a transform of length {} advertises scratch of {} in-place and {} out-of-place; the requirements of its parts and the length account for at most {} and {}", c.ty, n, first.0, first.1, lim.0, lim.1));
            }
            if first.0.max(first.1) > 1 << 26 {
                return Ok(Info { nontrivial: false, labels: vec!["too large to run".into()], calls: 0 });
            }
            let same = |when: &str, now: (usize, usize)| if now == first { Ok(()) } else { Err(format!("{:?}: a transform of length {} advertised scratch {:?} (in-place, out-of-place) but {:?} {}", c.ty, n, first, now, when)) };
            let x: Vec<T> = c.sig.batch(n, c.batch);
            for api in APIS {
                call(&*d, api, &x, 0, c.fill)?;
                same("after a call", ask(&d)?)?;
            }
            // rejected calls
            raw_call(&*d, Api::InPlace, &x, 0, first.0.saturating_sub(1), Fill::Zero);
            raw_call(&*d, Api::Process, &x[..n - 1], 0, 0, Fill::Zero);
            raw_call(&*d, Api::Oop, &x, n - 1, first.1, Fill::Zero);
            same("after rejected calls", ask(&d)?)?;
            if c.sig.exp % 8 == 0 {
                let d2 = d.clone();
                let now = std::thread::spawn(move || guard(|| (d2.get_inplace_scratch_len(), d2.get_outofplace_scratch_len()))).join().map_err(|_| "query panicked".to_string())??;
                same("in another thread", now)?;
            }
            let e = build::<T>(&c.plan)?;
            same("when built a second time", ask(&e)?)?;
            Ok(Info { nontrivial: !c.plan.children().is_empty(), labels: labels(&c.plan, c.ty), calls: 6 })
        })
    }
}
