pub mod algebra;
pub mod calls;
pub mod correct;
pub mod mem;
pub mod misc;
pub mod state;

use crate::core::*;
use crate::elem::Elem;
use crate::oracle;
use crate::plan::*;
use crate::runner::{Info, Outcome};
use crate::signal::*;
use proptest::test_runner::TestRng;
use serde::{Deserialize, Serialize};

/// one transform applied to one batch
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tx {
    pub plan: Plan,
    pub ty: Ty,
    pub sig: Sig,
    pub batch: usize,
    pub fill: Fill,
}
impl Tx {
    pub fn new(plan: Plan, ty: Ty, seed: u64) -> Tx {
        Tx { plan, ty, sig: Sig::dense(seed), batch: 1, fill: Fill::Nan }
    }
    /// both element types
    pub fn both(plan: Plan, seed: u64) -> [Tx; 2] {
        [Tx::new(plan.clone(), Ty::F64, seed), Tx::new(plan, Ty::F32, seed)]
    }
    pub fn gen(r: &mut TestRng, plan: Plan) -> Tx {
        let n = plan.len();
        let batch = if chance(r, 60) {
            1
        } else if chance(r, 10) {
            let cap = (12_288 / n.max(1)).clamp(1, 300);
            range(r, 1, cap.max(2))
        } else {
            let cap = (4096 / n.max(1)).clamp(1, 12);
            range(r, 1, cap.max(2))
        };
        Tx { plan, ty: gen_ty(r), sig: Sig::gen(r), batch, fill: FILLS[below(r, FILLS.len())] }
    }
    pub fn shrink(&self) -> Vec<Tx> {
        let mut v = vec![];
        if self.batch > 1 {
            v.push(Tx { batch: 1, ..self.clone() });
            v.push(Tx { batch: self.batch / 2, ..self.clone() });
            v.push(Tx { batch: self.batch - 1, ..self.clone() });
        }
        v.extend(self.plan.shrink().into_iter().map(|plan| Tx { plan, ..self.clone() }));
        v.extend(self.sig.shrink().into_iter().map(|sig| Tx { sig, ..self.clone() }));
        if self.fill != Fill::Zero {
            v.push(Tx { fill: Fill::Zero, ..self.clone() });
        }
        if self.ty == Ty::F32 {
            v.push(Tx { ty: Ty::F64, ..self.clone() });
        }
        v
    }
}
pub fn gen_ty(r: &mut TestRng) -> Ty {
    if chance(r, 50) { Ty::F64 } else { Ty::F32 }
}
macro_rules! with_ty {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            crate::core::Ty::F32 => {
                type $T = f32;
                $e
            }
            crate::core::Ty::F64 => {
                type $T = f64;
                $e
            }
        }
    };
}
pub(crate) use with_ty;

/// expected outputs of every chunk, per component
pub fn expected<T: Elem>(n: usize, x: &[T]) -> Vec<Vec<Vec<f64>>> {
    x.chunks(n).map(|ch| (0..T::NC).map(|c| oracle::dht_ref(&comp(ch, c))).collect()).collect()
}
pub fn check_expected<T: Elem>(n: usize, x: &[T], y: &[T], e: &[Vec<Vec<f64>>], err: f64) -> Result<(), String> {
    if x.len() != y.len() {
        return Err("output length differs".into());
    }
    for (i, (a, b)) in x.chunks(n).zip(y.chunks(n)).enumerate() {
        for c in 0..T::NC {
            check_against::<T>(&comp(a, c), &comp(b, c), &e[i][c], err).map_err(|m| format!("chunk {} of {}: {}", i, x.len() / n, m))?;
        }
    }
    Ok(())
}
/// the transform's output, through all three entry points, is the DHT of the input
pub fn check_tx<T: Elem>(c: &Tx, tight: f64) -> Outcome {
    let d = build::<T>(&c.plan)?;
    let n = c.plan.len();
    let x: Vec<T> = c.sig.batch(n, c.batch);
    let e = expected(n, &x);
    if calib() {
        CTX.with(|k| *k.borrow_mut() = (c.plan.kind().to_string(), serde_json::to_string(c).unwrap()));
    }
    for api in APIS {
        let y = call(&*d, api, &x, 0, c.fill)?;
        check_expected(n, &x, &y, &e, tight * c.plan.err(T::EPS)).map_err(|m| format!("{:?}/{:?} {}", c.ty, api, m))?;
    }
    Ok(Info { nontrivial: nontrivial_tx(c), labels: labels(&c.plan, c.ty), calls: 3 })
}
pub fn nontrivial_tx(c: &Tx) -> bool {
    c.plan.len() > 1 && c.sig.shape != Shape::Zero
}
pub fn labels(p: &Plan, ty: Ty) -> Vec<String> {
    let n = p.len();
    vec![
        format!("{}", p.kind()),
        format!("{:?}", ty),
        format!("len<=10^{}", (n as f64).log10().ceil() as i32),
        format!("depth {}", p.depth().min(7)),
    ]
}
/// one small plan of every algorithm (library leaves only)
pub fn zoo(scale: usize) -> Vec<Plan> {
    let b = |p| Box::new(p);
    let mut v: Vec<Plan> = BFLY.iter().map(|&n| Plan::B(n)).collect();
    v.push(Plan::Naive(7));
    v.push(Plan::Naive(12));
    for p in 0..=8 {
        v.push(Plan::R4(p));
    }
    for k in 2..=6 {
        for h in [1, 2, 3, 4, 5, 8, 9] {
            v.push(Plan::X(k, b(simple(h))));
        }
    }
    for (w, h) in [(1, 1), (2, 3), (3, 2), (4, 4), (5, 7), (6, 9), (9, 4)] {
        v.push(Plan::Mixed(b(simple(w)), b(simple(h))));
    }
    for w in [1, 2, 3, 5, 8] {
        v.push(Plan::Square(b(simple(w))));
    }
    for q in [1, 2, 3, 4, 5, 8, 9] {
        v.push(Plan::Split(b(simple(q)), b(simple(2 * q))));
    }
    for p in [2, 3, 5, 7, 11, 13, 17, 31] {
        v.push(Plan::Raders(b(simple(p - 1))));
    }
    if scale > 1 {
        for k in 2..=6 {
            v.push(Plan::X(k, b(Plan::R4(5))));
            v.push(Plan::X(k, b(Plan::Raders(b(Plan::Naive(10))))));
        }
        v.push(Plan::Mixed(b(Plan::X(2, b(Plan::B(9)))), b(Plan::Split(b(Plan::B(3)), b(Plan::B(6))))));
        v.push(Plan::Split(b(Plan::R4(4)), b(Plan::R4(5))));
        v.push(Plan::Raders(b(Plan::Mixed(b(Plan::B(5)), b(Plan::B(8))))));
    }
    v
}
/// a long transform (user-supplied inners): size-dependent behaviour
pub fn gen_big(r: &mut TestRng, max: usize) -> Plan {
    let lo = (max / 40).max(2) as f64;
    let n = (lo.ln() + ((max as f64).ln() - lo.ln()) * below(r, 1000) as f64 / 1000.0).exp() as usize;
    let u = |n: usize| Box::new(user(n));
    match below(r, 10) {
        0..=4 => {
            let k = range(r, 2, 6);
            Plan::X(k, u(n / k + 1))
        }
        5 => Plan::Split(u(n / 4 + 1), u(2 * (n / 4 + 1))),
        6 => {
            let w = range(r, 1, (n as f64).sqrt() as usize + 1);
            let h = n / w + 1;
            if chance(r, 50) { Plan::Mixed(u(w), u(h)) } else { Plan::Mixed(u(h), u(w)) }
        }
        7 => {
            let w = (n as f64).sqrt() as usize + 1;
            Plan::Square(u(w))
        }
        8 => Plan::R4((n as f64).log2() as u32),
        _ => Plan::Raders(u(prev_prime(n.max(2)) - 1)),
    }
}
/// is `p` a composite with at least one user-supplied transform directly inside
pub fn gen_with_user(r: &mut TestRng, max: usize, greedy: bool) -> Plan {
    let u = |r: &mut TestRng, n: usize| -> Box<Plan> {
        if chance(r, 6) && n <= 400 {
            return Box::new(Plan::Wrap(Box::new(gen_exact(r, n, &GenCfg { naive: 64, ..GenCfg::lib(max) }, 3))));
        }
        Box::new(if chance(r, 85) { gen_user(r, n, greedy) } else { gen_exact(r, n, &GenCfg::with_user(max, 40, greedy), 2) })
    };
    match below(r, 10) {
        0..=4 => {
            let k = range(r, 2, 6);
            let h = range(r, 1, (max / k).max(1));
            Plan::X(k, u(r, h))
        }
        5 if chance(r, 20) => {
            let w = range(r, 1, (max as f64).sqrt() as usize);
            Plan::Square(u(r, w))
        }
        5 | 6 => {
            let w = range(r, 1, (max as f64).sqrt() as usize);
            let h = range(r, 1, max / w);
            Plan::Mixed(u(r, w), u(r, h))
        }
        7 | 8 => {
            let q = range(r, 1, max / 4);
            Plan::Split(u(r, q), u(r, 2 * q))
        }
        _ => {
            let p = prev_prime(range(r, 2, max));
            Plan::Raders(u(r, p - 1))
        }
    }
}
