//! C08-C14: the calling contract.
use super::*;
use crate::runner::{Prop, Tier};

// ------------------------------------------------------------------ C08
pub struct Agree;
impl Prop for Agree {
    type Case = Tx;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "plan (library-only or with user inners) x signal x batch x element type; the three entry points, with minimal and generous scratch, are compared with each other. Non-trivial: length > 1, non-zero signal."
    }
    fn systematic(&self, t: Tier) -> Vec<Tx> {
        let mut v = vec![];
        for p in zoo(2) {
            for b in [1, 2, 3, 7] {
                for mut c in Tx::both(p.clone(), b as u64) {
                    c.batch = b;
                    v.push(c);
                }
            }
        }
        for p in zoo(1) {
            if p.len() <= 40 {
                for b in (4..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]) {
                    v.push(Tx { batch: b, ..Tx::new(p.clone(), if b % 2 == 0 { Ty::F32 } else { Ty::F64 }, b as u64) });
                }
            }
        }
        for p in 9..=t.pick(17u32, 21) {
            v.extend(Tx::both(Plan::R4(p), 1));
        }
        for n in 1..=t.pick(400, 1500) {
            for k in 2..=6 {
                v.extend(Tx::both(Plan::X(k, Box::new(user(n))), 2));
            }
            v.extend(Tx::both(Plan::Split(Box::new(user(n)), Box::new(user(2 * n))), 2));
            v.extend(Tx::both(Plan::Mixed(Box::new(user(n)), Box::new(user(1 + n % 23))), 2));
            if is_prime(n) {
                v.extend(Tx::both(Plan::Raders(Box::new(user(n - 1))), 2));
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(90_000, 900_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> Tx {
        let max = [100, 1000, t.pick(8000, 60_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 200_000) } else if chance(r, 40) { let g = chance(r, 50); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg::lib(max)) };
        Tx::gen(r, p)
    }
    fn shrink(&self, c: &Tx) -> Vec<Tx> {
        c.shrink()
    }
    fn check(&self, c: &Tx) -> Outcome {
        with_ty!(c.ty, T => {
            let d = build::<T>(&c.plan)?;
            let n = c.plan.len();
            let x: Vec<T> = c.sig.batch(n, c.batch);
            let mut outs: Vec<(Api, Vec<T>)> = vec![];
            for api in APIS {
                outs.push((api, call(&*d, api, &x, 0, c.fill)?));
            }
            outs.push((Api::InPlace, call(&*d, Api::InPlace, &x, 3 * n + 5, c.fill)?));
            outs.push((Api::Oop, call(&*d, Api::Oop, &x, 3 * n + 5, c.fill)?));
            let (a0, base) = &outs[0];
            for (api, y) in &outs[1..] {
                for (i, ((xs, a), b)) in x.chunks(n).zip(base.chunks(n)).zip(y.chunks(n)).enumerate() {
                    let tol = 2.0 * K * c.plan.err(T::EPS) * norm(&comp(xs, 0)) * (n as f64).sqrt();
                    close(&comp(a, 0), &comp(b, 0), tol).map_err(|(k, e)| format!("{:?}: {:?} and {:?} disagree in chunk {} at output {}: {:e} vs {:e} (2-norm difference {:.2e}, tolerance {:.2e})",
                        c.ty, a0, api, i, k, a[k].tc()[0], b[k].tc()[0], e, tol))?;
                }
            }
            Ok(Info { nontrivial: nontrivial_tx(c), labels: labels(&c.plan, c.ty), calls: 5 })
        })
    }
}

// ------------------------------------------------------------------ C09
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Poison {
    None,
    Nan,
    Inf,
    Huge,
    Zero,
    /// a copy of the chunk before, except for one element
    Twin,
    /// the transform of the chunk before, except for one element
    Echo,
    Tiny,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BatchCase {
    tx: Tx,
    poison: Poison,
    /// chunk whose data is replaced
    at: usize,
    /// poison only this element of it (None: all)
    elem: Option<usize>,
}
pub struct Batches;
impl Prop for Batches {
    type Case = BatchCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "plan x batch count (1..400) x one chunk filled with NaN, infinities, huge values, tiny values or zeros (all or one element), or with a copy or the transform of the chunk before it (all but one element); every other chunk must be the DHT of its own data, and a chunk alone must agree with the chunk in the batch. Non-trivial: at least two chunks and length > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<BatchCase> {
        let mut v = vec![];
        for p in zoo(2) {
            for b in [2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257] {
                for (i, poison) in [Poison::None, Poison::Nan, Poison::Huge, Poison::Twin].into_iter().enumerate() {
                    let ty = if (i + b) % 2 == 0 { Ty::F64 } else { Ty::F32 };
                    v.push(BatchCase { tx: Tx { batch: b, ..Tx::new(p.clone(), ty, b as u64) }, poison, at: if i == 3 { b / 2 } else { b * i / 3 }, elem: if i == 3 { Some(p.len() / 3) } else { None } });
                }
            }
        }
        for p in zoo(1).into_iter().filter(|p| p.len() <= 6) {
            v.push(BatchCase { tx: Tx { batch: 70_000, ..Tx::new(p, Ty::F64, 3) }, poison: Poison::None, at: 0, elem: None });
        }
        for p in [7u32, 8, 9, 10, 11] {
            for b in 2..=t.pick(9, 40) {
                v.push(BatchCase { tx: Tx { batch: b, ..Tx::new(Plan::R4(p), Ty::F64, b as u64) }, poison: Poison::Nan, at: b / 2, elem: None });
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(80_000, 800_000)
    }
    fn gen(&self, r: &mut TestRng, _t: Tier) -> BatchCase {
        let max = [12, 50, 200, 1000][below(r, 4)];
        let p = if chance(r, 1) { gen_big(r, 40_000) } else if chance(r, 35) { let g = chance(r, 30); gen_with_user(r, max.max(8), g) } else { gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) }) };
        let n = p.len();
        let cap = (12_000 / n).clamp(2, 400);
        let b = if chance(r, 60) { range(r, 2, cap.min(8)) } else { range(r, 2, cap) };
        let mut tx = Tx::gen(r, p);
        tx.batch = b;
        let poison = [Poison::None, Poison::Nan, Poison::Nan, Poison::Inf, Poison::Huge, Poison::Zero, Poison::Tiny, Poison::Echo, Poison::Twin, Poison::Twin][below(r, 10)];
        BatchCase { tx, poison, at: below(r, b), elem: if chance(r, 40) { Some(below(r, n)) } else { None } }
    }
    fn shrink(&self, c: &BatchCase) -> Vec<BatchCase> {
        let mut v = vec![];
        if c.poison != Poison::None {
            v.push(BatchCase { poison: Poison::None, ..c.clone() });
        }
        for tx in c.tx.shrink() {
            let at = c.at.min(tx.batch - 1);
            v.push(BatchCase { at, tx, ..c.clone() });
        }
        if c.at > 0 {
            v.push(BatchCase { at: 0, ..c.clone() });
            v.push(BatchCase { at: c.at - 1, ..c.clone() });
        }
        if c.elem.is_some() {
            v.push(BatchCase { elem: None, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &BatchCase) -> Outcome {
        with_ty!(c.tx.ty, T => {
            let t = &c.tx;
            let d = build::<T>(&t.plan)?;
            let n = t.plan.len();
            let mut x: Vec<T> = t.sig.batch(n, t.batch);
            let at = c.at % t.batch;
            if matches!(c.poison, Poison::Twin | Poison::Echo) {
                if at > 0 {
                    let mut before = x[(at - 1) * n..at * n].to_vec();
                    if c.poison == Poison::Echo {
                        d.process(&mut before);
                    }
                    for i in 0..n {
                        if c.elem.map_or(true, |e| e % n != i) {
                            x[at * n + i] = before[i];
                        }
                    }
                }
            } else if c.poison != Poison::None {
                for i in 0..n {
                    if c.elem.map_or(true, |e| e % n == i) {
                        x[at * n + i] = match c.poison {
                            Poison::Nan => T::nan(),
                            Poison::Inf => fill_val(Fill::Inf, i),
                            Poison::Huge => fill_val(Fill::Huge, i),
                            Poison::Tiny => fill_val(Fill::Tiny, i),
                            _ => fill_val(Fill::Zero, i),
                        };
                    }
                }
            }
            let skip = |i: usize| i == at && matches!(c.poison, Poison::Nan | Poison::Inf | Poison::Huge);
            let e: Vec<Option<Vec<f64>>> = x.chunks(n).enumerate().map(|(i, ch)| if skip(i) { None } else { Some(oracle::dht_ref(&comp(ch, 0))) }).collect();
            for api in APIS {
                let y = call(&*d, api, &x, 0, t.fill)?;
                for (i, (a, b)) in x.chunks(n).zip(y.chunks(n)).enumerate() {
                    if let Some(e) = &e[i] {
                        check_against::<T>(&comp(a, 0), &comp(b, 0), e, t.plan.err(T::EPS)).map_err(|m| format!("{:?}/{:?}: chunk {} of {} (chunk {} holds {:?}): {}", t.ty, api, i, t.batch, at, c.poison, m))?;
                    }
                }
            }
            Ok(Info { nontrivial: t.batch > 1 && n > 1, labels: vec![t.plan.kind().into(), format!("{:?}", c.poison), format!("batch<=10^{}", (t.batch as f64).log10().ceil())], calls: 3 })
        })
    }
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FillCase {
    tx: Tx,
    other: Fill,
    extra: usize,
}
pub struct Fills;
impl Prop for Fills {
    type Case = FillCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "plan x batch x two different prior contents (NaN, zero, infinities, huge, noise, tiny) of scratch and output x excess scratch; outputs must be bit-identical between contents and correct with excess scratch. Non-trivial: length > 1 and the call has scratch or an output buffer."
    }
    fn systematic(&self, t: Tier) -> Vec<FillCase> {
        let mut v = vec![];
        for p in zoo(2) {
            for f in FILLS {
                for b in [1, 3] {
                    for extra in [0, 1, p.len(), 5 * p.len() + 3] {
                        let ty = if (extra + b) % 2 == 0 { Ty::F32 } else { Ty::F64 };
                        v.push(FillCase { tx: Tx { batch: b, fill: f, ..Tx::new(p.clone(), ty, b as u64) }, other: Fill::Noise, extra });
                    }
                }
            }
        }
        for p in zoo(2).into_iter().filter(|p| p.len() > 3) {
            for (i, sig) in Sig::structured(3).into_iter().enumerate() {
                let ty = if i % 2 == 0 { Ty::F32 } else { Ty::F64 };
                v.push(FillCase { tx: Tx { sig, ..Tx::new(p.clone(), ty, 1) }, other: Fill::Noise, extra: 2 });
            }
        }
        for p in 9..=t.pick(16u32, 20) {
            v.push(FillCase { tx: Tx::new(Plan::R4(p), Ty::F64, 1), other: Fill::Zero, extra: 3 });
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(180_000, 2_000_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> FillCase {
        let max = [40, 300, t.pick(4000, 40_000)][below(r, 3)];
        let p = if chance(r, 1) { gen_big(r, 60_000) } else if chance(r, 35) { let g = chance(r, 50); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg::lib(max)) };
        let n = p.len();
        let tx = Tx::gen(r, p);
        let extra = match below(r, 5) {
            0 | 1 => 0,
            2 => 1,
            3 => range(r, 0, 2 * n),
            _ if chance(r, 4) => range(r, 0, 70_000),
            _ => range(r, 0, 9 * n + 40),
        };
        FillCase { tx, other: FILLS[below(r, FILLS.len())], extra }
    }
    fn shrink(&self, c: &FillCase) -> Vec<FillCase> {
        let mut v: Vec<FillCase> = c.tx.shrink().into_iter().map(|tx| FillCase { tx, ..c.clone() }).collect();
        for e in [0, c.extra / 2, c.extra.saturating_sub(1)] {
            if e < c.extra {
                v.push(FillCase { extra: e, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &FillCase) -> Outcome {
        with_ty!(c.tx.ty, T => {
            let t = &c.tx;
            let d = build::<T>(&t.plan)?;
            let n = t.plan.len();
            let x: Vec<T> = t.sig.batch(n, t.batch);
            let e = expected(n, &x);
            for api in [Api::InPlace, Api::Oop] {
                let a = call(&*d, api, &x, c.extra, t.fill)?;
                let b = call(&*d, api, &x, c.extra, c.other)?;
                check_expected(n, &x, &a, &e, t.plan.err(T::EPS)).map_err(|m| format!("{:?}/{:?} with scratch/output holding {:?} and {} excess scratch: {}", t.ty, api, t.fill, c.extra, m))?;
                if let Some(k) = same_bits(&a, &b) {
                    return Err(format!("{:?}/{:?}: output {} depends on prior buffer contents: {:?} when they held {:?}, {:?} when they held {:?}", t.ty, api, k, a[k], t.fill, b[k], c.other));
                }
            }
            let pre = d.get_inplace_scratch_len() + d.get_outofplace_scratch_len();
            Ok(Info { nontrivial: n > 1, labels: vec![t.plan.kind().into(), format!("{:?}", t.fill), (if pre > 0 { "has scratch" } else { "no scratch" }).into()], calls: 4 })
        })
    }
}

// ------------------------------------------------------------------ C11 / C12
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SizeCase {
    plan: Plan,
    ty: Ty,
    api: Api,
    buf: usize,
    out: usize,
    scr: usize,
    seed: u64,
}
fn must_panic(n: usize, need: usize, c: &SizeCase) -> bool {
    let b = c.buf % n > 0 || c.buf < n;
    match c.api {
        Api::Process => b,
        Api::InPlace => b || c.scr < need,
        Api::Oop => b || c.out != c.buf || c.scr < need,
    }
}
fn size_shrink(c: &SizeCase) -> Vec<SizeCase> {
    let mut v: Vec<SizeCase> = vec![];
    for p in c.plan.shrink() {
        let (n, m) = (c.plan.len(), p.len());
        let sc = |a: usize| (a / n) * m + (a % n).min(m);
        v.push(SizeCase { plan: p.clone(), buf: sc(c.buf), out: sc(c.out), scr: sc(c.scr), ..c.clone() });
        v.push(SizeCase { plan: p, ..c.clone() });
    }
    let n = c.plan.len();
    if c.buf == c.out && c.buf > n {
        v.push(SizeCase { buf: c.buf - n, out: c.out - n, ..c.clone() });
    }
    for d in [n, 1] {
        if c.buf >= d {
            v.push(SizeCase { buf: c.buf - d, ..c.clone() });
        }
        if c.out >= d {
            v.push(SizeCase { out: c.out - d, ..c.clone() });
        }
        if c.scr >= d {
            v.push(SizeCase { scr: c.scr - d, ..c.clone() });
        }
    }
    v
}
fn gen_sizes(r: &mut TestRng, plan: Plan) -> SizeCase {
    let ty = gen_ty(r);
    let api = APIS[below(r, 3)];
    let n = plan.len();
    // the advertised requirement, from the library itself
    let (ip, oop) = guard(|| {
        let d = plan.build::<f32>();
        (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len())
    })
    .unwrap_or((n, 0));
    let need = (if api == Api::Oop { oop } else { ip }).min(1 << 24);
    let many = if n <= 12 && chance(r, 30) { 400 } else if n <= 200 && chance(r, 4) { 70 } else { 4 };
    let buf = match below(r, 8) {
        0..=3 => n * range(r, 1, many),
        4 => (n * range(r, 1, many) + 1).saturating_sub(2 * below(r, 2)),
        5 => below(r, n),
        6 => 0,
        _ => range(r, 0, 4 * n + 2),
    };
    let out = match below(r, 8) {
        0..=4 => buf,
        5 => (buf + 1).saturating_sub(2 * below(r, 2)),
        6 => n * below(r, 4),
        _ => range(r, 0, 4 * n + 2),
    };
    let scr = match below(r, 7) {
        0..=2 => need,
        3 => need.saturating_sub(1),
        4 => need + range(r, 0, 2 * n + 2),
        5 => 0,
        _ if chance(r, 4) => need + range(r, 0, 70_000),
        _ => range(r, 0, 2 * need + 2),
    };
    SizeCase { plan, ty, api, buf, out, scr, seed: below(r, 1000) as u64 }
}
fn all_sizes(p: &Plan, ty: Ty, v: &mut Vec<SizeCase>, full: bool) {
    let n = p.len();
    let (ip, oop) = guard(|| {
        let d = p.build::<f32>();
        (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len())
    })
    .unwrap_or((n, 0));
    for api in APIS {
        let need = (if api == Api::Oop { oop } else { ip }).min(1 << 20);
        let mut bufs: Vec<usize> = if full { (0..=3 * n + 1).collect() } else { vec![0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n] };
        bufs.sort();
        bufs.dedup();
        for &b in &bufs {
            let mut outs = if api == Api::Oop { vec![0, b.saturating_sub(1), b, b + 1, b + n, b.saturating_sub(n), n] } else { vec![b] };
            outs.sort();
            outs.dedup();
            let mut scrs = if api == Api::Process { vec![0] } else { vec![0, need / 2, need.saturating_sub(1), need, need + 1, need + n] };
            scrs.sort();
            scrs.dedup();
            for &o in &outs {
                for &s in &scrs {
                    v.push(SizeCase { plan: p.clone(), ty, api, buf: b, out: o, scr: s, seed: 1 });
                }
            }
        }
    }
}
fn greedy_zoo() -> Vec<Plan> {
    let u = |n: usize, i: usize, o: usize| Box::new(Plan::Ref(RefSpec { n, inp: i, oop: o, trash: true }));
    let mut v = vec![];
    for (i, o) in [(3, 0), (0, 3), (5, 7), (40, 0), (0, 40), (33, 50)] {
        for k in 2..=6 {
            v.push(Plan::X(k, u(3, i, o)));
        }
        v.push(Plan::Mixed(u(3, i, o), u(4, o, i)));
        v.push(Plan::Split(u(2, i, o), u(4, o, i)));
        v.push(Plan::Raders(u(6, i, o)));
    }
    v
}
fn run_sized(c: &SizeCase) -> Result<(bool, Option<String>, bool, Result<(), String>, usize), String> {
    with_ty!(c.ty, T => {
        let d = build::<T>(&c.plan)?;
        let n = c.plan.len();
        let need = match c.api { Api::Oop => d.get_outofplace_scratch_len(), _ => d.get_inplace_scratch_len() };
        let x: Vec<T> = Sig::dense(c.seed).batch::<T>(n, c.buf / n + 1)[..c.buf].to_vec();
        let mp = must_panic(n, need, c);
        let r = raw_call(&*d, c.api, &x, c.out, c.scr, Fill::Nan);
        let correct = if !mp && r.panicked.is_none() { check_batch(n, &x, &r.out, c.plan.err(T::EPS)) } else { Ok(()) };
        Ok((mp, r.panicked, r.guards_ok, correct, need))
    })
}
pub struct Memory;
impl Prop for Memory {
    type Case = SizeCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "plan (library trees, user inners with arbitrary scratch) x entry point x buffer, output and scratch sizes, valid and invalid; canaries around every caller buffer, then an inaccessible page right behind and right before each of them, NaN red zones around every heap block, library debug assertions on (first stage), plain release build and AddressSanitizer build (further stages). Non-trivial: the library got as far as transforming at least one chunk."
    }
    fn systematic(&self, _t: Tier) -> Vec<SizeCase> {
        let mut v = vec![];
        for (i, p) in zoo(2).into_iter().chain(greedy_zoo()).enumerate() {
            all_sizes(&p, if i % 2 == 0 { Ty::F64 } else { Ty::F32 }, &mut v, false);
        }
        let cap = if cfg!(feature = "asan") { 120 } else { 260 };
        for h in 1..=cap {
            let u = |n: usize| Box::new(user(n));
            let mut ps = vec![];
            for k in 2..=6 {
                ps.push(Plan::X(k, u(h)));
            }
            ps.push(Plan::Split(u(h), u(2 * h)));
            ps.push(Plan::Mixed(u(h), u(7)));
            ps.push(Plan::Mixed(u(7), u(h)));
            ps.push(Plan::Naive(h));
            if is_prime(h) {
                ps.push(Plan::Raders(u(h - 1)));
            }
            for p in ps {
                for api in APIS {
                    let n = p.len();
                    v.push(SizeCase { plan: p.clone(), ty: if h % 2 == 0 { Ty::F32 } else { Ty::F64 }, api, buf: 2 * n, out: 2 * n, scr: if api == Api::Oop { 0 } else { n }, seed: h as u64 });
                }
            }
        }
        let m = if cfg!(feature = "asan") { 14 } else { 24 };
        for w in 1..=m {
            for h in 1..=m {
                for api in APIS {
                    let p = Plan::Mixed(Box::new(user(w)), Box::new(user(h)));
                    v.push(SizeCase { plan: p, ty: Ty::F64, api, buf: w * h, out: w * h, scr: w * h, seed: 1 });
                }
            }
        }
        for p in 0..=14 {
            for api in APIS {
                let n = 1usize << p;
                v.push(SizeCase { plan: Plan::R4(p), ty: Ty::F64, api, buf: n, out: n, scr: if api == Api::Oop { 0 } else { n }, seed: 1 });
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(400_000, 4_000_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> SizeCase {
        let max = [30, 200, t.pick(2000, 20_000)][below(r, 3)];
        let p = if below(r, 250) == 0 { gen_big(r, 100_000) } else if chance(r, 40) { let g = chance(r, 60); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg::lib(max)) };
        gen_sizes(r, p)
    }
    fn shrink(&self, c: &SizeCase) -> Vec<SizeCase> {
        size_shrink(c)
    }
    fn check(&self, c: &SizeCase) -> Outcome {
        let (mp, panicked, guards_ok, correct, _) = run_sized(c)?;
        if !guards_ok {
            return Err(format!("{:?}/{:?} on buffers in={} out={} scratch={} (length {}) wrote outside the caller's buffers", c.ty, c.api, c.buf, c.out, c.scr, c.plan.len()));
        }
        if let Some(m) = &panicked {
            if !mp {
                return Err(format!("{:?}/{:?} on valid buffers in={} out={} scratch={} panicked (out-of-range access, or inner contract): {}", c.ty, c.api, c.buf, c.out, c.scr, m));
            }
        }
        correct.map_err(|m| format!("a value from outside the buffers, or stale scratch, reached the output: {}", m))?;
        // once more with an inaccessible page right after, and right before, each buffer
        if !cfg!(feature = "asan") {
            for place in [Place::End, Place::Start] {
                let r = with_ty!(c.ty, T => {
                    let d = build::<T>(&c.plan)?;
                    let n = c.plan.len();
                    let x: Vec<T> = Sig::dense(c.seed).batch::<T>(n, c.buf / n + 1)[..c.buf].to_vec();
                    PLACE.with(|p| p.set(place));
                    let r = raw_call(&*d, c.api, &x, c.out, c.scr, Fill::Nan);
                    PLACE.with(|p| p.set(Place::Heap));
                    (r.panicked.is_some(), r.guards_ok)
                });
                if !r.1 {
                    return Err(format!("{:?}/{:?} on buffers in={} out={} scratch={} (length {}) wrote outside the caller's buffers ({:?} of a mapping)", c.ty, c.api, c.buf, c.out, c.scr, c.plan.len(), place));
                }
                if r.0 != panicked.is_some() {
                    return Err(format!("{:?}/{:?} on buffers in={} out={} scratch={} (length {}) panics or not depending on where in memory the buffers are ({:?} of a mapping)", c.ty, c.api, c.buf, c.out, c.scr, c.plan.len(), place));
                }
            }
        }
        Ok(Info { nontrivial: c.buf >= c.plan.len(), labels: vec![c.plan.kind().into(), (if mp { "invalid sizes" } else { "valid sizes" }).into()], calls: 1 })
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["red zones are 256 bytes per heap block and 48 elements per caller buffer; AddressSanitizer stage covers farther and stack accesses within its own limits"]
    }
}
pub struct Sizes;
impl Prop for Sizes {
    type Case = SizeCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "plan x entry point x (buffer, output, scratch) sizes around every boundary of the documented conditions, exhaustive for small transforms; the call must panic exactly when a documented condition holds. Non-trivial: exactly one documented condition is violated, or none."
    }
    fn systematic(&self, t: Tier) -> Vec<SizeCase> {
        let mut v = vec![];
        for (i, p) in zoo(2).into_iter().chain(greedy_zoo()).enumerate() {
            let full = p.len() <= t.pick(40, 200);
            all_sizes(&p, if i % 2 == 0 { Ty::F64 } else { Ty::F32 }, &mut v, full);
        }
        // lengths where a size check might be skipped or coarsened
        for n in [64, 100, 128, 255, 256, 257, 1000, 1024, 4096, 5000, 20_000] {
            let u = |n: usize| Box::new(user(n));
            let mut ps: Vec<Plan> = (2..=6).map(|k| Plan::X(k, u(n))).collect();
            ps.extend([Plan::Split(u(n), u(2 * n)), Plan::Mixed(u(n), u(3)), Plan::Mixed(u(4), u(n)), Plan::Raders(u(prev_prime(n) - 1)), Plan::R4((n as f64).log2() as u32)]);
            if n <= 1024 {
                ps.push(Plan::Naive(n));
            }
            for p in ps {
                all_sizes(&p, if n % 3 == 0 { Ty::F64 } else { Ty::F32 }, &mut v, false);
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(700_000, 6_000_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> SizeCase {
        let max = [20, 100, t.pick(1500, 20_000)][below(r, 3)];
        let p = if below(r, 400) == 0 { gen_big(r, 100_000) } else if chance(r, 40) { let g = chance(r, 70); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg::lib(max)) };
        gen_sizes(r, p)
    }
    fn shrink(&self, c: &SizeCase) -> Vec<SizeCase> {
        size_shrink(c)
    }
    fn check(&self, c: &SizeCase) -> Outcome {
        let (mp, panicked, _, _, need) = run_sized(c)?;
        let n = c.plan.len();
        if mp && panicked.is_none() {
            return Err(format!("{:?}/{:?} on a transform of length {} accepted buffer={} output={} scratch={} (requires {}) without panicking", c.ty, c.api, n, c.buf, c.out, c.scr, need));
        }
        if let (false, Some(m)) = (mp, &panicked) {
            return Err(format!("{:?}/{:?} on a transform of length {} rejected valid sizes buffer={} output={} scratch={} (requires {}): {}", c.ty, c.api, n, c.buf, c.out, c.scr, need, m));
        }
        let bad = [c.buf % n > 0, c.buf < n, c.api == Api::Oop && c.out != c.buf, c.api != Api::Process && c.scr < need].iter().filter(|b| **b).count();
        Ok(Info { nontrivial: bad <= 1, labels: vec![c.plan.kind().into(), format!("{:?}", c.api), (if mp { "invalid" } else { "valid" }).into()], calls: 1 })
    }
}

// ------------------------------------------------------------------ C13 / C14
pub struct Scratch;
impl Prop for Scratch {
    type Case = Tx;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "composites over user-supplied inner transforms with arbitrary advertised scratch (0 .. far above the length, in-place and out-of-place independently), nested, and library-only trees; run with exactly the advertised scratch. Non-trivial: some inner transform requires scratch."
    }
    fn systematic(&self, t: Tier) -> Vec<Tx> {
        let mut v = vec![];
        let reqs = [0usize, 1, 2, 3, 5, 8, 13, 30, 100];
        for h in 1..=t.pick(5, 12) {
            for i in reqs {
                for o in reqs {
                    let u = |n: usize, i: usize, o: usize| Box::new(Plan::Ref(RefSpec { n, inp: i, oop: o, trash: true }));
                    for k in 2..=6 {
                        v.push(Tx::new(Plan::X(k, u(h, i, o)), Ty::F64, 1));
                        v.push(Tx::new(Plan::X(2, Box::new(Plan::X(k, u(h, i, o)))), Ty::F32, 1));
                    }
                    for (i2, o2) in [(0, 0), (o, i), (7, 0), (0, 7), (64, 64)] {
                        v.push(Tx::new(Plan::Mixed(u(h, i, o), u(3, i2, o2)), Ty::F64, 1));
                        v.push(Tx::new(Plan::Mixed(u(3, i2, o2), u(h, i, o)), Ty::F32, 1));
                        v.push(Tx::new(Plan::Split(u(h, i, o), u(2 * h, i2, o2)), Ty::F64, 1));
                        v.push(Tx::new(Plan::Split(u(h, i2, o2), u(2 * h, i, o)), Ty::F32, 1));
                    }
                    if is_prime(h + 1) {
                        v.push(Tx::new(Plan::Raders(u(h, i, o)), Ty::F64, 1));
                    }
                }
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(350_000, 3_500_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> Tx {
        let max = if chance(r, 1) { 5000 } else { [12, 60, t.pick(600, 2000)][below(r, 3)] };
        let p = if below(r, 300) == 0 { gen_big(r, 60_000) } else if chance(r, 15) { gen_plan(r, &GenCfg::lib(max)) } else if chance(r, 50) { gen_with_user(r, max, true) } else { gen_plan(r, &GenCfg::with_user(max, 45, true)) };
        Tx::gen(r, p)
    }
    fn shrink(&self, c: &Tx) -> Vec<Tx> {
        c.shrink()
    }
    fn check(&self, c: &Tx) -> Outcome {
        with_ty!(c.ty, T => {
            let d = build::<T>(&c.plan)?;
            let n = c.plan.len();
            let before = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
            let x: Vec<T> = c.sig.batch(n, c.batch);
            let e = expected(n, &x);
            for api in APIS {
                let y = call(&*d, api, &x, 0, c.fill)?;
                check_expected(n, &x, &y, &e, c.plan.err(T::EPS)).map_err(|m| format!("{:?}/{:?} with exactly the advertised scratch: {}", c.ty, api, m))?;
            }
            if before != (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len()) {
                return Err("the advertised scratch requirement changed after a call".into());
            }
            fn any(p: &Plan) -> bool {
                matches!(p, Plan::Ref(s) if s.inp + s.oop > 0) || p.children().iter().any(|c| any(c))
            }
            Ok(Info { nontrivial: any(&c.plan), labels: labels(&c.plan, c.ty), calls: 3 })
        })
    }
}
pub struct Inner;
impl Prop for Inner {
    type Case = Tx;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "composites over user-supplied inner transforms that obey the documented contract to the letter: they verify the buffer sizes they are given and overwrite with NaN everything the contract declares garbage (all scratch, out-of-place input), or leave it alone; some delegate to other library transforms through `process`. Non-trivial: the plan contains such an inner transform and length > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<Tx> {
        let mut v = vec![];
        for trash in [true, false] {
            let u = |n: usize| Box::new(Plan::Ref(RefSpec { n, inp: 0, oop: 0, trash }));
            let l = |n: usize| Box::new(simple(n));
            for h in 1..=t.pick(150, 600) {
                for k in 2..=6 {
                    v.push(Tx { batch: 2, ..Tx::new(Plan::X(k, u(h)), Ty::F64, 1) });
                }
                v.push(Tx { batch: 2, ..Tx::new(Plan::Split(u(h), u(2 * h)), Ty::F64, 1) });
                v.push(Tx { batch: 2, ..Tx::new(Plan::Split(l(h), u(2 * h)), Ty::F32, 1) });
                v.push(Tx { batch: 2, ..Tx::new(Plan::Split(u(h), l(2 * h)), Ty::F32, 1) });
                if is_prime(h) {
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Raders(u(h - 1)), Ty::F64, 1) });
                }
            }
            // user transforms that delegate to library transforms through `process`
            for h in 1..=t.pick(34, 100) {
                let w = |p: Plan| Box::new(Plan::Wrap(Box::new(p)));
                for p in [simple(h), Plan::X(2, l(h)), Plan::Split(l(h), l(2 * h)), Plan::Mixed(l(3), l(h))] {
                    let n = p.len();
                    for k in 2..=6 {
                        v.push(Tx { batch: 2, ..Tx::new(Plan::X(k, w(p.clone())), Ty::F64, 1) });
                    }
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Mixed(w(p.clone()), l(3)), Ty::F64, 1) });
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Mixed(w(simple(4)), w(p.clone())), Ty::F32, 1) });
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Split(w(p.clone()), w(simple(2 * n))), Ty::F32, 1) });
                    if is_prime(n + 1) {
                        v.push(Tx { batch: 2, ..Tx::new(Plan::Raders(w(p)), Ty::F64, 1) });
                    }
                }
            }
            for w in 1..=t.pick(20, 50) {
                v.push(Tx { batch: 2, ..Tx::new(Plan::Square(u(w)), Ty::F64, 1) });
                for h in 1..=t.pick(20, 50) {
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Mixed(u(w), u(h)), Ty::F64, 1) });
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Mixed(l(w), u(h)), Ty::F32, 1) });
                    v.push(Tx { batch: 2, ..Tx::new(Plan::Mixed(u(w), l(h)), Ty::F32, 1) });
                }
            }
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(200_000, 2_000_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> Tx {
        let max = [20, 200, t.pick(3000, 30_000)][below(r, 3)];
        let g = chance(r, 40);
        let p = if chance(r, 1) { gen_big(r, 60_000) } else if chance(r, 60) { gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg::with_user(max, 60, g)) };
        Tx::gen(r, p)
    }
    fn shrink(&self, c: &Tx) -> Vec<Tx> {
        c.shrink()
    }
    fn check(&self, c: &Tx) -> Outcome {
        let mut i = with_ty!(c.ty, T => check_tx::<T>(c, 1.0))?;
        i.nontrivial = i.nontrivial && c.plan.has_ref();
        Ok(i)
    }
}
