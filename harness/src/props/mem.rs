//! C23: heap use is bounded.
use super::*;
use crate::alloc::{ALLOCS, LIVE, PEAK};
use crate::runner::{Prop, Tier};
use rustdht::Dht;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MemCase {
    plan: Plan,
    ty: Ty,
    batch: usize,
    cycles: usize,
    /// also make calls that must panic
    misuse: bool,
    /// 0 = no; k = also a call in which the k-th call of a user-supplied inner transform panics
    fuse: u64,
    /// non-empty (library transforms only, as the harness's own ones cache tables by length): instead, build, use and drop each of these once, and watch the heap as their number doubles
    #[serde(default)]
    family: Vec<Plan>,
}
pub struct Mem;
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// sum of the lengths of all nodes, number of nodes
fn weight(p: &Plan) -> (usize, usize) {
    let mut w = (p.len(), 1);
    for c in p.children() {
        let (a, b) = weight(c);
        w = (w.0 + a, w.1 + b);
    }
    w
}
fn cycle<T: Elem>(c: &MemCase, x: &[T]) -> Result<(), String> {
    let d = build::<T>(&c.plan)?;
    let n = c.plan.len();
    for api in APIS {
        call(&*d, api, x, 0, Fill::Zero)?;
    }
    if c.misuse {
        for api in APIS {
            let need = if api == Api::Oop { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
            let bad: Vec<T> = vec![T::of(1.0); 2 * n + n / 2];
            raw_call(&*d, api, &bad, bad.len(), need, Fill::Zero);
            raw_call(&*d, api, x, x.len() + 1, need.saturating_sub(1), Fill::Zero);
        }
    }
    if c.fuse > 0 && c.plan.has_ref() {
        for api in APIS {
            let need = if api == Api::Oop { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
            FUSE.with(|f| f.set(c.fuse));
            raw_call(&*d, api, x, x.len(), need, Fill::Zero);
            FUSE.with(|f| f.set(0));
        }
    }
    Ok(())
}
/// Transforms of many different lengths, built, used and dropped one after another: each time their number
/// doubles, the heap must have stopped growing at least once.
fn check_family<T: Elem>(c: &MemCase) -> Outcome {
    let use_one = |p: &Plan| -> Result<(), String> {
        let one = MemCase { plan: p.clone(), family: vec![], ..c.clone() };
        let x: Vec<T> = Sig::dense(1).batch(p.len(), 1);
        cycle(&one, &x)
    };
    let k = c.family.len();
    use_one(&c.family[0])?;
    let mut levels = vec![];
    let mut done = 0;
    for upto in [k / 8, k / 4, k / 2, k] {
        for p in &c.family[done..upto] {
            use_one(p)?;
        }
        done = upto;
        levels.push(live());
    }
    if k >= 8 && levels.windows(2).all(|w| w[1] > w[0]) {
        return Err(format!("building, using and dropping {} transforms of different lengths ({} to {}) accumulates heap memory: after {}, {}, {} and {} of them {:?} bytes more than at first are live",
            k, c.family.iter().map(|p| p.len()).min().unwrap(), c.family.iter().map(|p| p.len()).max().unwrap(), k / 8, k / 4, k / 2, k, levels.iter().map(|l| l - levels[0]).collect::<Vec<_>>()));
    }
    Ok(Info { nontrivial: k >= 8, labels: vec!["many lengths".into(), c.family[0].kind().into()], calls: 3 * k as u64 })
}
/// k transforms of one kind and different lengths
fn family(kind: usize, from: usize, k: usize) -> Vec<Plan> {
    let l = |n: usize| Box::new(simple(n));
    let mut v = vec![];
    let mut n = from;
    while v.len() < k {
        match kind {
            0..=4 => v.push(Plan::X(kind + 2, l(n))),
            5 => v.push(Plan::Split(l(n), l(2 * n))),
            6 => v.push(Plan::Mixed(l(n), l(3 + n % 5))),
            7 => v.push(Plan::Mixed(l(2 + n % 7), l(n))),
            8 => v.push(Plan::Naive(n)),
            _ => {
                if is_prime(n) {
                    v.push(Plan::Raders(l(n - 1)))
                }
            }
        }
        n += 1;
    }
    v
}
fn check<T: Elem>(c: &MemCase) -> Outcome {
    if !c.family.is_empty() {
        return check_family::<T>(c);
    }
    let n = c.plan.len();
    let x: Vec<T> = Sig::dense(1).batch(n, c.batch);
    let size = std::mem::size_of::<T>();
    let (w, nodes) = weight(&c.plan);
    // 1. repetition does not accumulate
    for _ in 0..2 {
        cycle(c, &x)?;
    }
    let mut grown = [0i64; 2];
    for (i, k) in [c.cycles, 2 * c.cycles].into_iter().enumerate() {
        let l0 = live();
        for _ in 0..k {
            cycle(c, &x)?;
        }
        grown[i] = live() - l0;
        if grown[i] <= 0 {
            break;
        }
    }
    if grown[1] > 0 {
        return Err(format!("building, using and dropping the transform leaks heap memory: {} bytes after {} repetitions, {} bytes more after {} further ones", grown[0], c.cycles, grown[1], 2 * c.cycles));
    }
    let mut calls = 9 + 3 * c.cycles as u64;
    // 2. long use of one instance does not accumulate
    {
        let d = build::<T>(&c.plan)?;
        for api in APIS {
            call(&*d, api, &x, 0, Fill::Zero)?;
        }
        let reps = if c.plan.cost() < 2e4 { 24 } else { 4 };
        let mut grown = [0i64; 2];
        for (i, k) in [reps, 2 * reps].into_iter().enumerate() {
            let l0 = live();
            for _ in 0..k {
                for api in APIS {
                    call(&*d, api, &x, 0, Fill::Zero)?;
                }
            }
            grown[i] = live() - l0;
            calls += 3 * k as u64;
            if grown[i] <= 0 {
                break;
            }
        }
        if grown[1] > 0 {
            return Err(format!("repeated calls on one transform accumulate heap memory: {} bytes after {} rounds, {} bytes more after {} further ones", grown[0], reps, grown[1], 2 * reps));
        }
    }
    // 3. the library's own footprint, where no user code allocates
    if !c.plan.has_ref() {
        let l0 = live();
        PEAK.with(|p| p.set(l0));
        let d = build::<T>(&c.plan)?;
        let held = live() - l0;
        let peak = PEAK.with(|p| p.get()) - l0;
        let lim = (16 * w * size + 4096 * nodes) as i64;
        if held > lim || peak > 2 * lim {
            return Err(format!("constructing a transform of length {} holds {} bytes (peak {}); its tables are linear in the node lengths (sum {}), limit {}", n, held, peak, w, lim));
        }
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        if ip.max(op) > 16 * w + 64 {
            return Err(format!("a transform of length {} advertises scratch {} / {}", n, ip, op));
        }
        let (mut buf, mut out) = (x.clone(), x.clone());
        let (mut s1, mut s2) = (vec![T::of(0.0); ip], vec![T::of(0.0); op]);
        let run = |f: &mut dyn FnMut(&dyn Dht<T>)| -> Result<(u64, i64), String> {
            let (a0, l0) = (ALLOCS.with(|a| a.get()), live());
            PEAK.with(|p| p.set(l0));
            guard(|| f(&*d))?;
            Ok((ALLOCS.with(|a| a.get()) - a0, PEAK.with(|p| p.get()) - l0))
        };
        let (a, b) = run(&mut |d| d.process_with_scratch(&mut buf, &mut s1))?;
        if a > 0 {
            return Err(format!("process_with_scratch on a buffer of {} (length {}) made {} heap allocations ({} bytes) although it was given its scratch", buf.len(), n, a, b));
        }
        let (a, b) = run(&mut |d| d.process_outofplace_with_scratch(&mut buf, &mut out, &mut s2))?;
        if a > 0 {
            return Err(format!("process_outofplace_with_scratch on a buffer of {} (length {}) made {} heap allocations ({} bytes) although it was given its scratch", buf.len(), n, a, b));
        }
        let (_, b) = run(&mut |d| d.process(&mut buf))?;
        if b > ((2 * ip + n) * size + 4096) as i64 {
            return Err(format!("process on a buffer of {} (length {}, scratch {}) used {} bytes of heap", buf.len(), n, ip, b));
        }
        calls += 3;
    }
    Ok(Info { nontrivial: n > 1, labels: vec![c.plan.kind().into(), (if c.misuse { "with rejected calls" } else { "valid calls only" }).into(), (if c.fuse > 0 && c.plan.has_ref() { "inner transform panics" } else { "no inner panic" }).into()], calls })
}
impl Prop for Mem {
    type Case = MemCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "plan x element type x batch x cycles of build / call / misuse / inner panic / drop of one transform or of 8 to 64 transforms of different lengths, with the calling thread's live heap bytes and allocation count read from the allocator. Non-trivial: length > 1."
    }
    fn systematic(&self, t: Tier) -> Vec<MemCase> {
        let mut v = vec![];
        for (i, p) in zoo(2).into_iter().enumerate() {
            for (j, misuse) in [false, true].into_iter().enumerate() {
                for b in [1, 3] {
                    v.push(MemCase { plan: p.clone(), ty: if (i + j) % 2 == 0 { Ty::F64 } else { Ty::F32 }, batch: b, cycles: 6, misuse, fuse: 0, family: vec![] });
                }
            }
        }
        for n in 1..=t.pick(120, 500) {
            let l = |n: usize| Box::new(simple(n));
            let u = |n: usize| Box::new(user(n));
            let ty = if n % 2 == 0 { Ty::F64 } else { Ty::F32 };
            let mut ps: Vec<Plan> = (2..=6).map(|k| Plan::X(k, l(n))).collect();
            ps.extend((2..=6).map(|k| Plan::X(k, u(n))));
            ps.extend([Plan::Split(l(n), l(2 * n)), Plan::Mixed(l(n), l(5)), Plan::Mixed(l(4), l(n)), Plan::Naive(n)]);
            ps.extend([Plan::Split(u(n), u(2 * n)), Plan::Mixed(u(n), u(5)), Plan::Mixed(u(4), u(n))]);
            if is_prime(n) {
                ps.extend([Plan::Raders(l(n - 1)), Plan::Raders(u(n - 1))]);
            }
            for plan in ps {
                v.push(MemCase { plan, ty, batch: 1 + n % 3, cycles: 4, misuse: n % 2 == 0, fuse: 1 + n as u64 % 5, family: vec![] });
            }
        }
        for kind in 0..10 {
            for from in [2, 40, 150, 600, t.pick(1200, 3000)] {
                for ty in [Ty::F64, Ty::F32] {
                    if kind != 8 || from < 1000 {
                        v.push(MemCase { plan: Plan::Naive(1), ty, batch: 1, cycles: 1, misuse: false, fuse: 0, family: family(kind, from, 32) });
                    }
                }
            }
        }
        for p in 9..=t.pick(17, 21) {
            v.push(MemCase { plan: Plan::R4(p), ty: Ty::F32, batch: 1, cycles: 2, misuse: true, fuse: 0, family: vec![] });
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(20_000, 200_000)
    }
    fn gen(&self, r: &mut TestRng, t: Tier) -> MemCase {
        if chance(r, 1) {
            let (k, max) = (range(r, 8, 64), [30, 300, 2000][below(r, 3)]);
            let f = (0..k).map(|_| gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) })).collect();
            return MemCase { plan: Plan::Naive(1), ty: gen_ty(r), batch: 1, cycles: 1, misuse: chance(r, 50), fuse: 0, family: f };
        }
        let max = [30, 300, t.pick(4000, 40_000)][below(r, 3)];
        let plan = if below(r, 200) == 0 { gen_big(r, 60_000) } else if chance(r, 35) { let g = chance(r, 30); gen_with_user(r, max, g) } else { gen_plan(r, &GenCfg { naive: 64, ..GenCfg::lib(max) }) };
        let big = plan.cost() > 1e5;
        MemCase { batch: if big { 1 } else { range(r, 1, 6) }, ty: gen_ty(r), cycles: if big { 3 } else { range(r, 3, 12) }, misuse: chance(r, 50), fuse: if chance(r, 50) { 1 + below(r, 6) as u64 } else { 0 }, family: vec![], plan }
    }
    fn shrink(&self, c: &MemCase) -> Vec<MemCase> {
        let mut v = vec![];
        if c.family.len() > 8 {
            for k in [8, c.family.len() / 2, c.family.len() - 1] {
                v.push(MemCase { family: c.family[..k].to_vec(), ..c.clone() });
                v.push(MemCase { family: c.family[c.family.len() - k..].to_vec(), ..c.clone() });
            }
        }
        if c.misuse {
            v.push(MemCase { misuse: false, ..c.clone() });
        }
        if c.fuse > 0 {
            v.push(MemCase { fuse: 0, ..c.clone() });
            v.push(MemCase { fuse: c.fuse - 1, ..c.clone() });
        }
        if c.batch > 1 {
            v.push(MemCase { batch: 1, ..c.clone() });
            v.push(MemCase { batch: c.batch - 1, ..c.clone() });
        }
        v.extend(c.plan.shrink().into_iter().map(|plan| MemCase { plan, ..c.clone() }));
        v
    }
    fn check(&self, c: &MemCase) -> Outcome {
        with_ty!(c.ty, T => check::<T>(c))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["heap use is read from the global allocator of the checking process, per thread; memory obtained from the system by other means is not seen"]
    }
}
