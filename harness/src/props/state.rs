//! C16: transforms are pure: no history, no interference between instances or threads.
use super::*;
use crate::elem::Hooked;
use crate::runner::{Prop, Tier};
use crate::sched;
use rustdht::Dht;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// build pool[plan] into slot
    New(usize, usize),
    /// put a fixed-width composite over the instance in slot `1` into slot `0`: both then share it
    Over(usize, usize, usize),
    Call { slot: usize, ty: Ty, api: Api, sig: Sig, batch: usize, fill: Fill },
    /// a call with wrong sizes, which must panic and leave no trace
    Bad { slot: usize, ty: Ty, api: Api, how: u8 },
    /// a call during which the `after`-th call of a user-supplied inner transform panics (if there is one)
    Fuse { slot: usize, ty: Ty, api: Api, after: u64, batch: usize },
    Drop(usize),
    Repeat { slot: usize, ty: Ty, api: Api, times: usize },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum StateCase {
    History { pool: Vec<Plan>, ops: Vec<Op> },
    Threads { plans: Vec<Plan>, ty: Ty, threads: usize, calls: usize, build_too: bool, seed: u64 },
    Schedule { plan: Plan, threads: usize, apis: Vec<Api>, batch: usize, seed: u64, period: u64, share: bool },
}
use StateCase::*;
pub struct State;

type Inst = (Plan, Arc<dyn Dht<f32>>, Arc<dyn Dht<f64>>);
trait Pick: Elem {
    fn pick(i: &Inst) -> &Arc<dyn Dht<Self>>;
}
impl Pick for f32 {
    fn pick(i: &Inst) -> &Arc<dyn Dht<f32>> {
        &i.1
    }
}
impl Pick for f64 {
    fn pick(i: &Inst) -> &Arc<dyn Dht<f64>> {
        &i.2
    }
}
const SLOTS: usize = 4;

fn run_history(pool: &[Plan], ops: &[Op]) -> Outcome {
    let mut slots: Vec<Option<Inst>> = vec![None; SLOTS];
    let mut memo: HashMap<String, Vec<[u64; 2]>> = HashMap::new();
    let mut calls = 0;
    let mut repeats = false;
    let mut instances = 0;
    for (step, op) in ops.iter().enumerate() {
        let at = |m: String| format!("step {} ({:?}): {}", step, op, m);
        match op {
            Op::New(s, p) => {
                let plan = &pool[p % pool.len()];
                slots[s % SLOTS] = Some((plan.clone(), build::<f32>(plan).map_err(at)?, build::<f64>(plan).map_err(at)?));
                instances += 1;
            }
            Op::Over(s, inner, k) => {
                if let Some(i) = slots[inner % SLOTS].clone() {
                    if i.0.len() > 2000 {
                        continue;
                    }
                    fn over<T: Elem>(k: usize, d: Arc<dyn Dht<T>>) -> Arc<dyn Dht<T>> {
                        use rustdht::scalar::*;
                        match k {
                            2 => Arc::new(MixedRadix2xn::new(d)),
                            3 => Arc::new(MixedRadix3xn::new(d)),
                            4 => Arc::new(MixedRadix4xn::new(d)),
                            5 => Arc::new(MixedRadix5xn::new(d)),
                            6 => Arc::new(MixedRadix6xn::new(d)),
                            _ => Arc::new(MixedRadix::new(d.clone(), d)),
                        }
                    }
                    let k = 2 + k % 6;
                    if k == 7 && i.0.len() > 50 {
                        continue;
                    }
                    let plan = if k == 7 { Plan::Mixed(Box::new(i.0.clone()), Box::new(i.0.clone())) } else { Plan::X(k, Box::new(i.0.clone())) };
                    let a = guard(|| over(k, i.1.clone())).map_err(at)?;
                    let b = guard(|| over(k, i.2.clone())).map_err(at)?;
                    slots[s % SLOTS] = Some((plan, a, b));
                    instances += 1;
                }
            }
            Op::Call { slot, ty, api, sig, batch, fill } => {
                if let Some(i) = &slots[slot % SLOTS] {
                    with_ty!(ty, T => {
                        let d = <T as Pick>::pick(i);
                        let n = i.0.len();
                        let x: Vec<T> = sig.batch(n, *batch);
                        let y = call(&**d, *api, &x, 0, *fill).map_err(at)?;
                        check_batch(n, &x, &y, i.0.err(T::EPS)).map_err(at)?;
                        let key = format!("{:?}", (&i.0, ty, api, sig, batch));
                        let bits: Vec<[u64; 2]> = y.iter().map(|v| v.bits()).collect();
                        if let Some(old) = memo.get(&key) {
                            repeats = true;
                            if let Some(k) = old.iter().zip(&bits).position(|(a, b)| a != b) {
                                return Err(at(format!("output {} differs from an earlier identical call on an identical transform", k)));
                            }
                        }
                        memo.insert(key, bits);
                    });
                    calls += 1;
                }
            }
            Op::Bad { slot, ty, api, how } => {
                if let Some(i) = &slots[slot % SLOTS] {
                    with_ty!(ty, T => {
                        let d = <T as Pick>::pick(i);
                        let n = i.0.len();
                        let need = if *api == Api::Oop { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
                        let (b, o, s) = match how % 3 {
                            0 => (2 * n + n / 2, 2 * n + n / 2, need),
                            1 => (n - 1, n - 1, need),
                            _ => (n, n + 1, need.saturating_sub(1)),
                        };
                        let x: Vec<T> = vec![T::of(1.0); b];
                        // whether it panics is C12's question; here only that it leaves no trace
                        let _ = raw_call(&**d, *api, &x, o, s, Fill::Huge);
                    });
                    calls += 1;
                }
            }
            Op::Fuse { slot, ty, api, after, batch } => {
                if let Some(i) = &slots[slot % SLOTS] {
                    with_ty!(ty, T => {
                        let d = <T as Pick>::pick(i);
                        let n = i.0.len();
                        let need = if *api == Api::Oop { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
                        let x: Vec<T> = Sig::dense(9).batch(n, *batch);
                        FUSE.with(|f| f.set(*after));
                        let r = raw_call(&**d, *api, &x, n * batch, need, Fill::Huge);
                        FUSE.with(|f| f.set(0));
                        if let Some(m) = &r.panicked {
                            if !m.starts_with("FUSE") {
                                return Err(at(format!("valid call panicked: {}", m)));
                            }
                        } else {
                            check_batch(n, &x, &r.out, i.0.err(T::EPS)).map_err(at)?;
                        }
                    });
                    calls += 1;
                }
            }
            Op::Drop(s) => slots[s % SLOTS] = None,
            Op::Repeat { slot, ty, api, times } => {
                if let Some(i) = &slots[slot % SLOTS] {
                    with_ty!(ty, T => {
                        let d = <T as Pick>::pick(i);
                        let n = i.0.len();
                        let times = (*times).min(1 + 20_000_000 / (i.0.cost() as usize + 20));
                        // several inputs in turn through the same buffers, differing little: in one element, in the order of two
                        let mut xs: Vec<Vec<T>> = vec![Sig::dense(3).batch(n, 1); 7];
                        xs[1][n - 1] = T::of(-1.25);
                        xs[2][n / 2] = T::of(2.5);
                        xs[3][(times * 7919 + 1) % n] = T::of(0.75);
                        xs[4].swap((times * 104_729 + 2) % n, (times * 1_299_709 + n / 3) % n);
                        xs[5][0] = T::of(-3.0);
                        for v in xs[6].iter_mut() {
                            *v = T::of(0.0);
                        }
                        xs[6][(times * 31 + 3) % n] = T::of(1.0);
                        let mut first = vec![];
                        for x in &xs {
                            let y = call(&**d, *api, x, 0, Fill::Zero).map_err(at)?;
                            check_batch(n, x, &y, i.0.err(T::EPS)).map_err(at)?;
                            first.push(y);
                        }
                        let mut buf = xs[0].clone();
                        let mut out = buf.clone();
                        let mut sc: Vec<T> = vec![T::of(0.0); if *api == Api::Oop { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() }];
                        let r = guard(|| {
                            for j in 0..times {
                                let k = [0, 0, 1, 2, 1, 0, 3, 0, 4, 3, 5, 0, 6, 4][j % 14];
                                buf.copy_from_slice(&xs[k]);
                                match api {
                                    Api::Process => d.process(&mut buf),
                                    Api::InPlace => d.process_with_scratch(&mut buf, &mut sc),
                                    Api::Oop => d.process_outofplace_with_scratch(&mut buf, &mut out, &mut sc),
                                }
                                let y = if *api == Api::Oop { &out } else { &buf };
                                if let Some(k) = same_bits(&first[k], y) {
                                    return Err(format!("output {} changed on repetition {}", k, j + 1));
                                }
                            }
                            Ok(())
                        });
                        r.map_err(|m| at(format!("panicked during repetition: {}", m)))?.map_err(at)?;
                        calls += times as u64;
                        repeats = true;
                    });
                }
            }
        }
    }
    Ok(Info { nontrivial: calls >= 2 && (repeats || instances >= 2), labels: vec!["history".into(), (if repeats { "with repeated calls" } else { "no repeated call" }).into()], calls })
}

fn run_threads(plans: &[Plan], ty: Ty, threads: usize, ncalls: usize, build_too: bool, seed: u64) -> Outcome {
    with_ty!(ty, T => {
        let ds: Vec<Arc<dyn Dht<T>>> = plans.iter().map(|p| build::<T>(p)).collect::<Result<_, _>>()?;
        // sequential results first
        let mut want: Vec<Vec<Vec<T>>> = vec![];
        for th in 0..threads {
            let mut w = vec![];
            for j in 0..ncalls {
                let i = (th + j) % ds.len();
                let n = plans[i].len();
                let x: Vec<T> = Sig::dense(seed + (th * 1000 + j) as u64).batch(n, 1 + j % 3);
                let y = call(&*ds[i], APIS[j % 3], &x, 0, Fill::Nan)?;
                if j < 4 {
                    check_batch(n, &x, &y, plans[i].err(T::EPS))?;
                }
                w.push(y);
            }
            want.push(w);
        }
        let res: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|th| {
                let (ds, want) = (&ds, &want[th]);
                s.spawn(move || {
                    for j in 0..ncalls {
                        let i = (th + j) % ds.len();
                        let n = plans[i].len();
                        let own;
                        let d = if build_too && j % 4 == 3 { own = build::<T>(&plans[i])?; &own } else { &ds[i] };
                        let x: Vec<T> = Sig::dense(seed + (th * 1000 + j) as u64).batch(n, 1 + j % 3);
                        let y = call(&**d, APIS[j % 3], &x, 0, Fill::Nan)?;
                        if let Some(k) = same_bits(&want[j], &y) {
                            return Err(format!("thread {} call {} ({:?}, length {}): output {} is {:?} under concurrency but {:?} sequentially", th, j, APIS[j % 3], n, k, y[k], want[j][k]));
                        }
                    }
                    Ok(())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
        });
        for r in res {
            r?;
        }
        Ok(Info { nontrivial: threads >= 2, labels: vec!["threads".into()], calls: (threads * ncalls * 2) as u64 })
    })
}

fn run_schedule(plan: &Plan, threads: usize, apis: &[Api], batch: usize, seed: u64, period: u64, share: bool) -> Outcome {
    type T = Hooked;
    let d = build::<T>(plan)?;
    let d2 = if share { d.clone() } else { build::<T>(plan)? };
    let n = plan.len();
    let xs: Vec<Vec<T>> = (0..threads).map(|t| Sig::dense(seed ^ (t as u64 + 1)).batch(n, batch)).collect();
    let mut want = vec![];
    for t in 0..threads {
        let y = call(&*d, apis[t % apis.len()], &xs[t], 0, Fill::Nan)?;
        check_batch(n, &xs[t], &y, plan.err(T::EPS))?;
        want.push(y);
    }
    let _g = sched::GATE.lock().unwrap_or_else(|e| e.into_inner());
    sched::start(threads, seed, period);
    let res: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let d = if t % 2 == 0 { &d } else { &d2 };
                let (x, w) = (&xs[t], &want[t]);
                let api = apis[t % apis.len()];
                s.spawn(move || {
                    sched::enter(t);
                    let r = guard(|| call(&**d, api, x, 0, Fill::Nan));
                    sched::leave();
                    let y = r.unwrap_or_else(Err)?;
                    match same_bits(w, &y) {
                        None => Ok(()),
                        Some(k) => Err(format!("thread {} ({:?}, length {}): output {} is {:?} under this interleaving but {:?} sequentially", t, api, n, k, y[k], w[k])),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    let (points, switches) = sched::stop();
    for r in res {
        r?;
    }
    let _ = points;
    Ok(Info { nontrivial: switches >= 2, labels: vec!["schedule".into(), format!("switches<=10^{}", (switches.max(1) as f64).log10().ceil())], calls: 2 * threads as u64 })
}

fn gen_op(r: &mut TestRng, np: usize) -> Op {
    let slot = below(r, SLOTS);
    let (ty, api) = (gen_ty(r), APIS[below(r, 3)]);
    match below(r, 22) {
        20 | 21 => Op::Fuse { slot, ty, api, after: 1 + below(r, 6) as u64, batch: range(r, 1, 2) },
        0..=3 => Op::New(slot, below(r, np)),
        4 => Op::Over(slot, below(r, SLOTS), below(r, 6)),
        5..=14 => {
            // few distinct inputs, so that calls repeat
            let sig = Sig::dense(below(r, 3) as u64);
            Op::Call { slot, ty, api, sig, batch: range(r, 1, 3), fill: FILLS[below(r, FILLS.len())] }
        }
        15 | 16 => Op::Bad { slot, ty, api, how: below(r, 3) as u8 },
        17 => Op::Drop(slot),
        _ => Op::Repeat { slot, ty, api, times: range(r, 1, 300) },
    }
}
impl Prop for State {
    type Case = StateCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "stateful histories (construct, share, call, misuse, have a user-supplied inner transform panic midway, drop, repeat; up to 40 steps over 4 slots, f32 and f64) with a memo of earlier results; long repetitions of one call (up to 2^20); real threads sharing and building transforms; controlled schedules that can switch threads at every arithmetic operation. Non-trivial: a call is repeated or several instances coexist (histories), >= 2 threads, >= 2 context switches inside transforms (schedules)."
    }
    fn systematic(&self, t: Tier) -> Vec<StateCase> {
        let mut v = vec![];
        // every algorithm called very many times
        let b = |p| Box::new(p);
        let small = vec![
            Plan::B(1), Plan::B(2), Plan::B(3), Plan::B(4), Plan::B(5), Plan::B(6), Plan::B(8), Plan::B(9), Plan::B(16), Plan::Naive(3), Plan::R4(5), Plan::R4(6),
            Plan::X(2, b(Plan::B(3))), Plan::X(3, b(Plan::B(2))), Plan::X(4, b(Plan::B(3))), Plan::X(5, b(Plan::B(2))), Plan::X(6, b(Plan::B(2))),
            Plan::Mixed(b(Plan::B(2)), b(Plan::B(3))), Plan::Split(b(Plan::B(2)), b(Plan::B(4))), Plan::Raders(b(Plan::B(4))),
        ];
        for p in small {
            for api in APIS {
                for ty in t.pick(vec![Ty::F64], vec![Ty::F64, Ty::F32]) {
                    v.push(History { pool: vec![p.clone()], ops: vec![Op::New(0, 0), Op::Repeat { slot: 0, ty, api, times: 70_000 }, Op::Repeat { slot: 0, ty, api, times: 1_100_000 }] });
                }
            }
        }
        // every pair of algorithms alive at once, second built after the first was used, both orders
        let z: Vec<Plan> = zoo(2).into_iter().filter(|p| p.len() > 1).collect();
        for (i, a) in z.iter().enumerate() {
            for (j, c) in z.iter().enumerate() {
                if t == Tier::Quick && (i + j) % 3 != 0 {
                    continue;
                }
                let ty = if (i + j) % 2 == 0 { Ty::F64 } else { Ty::F32 };
                let call = |slot: usize, k: usize| Op::Call { slot, ty, api: APIS[k % 3], sig: Sig::dense(1), batch: 1, fill: Fill::Nan };
                let mut ops = vec![Op::New(0, 0)];
                ops.extend((0..3).map(|k| call(0, k)));
                ops.push(Op::New(1, 1));
                ops.extend((0..3).map(|k| call(1, k)));
                ops.extend((0..3).map(|k| call(0, k)));
                ops.push(Op::Drop(1));
                ops.extend((0..3).map(|k| call(0, k)));
                v.push(History { pool: vec![a.clone(), c.clone()], ops });
            }
        }
        // an inner transform that panics midway, at every position, must leave no trace
        let u = |n: usize| Box::new(user(n));
        let mut fused: Vec<Plan> = (2..=6).map(|k| Plan::X(k, u(7))).collect();
        fused.extend([Plan::Mixed(u(5), u(6)), Plan::Mixed(u(4), u(4)), Plan::Square(u(6)), Plan::Split(u(5), u(10)), Plan::Raders(u(10)), Plan::X(2, b(Plan::Wrap(b(Plan::R4(5))))), Plan::X(3, b(Plan::Wrap(b(Plan::Naive(8))))), Plan::X(3, b(Plan::X(4, u(5))))]);
        for p in fused {
            for api in APIS {
                for after in 1..=5 {
                    for ty in [Ty::F64, Ty::F32] {
                        let call = |k: usize| Op::Call { slot: 0, ty, api: APIS[k % 3], sig: Sig::dense(1), batch: 1 + k % 2, fill: Fill::Nan };
                        let mut ops = vec![Op::New(0, 0)];
                        ops.extend((0..3).map(call));
                        ops.push(Op::Fuse { slot: 0, ty, api, after, batch: 2 });
                        ops.extend((0..6).map(call));
                        ops.push(Op::New(1, 0));
                        ops.push(Op::Call { slot: 1, ty, api, sig: Sig::dense(1), batch: 1, fill: Fill::Nan });
                        v.push(History { pool: vec![p.clone()], ops });
                    }
                }
            }
        }
        for p in zoo(2) {
            for seed in 0..t.pick(2, 10) {
                v.push(Schedule { plan: p.clone(), threads: 2 + (seed % 2) as usize, apis: APIS.to_vec(), batch: 1 + (seed % 2) as usize, seed, period: 1 + seed * 3, share: true });
            }
            v.push(Threads { plans: vec![p.clone()], ty: Ty::F64, threads: 4, calls: 30, build_too: false, seed: 1 });
        }
        v
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(22_000, 250_000)
    }
    fn gen(&self, r: &mut TestRng, _t: Tier) -> StateCase {
        match below(r, 10) {
            0..=5 => {
                let np = range(r, 1, 4);
                let pool: Vec<Plan> = (0..np)
                    .map(|_| {
                        let max = [16, 60, 300][below(r, 3)];
                        if chance(r, 40) { gen_with_user(r, max, false) } else { gen_plan(r, &GenCfg { naive: 50, ..GenCfg::lib(max) }) }
                    })
                    .collect();
                let len = range(r, 3, 40);
                let mut ops = vec![Op::New(0, 0)];
                ops.extend((0..len).map(|_| gen_op(r, np)));
                History { pool, ops }
            }
            6 | 7 => {
                let np = range(r, 1, 2);
                let plans = (0..np).map(|_| gen_plan(r, &GenCfg { naive: 50, ..GenCfg::lib(200) })).collect();
                Threads { plans, ty: gen_ty(r), threads: range(r, 2, 6), calls: range(r, 3, 25), build_too: chance(r, 30), seed: below(r, 1000) as u64 }
            }
            _ => {
                let plan = if chance(r, 30) { gen_with_user(r, 40, false) } else { gen_plan(r, &GenCfg { naive: 12, ..GenCfg::lib(40) }) };
                Schedule {
                    plan,
                    threads: range(r, 2, 4),
                    apis: (0..3).map(|_| APIS[below(r, 3)]).collect(),
                    batch: range(r, 1, 2),
                    seed: below(r, 1 << 30) as u64,
                    period: [1, 2, 5, 20, 100][below(r, 5)],
                    share: chance(r, 80),
                }
            }
        }
    }
    fn shrink(&self, c: &StateCase) -> Vec<StateCase> {
        let mut v = vec![];
        match c {
            History { pool, ops } => {
                let mut half = ops.len() / 2;
                while half >= 1 {
                    let mut i = 0;
                    while i < ops.len() {
                        let mut o = ops.clone();
                        o.drain(i..(i + half).min(ops.len()));
                        v.push(History { pool: pool.clone(), ops: o });
                        i += half;
                    }
                    half /= 2;
                }
                for (i, o) in ops.iter().enumerate() {
                    let mut alt = vec![];
                    match o {
                        Op::Repeat { slot, ty, api, times } if *times > 1 => {
                            for t in [times / 2, times - 1] {
                                alt.push(Op::Repeat { slot: *slot, ty: *ty, api: *api, times: t });
                            }
                        }
                        Op::Call { slot, ty, api, sig, batch, fill } if *batch > 1 => alt.push(Op::Call { slot: *slot, ty: *ty, api: *api, sig: sig.clone(), batch: 1, fill: *fill }),
                        _ => {}
                    }
                    for a in alt {
                        let mut o = ops.clone();
                        o[i] = a;
                        v.push(History { pool: pool.clone(), ops: o });
                    }
                }
                for (i, p) in pool.iter().enumerate() {
                    for s in p.shrink() {
                        let mut q = pool.clone();
                        q[i] = s;
                        v.push(History { pool: q, ops: ops.clone() });
                    }
                }
            }
            Threads { plans, ty, threads, calls, build_too, seed } => {
                if *threads > 2 {
                    v.push(Threads { plans: plans.clone(), ty: *ty, threads: threads - 1, calls: *calls, build_too: *build_too, seed: *seed });
                }
                if *build_too {
                    v.push(Threads { plans: plans.clone(), ty: *ty, threads: *threads, calls: *calls, build_too: false, seed: *seed });
                }
                for (i, p) in plans.iter().enumerate() {
                    for s in p.shrink() {
                        let mut q = plans.clone();
                        q[i] = s;
                        v.push(Threads { plans: q, ty: *ty, threads: *threads, calls: *calls, build_too: *build_too, seed: *seed });
                    }
                }
            }
            Schedule { plan, threads, apis, batch, seed, period, share } => {
                let mk = |plan: &Plan, threads: usize, batch: usize| Schedule { plan: plan.clone(), threads, apis: apis.clone(), batch, seed: *seed, period: *period, share: *share };
                if *threads > 2 {
                    v.push(mk(plan, threads - 1, *batch));
                }
                if *batch > 1 {
                    v.push(mk(plan, *threads, 1));
                }
                for p in plan.shrink() {
                    v.push(mk(&p, *threads, *batch));
                }
            }
        }
        v
    }
    fn check(&self, c: &StateCase) -> Outcome {
        match c {
            History { pool, ops } => run_history(pool, ops),
            Threads { plans, ty, threads, calls, build_too, seed } => run_threads(plans, *ty, *threads, *calls, *build_too, *seed),
            Schedule { plan, threads, apis, batch, seed, period, share } => run_schedule(plan, *threads, apis, *batch, *seed, *period, *share),
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["controlled schedules switch threads only at arithmetic operations on the element type and inside user-supplied inner transforms; the free-running thread stage samples whatever the hardware does"]
    }
}
