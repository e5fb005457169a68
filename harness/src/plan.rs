//! Transform plans: trees of the library's public algorithms, with their builder, generator and shrinker.
use crate::elem::Elem;
use crate::oracle;
use proptest::test_runner::TestRng;
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::{Fft, Length};
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use proptest::prelude::Rng;

pub fn below(r: &mut TestRng, n: usize) -> usize {
    if n <= 1 { 0 } else { (r.next_u64() % n as u64) as usize }
}
pub fn range(r: &mut TestRng, lo: usize, hi: usize) -> usize {
    lo + below(r, hi - lo + 1)
}
pub fn chance(r: &mut TestRng, pct: u32) -> bool {
    below(r, 100) < pct as usize
}

/// How the harness's own inner transform behaves (always within the trait's contract).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RefSpec {
    pub n: usize,
    /// advertised scratch requirements
    pub inp: usize,
    pub oop: usize,
    /// leave NaN in everything the contract calls garbage (scratch, out-of-place input)
    pub trash: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plan {
    Naive(usize),
    B(usize),
    R4(u32),
    Split(Box<Plan>, Box<Plan>),
    Mixed(Box<Plan>, Box<Plan>),
    X(usize, Box<Plan>),
    Raders(Box<Plan>),
    Ref(RefSpec),
    /// general mixed radix whose width and height transforms are one shared object
    Square(Box<Plan>),
    /// a user-supplied transform that delegates to a library transform through `process`
    Wrap(Box<Plan>),
}
use Plan::*;

pub const BFLY: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 9, 16];

thread_local! {
    /// elements transformed by user-supplied inner transforms on this thread
    pub static ELEMS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// 0 = off; k = the k-th call of a user-supplied inner transform on this thread panics
    pub static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn burn() {
    let k = FUSE.with(|f| f.get());
    if k > 0 {
        FUSE.with(|f| f.set(k - 1));
        if k == 1 {
            panic!("FUSE: the user's inner transform panics");
        }
    }
}
/// A user-supplied transform that delegates to another one through its `process` convenience method.
pub struct WrapDht<T>(Arc<dyn Dht<T>>);
impl<T: Elem> Dht<T> for WrapDht<T> {
    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
        burn();
        crate::sched::point();
        self.0.process(buffer);
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], _scratch: &mut [T]) {
        burn();
        crate::sched::point();
        output.copy_from_slice(input);
        self.0.process(output);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        0
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
impl<T: Elem> Length for WrapDht<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// A conforming `Dht` supplied by the "user": accurate, checks that it is called within the contract,
/// and makes full use of the freedom the contract gives it.
pub struct RefDht<T> {
    spec: RefSpec,
    fft: Option<Arc<dyn Fft<f64>>>,
    /// cas(2 pi j / n), for the direct evaluation of short lengths
    table: Vec<f64>,
    _p: std::marker::PhantomData<T>,
}
impl<T: Elem> RefDht<T> {
    pub fn new(spec: RefSpec) -> Self {
        let fft = if spec.n > 16 { Some(oracle::fft(spec.n)) } else { None };
        let table = if fft.is_none() { (0..spec.n).map(|j| oracle::cas(j, spec.n)).collect() } else { vec![] };
        RefDht { spec, fft, table, _p: std::marker::PhantomData }
    }
    fn chunk(&self, x: &[T]) -> Vec<T> {
        let n = x.len();
        let mut comps: Vec<[f64; 2]> = vec![[0.0; 2]; n];
        for c in 0..T::NC {
            let v: Vec<f64> = x.iter().map(|e| e.tc()[c]).collect();
            let y = match &self.fft {
                Some(f) => oracle::dht_fft(&v, &**f),
                None => (0..n).map(|k| v.iter().enumerate().map(|(i, x)| x * self.table[i * k % n]).sum()).collect(),
            };
            for (d, s) in comps.iter_mut().zip(&y) {
                d[c] = *s;
            }
        }
        comps.into_iter().map(T::fc).collect()
    }
    fn trash(&self, s: &mut [T]) {
        if self.spec.trash {
            for v in s.iter_mut() {
                *v = T::nan();
            }
        }
    }
    /// both ends of a long scratch only: a composite may call row by row with the same long scratch every time
    fn trash_scratch(&self, s: &mut [T], work: usize) {
        let (len, k) = (s.len(), 2 * work + 2048);
        if len <= 2 * k {
            self.trash(s);
        } else {
            self.trash(&mut s[..k]);
            self.trash(&mut s[len - 256..]);
        }
    }
}
impl<T: Elem> Dht<T> for RefDht<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let n = self.spec.n;
        ELEMS.with(|e| e.set(e.get() + buffer.len() as u64));
        assert!(buffer.len() >= n && buffer.len() % n == 0, "INNER-CONTRACT: in-place inner transform of length {} called with a buffer of {}", n, buffer.len());
        assert!(scratch.len() >= self.spec.inp, "INNER-CONTRACT: inner transform advertised in-place scratch {} but got {}", self.spec.inp, scratch.len());
        crate::sched::point();
        self.trash_scratch(scratch, buffer.len());
        burn();
        for c in buffer.chunks_exact_mut(n) {
            let y = self.chunk(c);
            self.trash(c);
            crate::sched::point();
            c.copy_from_slice(&y);
        }
        crate::sched::point();
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        let n = self.spec.n;
        ELEMS.with(|e| e.set(e.get() + input.len() as u64));
        assert!(input.len() == output.len(), "INNER-CONTRACT: inner transform called with input {} and output {}", input.len(), output.len());
        assert!(input.len() >= n && input.len() % n == 0, "INNER-CONTRACT: out-of-place inner transform of length {} called with a buffer of {}", n, input.len());
        assert!(scratch.len() >= self.spec.oop, "INNER-CONTRACT: inner transform advertised out-of-place scratch {} but got {}", self.spec.oop, scratch.len());
        crate::sched::point();
        self.trash_scratch(scratch, input.len());
        burn();
        for (i, o) in input.chunks_exact_mut(n).zip(output.chunks_exact_mut(n)) {
            let y = self.chunk(i);
            self.trash(i);
            crate::sched::point();
            o.copy_from_slice(&y);
        }
        crate::sched::point();
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.spec.inp
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.spec.oop
    }
}
impl<T> Length for RefDht<T> {
    fn len(&self) -> usize {
        self.spec.n
    }
}

impl Plan {
    pub fn len(&self) -> usize {
        match self {
            Naive(n) | B(n) => *n,
            R4(p) => 1 << p,
            Split(q, _) => 4 * q.len(),
            Mixed(a, b) => a.len() * b.len(),
            Square(a) => a.len() * a.len(),
            Wrap(a) => a.len(),
            X(k, h) => k * h.len(),
            Raders(i) => i.len() + 1,
            Ref(s) => s.n,
        }
    }
    /// Construct with the library's public constructors. May panic inside the library.
    pub fn build<T: Elem>(&self) -> Arc<dyn Dht<T>> {
        match self {
            Naive(n) => Arc::new(DhtNaive::new(*n)),
            B(1) => Arc::new(Butterfly1::new()),
            B(2) => Arc::new(Butterfly2::new()),
            B(3) => Arc::new(Butterfly3::new()),
            B(4) => Arc::new(Butterfly4::new()),
            B(5) => Arc::new(Butterfly5::new()),
            B(6) => Arc::new(Butterfly6::new()),
            B(8) => Arc::new(Butterfly8::new()),
            B(9) => Arc::new(Butterfly9::new()),
            B(16) => Arc::new(Butterfly16::new()),
            B(n) => unreachable!("no butterfly {}", n),
            R4(p) => Arc::new(Radix4::new(1usize << p)),
            Split(q, h) => Arc::new(SplitRadix::new(q.build(), h.build())),
            Mixed(w, h) => Arc::new(MixedRadix::new(w.build(), h.build())),
            Square(a) => {
                let d = a.build();
                Arc::new(MixedRadix::new(d.clone(), d))
            }
            Wrap(a) => Arc::new(WrapDht(a.build())),
            X(2, h) => Arc::new(MixedRadix2xn::new(h.build())),
            X(3, h) => Arc::new(MixedRadix3xn::new(h.build())),
            X(4, h) => Arc::new(MixedRadix4xn::new(h.build())),
            X(5, h) => Arc::new(MixedRadix5xn::new(h.build())),
            X(6, h) => Arc::new(MixedRadix6xn::new(h.build())),
            X(k, _) => unreachable!("no {}xn", k),
            Raders(i) => Arc::new(RadersAlgorithm::new(i.build())),
            Ref(s) => Arc::new(RefDht::new(s.clone())),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Naive(_) => "naive",
            B(_) => "butterfly",
            R4(_) => "radix4",
            Split(..) => "split",
            Mixed(..) => "mixed",
            Square(_) => "mixed(shared)",
            Wrap(_) => "user(delegating)",
            X(2, _) => "2xn",
            X(3, _) => "3xn",
            X(4, _) => "4xn",
            X(5, _) => "5xn",
            X(_, _) => "6xn",
            Raders(_) => "raders",
            Ref(_) => "user",
        }
    }
    pub fn children(&self) -> Vec<&Plan> {
        match self {
            Split(a, b) | Mixed(a, b) => vec![a, b],
            X(_, a) | Raders(a) | Square(a) | Wrap(a) => vec![a],
            _ => vec![],
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn has_ref(&self) -> bool {
        matches!(self, Ref(_) | Wrap(_)) || self.children().iter().any(|c| c.has_ref())
    }
    /// Model of the relative rounding error (2-norm) of this plan for an element type with unit roundoff
    /// `eps`: linear in the depth for the fast algorithms, growing with n for recursive summation.
    /// Calibrated on the correct library (see DESIGN.md).
    pub fn err(&self, eps: f64) -> f64 {
        let u64 = f64::EPSILON / 2.0;
        match self {
            Naive(n) => eps * (3.0 + *n as f64 / 9.0),
            B(_) => 3.0 * eps,
            R4(p) => eps * (2.0 + 0.5 * *p as f64),
            Split(a, b) => 2.0 * eps + a.err(eps).max(b.err(eps)),
            Mixed(a, b) => 2.0 * eps + a.err(eps) + b.err(eps),
            Square(a) => 2.0 * eps + 2.0 * a.err(eps),
            Wrap(a) => a.err(eps),
            X(_, h) => 2.5 * eps + h.err(eps),
            // the convolution's twiddle table has a systematic angle error that a strong constant component amplifies
            Raders(i) => 3.0 * eps + 3.0 * i.err(eps) + u64 * (self.len() as f64).sqrt(),
            Ref(s) => eps + oracle::ref_err(s.n),
        }
    }
    /// rough number of multiply-adds of one transform (to keep generated cases affordable)
    pub fn cost(&self) -> f64 {
        let n = self.len() as f64;
        match self {
            Naive(_) => n * n,
            B(_) => n * 4.0,
            R4(p) => n * (*p as f64 + 1.0) * 3.0,
            Split(q, h) => 2.0 * q.cost() + h.cost() + 6.0 * n,
            Mixed(a, b) => b.len() as f64 * a.cost() + a.len() as f64 * b.cost() + 8.0 * n,
            Square(a) => 2.0 * a.len() as f64 * a.cost() + 8.0 * n,
            Wrap(a) => a.cost(),
            X(k, h) => *k as f64 * h.cost() + 8.0 * n,
            Raders(i) => 2.0 * i.cost() + 10.0 * n,
            Ref(_) => n * (n.log2() + 1.0) * 8.0,
        }
    }
    pub fn shrink(&self) -> Vec<Plan> {
        let mut v = vec![];
        let n = self.len();
        match self {
            Naive(n) => {
                for m in [1, n / 2, n - 1] {
                    if m >= 1 && m < *n {
                        v.push(Naive(m));
                    }
                }
            }
            B(n) => {
                for m in BFLY {
                    if m < *n {
                        v.push(B(m));
                    }
                }
            }
            R4(p) => {
                for q in [0, p / 2, p.saturating_sub(1)] {
                    if q < *p {
                        v.push(R4(q));
                    }
                }
            }
            Ref(s) => {
                for m in [1, s.n / 2, s.n - 1] {
                    if m >= 1 && m < s.n {
                        v.push(Ref(RefSpec { n: m, ..s.clone() }));
                    }
                }
                if s.inp > 0 {
                    v.push(Ref(RefSpec { inp: 0, ..s.clone() }));
                    v.push(Ref(RefSpec { inp: s.inp / 2, ..s.clone() }));
                    v.push(Ref(RefSpec { inp: s.inp - 1, ..s.clone() }));
                }
                if s.oop > 0 {
                    v.push(Ref(RefSpec { oop: 0, ..s.clone() }));
                    v.push(Ref(RefSpec { oop: s.oop / 2, ..s.clone() }));
                    v.push(Ref(RefSpec { oop: s.oop - 1, ..s.clone() }));
                }
                if s.trash {
                    v.push(Ref(RefSpec { trash: false, ..s.clone() }));
                }
            }
            _ => {}
        }
        for c in self.children() {
            v.push(c.clone());
        }
        match self {
            Split(q, h) => {
                let ql = q.len();
                for m in [1, ql / 2, ql - 1] {
                    if m >= 1 && m < ql {
                        v.push(Split(Box::new(simple(m)), Box::new(simple(2 * m))));
                    }
                }
                if !matches!(**q, Naive(_) | B(_)) {
                    v.push(Split(Box::new(simple(ql)), h.clone()));
                }
                if !matches!(**h, Naive(_) | B(_)) {
                    v.push(Split(q.clone(), Box::new(simple(2 * ql))));
                }
                for a in q.shrink() {
                    if a.len() == ql {
                        v.push(Split(Box::new(a), h.clone()));
                    }
                }
                for b in h.shrink() {
                    if b.len() == 2 * ql {
                        v.push(Split(q.clone(), Box::new(b)));
                    }
                }
            }
            Mixed(a, b) => {
                for s in a.shrink() {
                    v.push(Mixed(Box::new(s), b.clone()));
                }
                for s in b.shrink() {
                    v.push(Mixed(a.clone(), Box::new(s)));
                }
                if !matches!(**a, Naive(_) | B(_)) {
                    v.push(Mixed(Box::new(simple(a.len())), b.clone()));
                }
                if !matches!(**b, Naive(_) | B(_)) {
                    v.push(Mixed(a.clone(), Box::new(simple(b.len()))));
                }
            }
            Square(a) => {
                v.push(Mixed(a.clone(), a.clone()));
                if !matches!(**a, Naive(_) | B(_)) {
                    v.push(Square(Box::new(simple(a.len()))));
                }
                for s in a.shrink() {
                    v.push(Square(Box::new(s)));
                }
            }
            Wrap(a) => {
                for s in a.shrink() {
                    v.push(Wrap(Box::new(s)));
                }
            }
            X(k, h) => {
                if !matches!(**h, Naive(_) | B(_)) {
                    v.push(X(*k, Box::new(simple(h.len()))));
                }
                for s in h.shrink() {
                    v.push(X(*k, Box::new(s)));
                }
            }
            Raders(i) => {
                let p = i.len() + 1;
                if !matches!(**i, Naive(_) | B(_)) {
                    v.push(Raders(Box::new(simple(i.len()))));
                }
                for q in [2, prev_prime(p / 2), prev_prime(p - 1)] {
                    if q >= 2 && q < p {
                        v.push(Raders(Box::new(simple(q - 1))));
                    }
                }
                for s in i.shrink() {
                    if s.len() == i.len() {
                        v.push(Raders(Box::new(s)));
                    }
                }
            }
            _ => {}
        }
        if n <= 2048 && !matches!(self, Naive(_) | B(_) | Ref(_)) {
            v.push(Naive(n));
        }
        v
    }
}
/// simplest leaf of a given length
pub fn simple(n: usize) -> Plan {
    if n <= 4096 { Naive(n) } else { user(n) }
}
/// a well-behaved but fully contract-exploiting user transform
pub fn user(n: usize) -> Plan {
    Ref(RefSpec { n, inp: 0, oop: 0, trash: true })
}
pub fn is_prime(n: usize) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}
pub fn prev_prime(mut n: usize) -> usize {
    while n >= 2 {
        if is_prime(n) {
            return n;
        }
        n -= 1;
    }
    2
}
pub fn primes(lo: usize, hi: usize) -> Vec<usize> {
    (lo.max(2)..=hi).filter(|&n| is_prime(n)).collect()
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    /// longest generated transform
    pub max: usize,
    /// longest naive leaf, unless nothing else fits
    pub naive: usize,
    /// percentage of leaves that are user-supplied transforms
    pub user: u32,
    /// give user transforms arbitrary scratch requirements
    pub greedy: bool,
    pub depth: usize,
}
impl GenCfg {
    pub fn lib(max: usize) -> Self {
        GenCfg { max, naive: 200, user: 0, greedy: false, depth: 6 }
    }
    pub fn with_user(max: usize, pct: u32, greedy: bool) -> Self {
        GenCfg { max, naive: 100, user: pct, greedy, depth: 5 }
    }
}
pub fn gen_user(r: &mut TestRng, n: usize, greedy: bool) -> Plan {
    let pick = |r: &mut TestRng| {
        if !greedy {
            return 0;
        }
        match below(r, 6) {
            0 => 0,
            1 => 1,
            2 => n,
            3 => range(r, 0, 2 * n),
            4 => range(r, 0, 8 * n + 4),
            _ => range(r, n, 40 * n.min(50) + 8 * n),
        }
    };
    Ref(RefSpec { n, inp: pick(r), oop: pick(r), trash: chance(r, 80) })
}
pub fn gen_len(r: &mut TestRng, max: usize) -> usize {
    match below(r, 100) {
        0..=24 => range(r, 1, max.min(64)),
        25..=59 => {
            // smooth
            let mut n = 1;
            let target = range(r, 2, max.max(2));
            loop {
                let f = [2, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16][below(r, 12)];
                if n * f > target {
                    return n;
                }
                n *= f;
            }
        }
        84 => {
            let m = range(r, 1, (max as f64).sqrt() as usize);
            m * m
        }
        60..=69 => {
            let b = (max as f64).log2() as u32;
            1 << range(r, 0, b as usize)
        }
        70..=83 => prev_prime(range(r, 2, max.max(2))),
        _ => range(r, 1, max),
    }
}
/// A random plan of exactly length n.
pub fn gen_exact(r: &mut TestRng, n: usize, cfg: &GenCfg, depth: usize) -> Plan {
    if cfg.user > 0 && chance(r, cfg.user) && depth > 0 {
        if chance(r, 20) && depth < cfg.depth {
            return Wrap(Box::new(gen_exact(r, n, &GenCfg { user: 0, ..*cfg }, depth + 1)));
        }
        return gen_user(r, n, cfg.greedy);
    }
    let mut leaf: Vec<u8> = vec![];
    if n <= cfg.naive {
        leaf.push(0);
    }
    if BFLY.contains(&n) {
        leaf.push(1);
        leaf.push(1);
    }
    if n.is_power_of_two() {
        leaf.push(2);
    }
    let mut opts: Vec<u8> = leaf.clone();
    let divs: Vec<usize> = (1..=n).take_while(|d| d * d <= n).filter(|d| n % d == 0).flat_map(|d| [d, n / d]).collect();
    if depth < cfg.depth {
        for k in 2..=6 {
            if n % k == 0 {
                opts.extend([10 + k as u8; 2]);
            }
        }
        if n % 4 == 0 {
            opts.extend([20; 3]);
        }
        if n > 1 || chance(r, 30) {
            opts.extend([21; 3]);
        }
        if is_prime(n) {
            opts.extend([22; 3]);
        }
    }
    // a product with a factor 1 makes no progress: allow it rarely
    if opts.is_empty() || (depth >= cfg.depth && leaf.is_empty()) {
        if is_prime(n) && depth < cfg.depth + 4 {
            return Raders(Box::new(gen_exact(r, n - 1, cfg, depth + 1)));
        }
        if depth < cfg.depth + 4 {
            if let Some(&d) = divs.iter().find(|&&d| d > 1 && d < n) {
                let (a, b) = (gen_exact(r, d, cfg, depth + 1), gen_exact(r, n / d, cfg, depth + 1));
                return Mixed(Box::new(a), Box::new(b));
            }
        }
        return if n <= 2000 { Naive(n) } else { gen_user(r, n, cfg.greedy) };
    }
    match opts[below(r, opts.len())] {
        0 => Naive(n),
        1 => B(n),
        2 => R4(n.trailing_zeros()),
        k @ 12..=16 => X(k as usize - 10, Box::new(gen_exact(r, n / (k as usize - 10), cfg, depth + 1))),
        20 => Split(Box::new(gen_exact(r, n / 4, cfg, depth + 1)), Box::new(gen_exact(r, n / 2, cfg, depth + 1))),
        21 => {
            let nontriv: Vec<usize> = divs.iter().copied().filter(|&d| d > 1 && d < n).collect();
            if let (Some(&d), true) = (nontriv.iter().find(|&&d| d * d == n), chance(r, 40)) {
                return Square(Box::new(gen_exact(r, d, cfg, depth + 1)));
            }
            let d = if nontriv.is_empty() || chance(r, 8) { [1, n][below(r, 2)] } else { nontriv[below(r, nontriv.len())] };
            let (a, b) = (gen_exact(r, d, cfg, depth + 1), gen_exact(r, n / d, cfg, depth + 1));
            Mixed(Box::new(a), Box::new(b))
        }
        _ => Raders(Box::new(gen_exact(r, n - 1, cfg, depth + 1))),
    }
}
/// A random plan, by construction within the size and cost limits.
pub fn gen_plan(r: &mut TestRng, cfg: &GenCfg) -> Plan {
    let n = gen_len(r, cfg.max);
    let p = gen_exact(r, n, cfg, 0);
    if p.cost() > 4.0e6 {
        // too much recursive-summation work: same length, cheaper leaves
        let c2 = GenCfg { naive: 32, depth: 8, ..*cfg };
        let p = gen_exact(r, n, &c2, 0);
        if p.cost() > 4.0e7 {
            return Naive(n.min(512));
        }
        return p;
    }
    p
}
