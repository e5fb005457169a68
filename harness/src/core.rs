//! Calling the library under observation.
use crate::elem::Elem;
use crate::oracle;
use crate::plan::Plan;
use rustdht::Dht;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    F32,
    F64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Api {
    Process,
    InPlace,
    Oop,
}
pub const APIS: [Api; 3] = [Api::Process, Api::InPlace, Api::Oop];

/// prior contents of scratch and output buffers
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fill {
    Nan,
    Zero,
    Inf,
    Huge,
    Noise,
    Tiny,
    /// zero at the start, then anything
    Lead0,
    /// zeros, NaN and numbers in turn
    Mixed,
    /// a constant
    Ones,
    /// the input itself
    Echo,
}
pub const FILLS: [Fill; 10] = [Fill::Nan, Fill::Zero, Fill::Inf, Fill::Huge, Fill::Noise, Fill::Tiny, Fill::Lead0, Fill::Mixed, Fill::Ones, Fill::Echo];
pub fn fill_val<T: Elem>(f: Fill, i: usize) -> T {
    match f {
        Fill::Nan => T::nan(),
        Fill::Zero => T::fc([0.0, 0.0]),
        Fill::Inf => T::fc(if i % 2 == 0 { [f64::INFINITY; 2] } else { [f64::NEG_INFINITY; 2] }),
        Fill::Huge => T::fc([1e30 * if i % 3 == 0 { -1.0 } else { 1.0 }; 2]),
        Fill::Noise => T::of(crate::signal::unit(77, i) * 100.0),
        Fill::Tiny => T::fc([1e-30; 2]),
        Fill::Lead0 => if i < 2 { T::fc([0.0; 2]) } else { T::of(crate::signal::unit(78, i) * 10.0) },
        Fill::Mixed => match i % 5 {
            0 | 3 => T::fc([0.0; 2]),
            1 => T::nan(),
            _ => T::of(crate::signal::unit(79, i)),
        },
        Fill::Ones | Fill::Echo => T::fc([1.0; 2]),
    }
}

thread_local! {
    /// buffers made since the start of the case: each starts at a different alignment
    pub static SKEW: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Memory between two inaccessible pages.
pub struct Arena {
    base: *mut u8,
    busy: std::cell::Cell<bool>,
}
const ARENA: usize = 1 << 20;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// on the heap, canaries on both sides
    Heap,
    /// ending where an inaccessible page begins
    End,
    /// starting where an inaccessible page ends
    Start,
}
thread_local! {
    /// where the next caller buffers go
    pub static PLACE: std::cell::Cell<Place> = const { std::cell::Cell::new(Place::Heap) };
    static ARENAS: [Arena; 3] = [Arena::new(), Arena::new(), Arena::new()];
}
impl Arena {
    fn new() -> Arena {
        unsafe {
            let page = 4096;
            let p = libc::mmap(std::ptr::null_mut(), ARENA + 2 * page, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            let base = (p as *mut u8).add(page);
            assert_eq!(libc::mprotect(base as *mut _, ARENA, libc::PROT_READ | libc::PROT_WRITE), 0, "mprotect");
            Arena { base, busy: std::cell::Cell::new(false) }
        }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.sub(4096) as *mut _, ARENA + 8192) };
    }
}
/// A caller buffer under observation: canaries on both sides, or an inaccessible page on one of them.
pub struct Guarded<T> {
    v: Vec<T>,
    n: usize,
    at: usize,
    /// arena index, whole watched area
    map: Option<(usize, *mut T, usize)>,
}
/// none under AddressSanitizer, whose own red zones must start right at the slice
pub const GUARD: usize = if cfg!(feature = "asan") { 0 } else { 48 };
impl<T: Elem> Guarded<T> {
    pub fn new(data: &[T]) -> Self {
        let place = PLACE.with(|p| p.get());
        let size = std::mem::size_of::<T>();
        if place != Place::Heap && (data.len() + GUARD) * size <= ARENA {
            let hit = ARENAS.with(|a| {
                let i = a.iter().position(|x| !x.busy.get())?;
                a[i].busy.set(true);
                Some((i, a[i].base))
            });
            if let Some((i, base)) = hit {
                let total = data.len() + GUARD;
                let (area, at) = match place {
                    Place::End => (unsafe { base.add(ARENA - total * size) } as *mut T, GUARD),
                    _ => (base as *mut T, 0),
                };
                let all = unsafe {
                    for k in 0..total {
                        area.add(k).write(T::canary());
                    }
                    std::slice::from_raw_parts_mut(area, total)
                };
                all[at..at + data.len()].copy_from_slice(data);
                return Guarded { v: vec![], n: data.len(), at, map: Some((i, area, total)) };
            }
        }
        let k = SKEW.with(|s| s.replace(s.get() + 1));
        let at = if GUARD == 0 { 0 } else { GUARD + k * 5 % 8 };
        let mut v = Vec::with_capacity(data.len() + at + GUARD);
        v.resize(at, T::canary());
        v.extend_from_slice(data);
        v.resize(data.len() + at + GUARD, T::canary());
        Guarded { v, n: data.len(), at, map: None }
    }
    pub fn filled(n: usize, f: Fill) -> Self {
        let d: Vec<T> = (0..n).map(|i| fill_val(f, i)).collect();
        Self::new(&d)
    }
    fn all(&self) -> &[T] {
        match self.map {
            Some((_, p, n)) => unsafe { std::slice::from_raw_parts(p, n) },
            None => &self.v,
        }
    }
    pub fn s(&mut self) -> &mut [T] {
        let (n, at) = (self.n, self.at);
        match self.map {
            Some((_, p, _)) => unsafe { std::slice::from_raw_parts_mut(p.add(at), n) },
            None => &mut self.v[at..at + n],
        }
    }
    pub fn get(&self) -> &[T] {
        &self.all()[self.at..self.at + self.n]
    }
    pub fn intact(&self) -> bool {
        let v = self.all();
        v[..self.at].iter().all(|x| x.is_canary()) && v[self.at + self.n..].iter().all(|x| x.is_canary())
    }
}
impl<T> Drop for Guarded<T> {
    fn drop(&mut self) {
        if let Some((i, _, _)) = self.map {
            ARENAS.with(|a| a[i].busy.set(false));
        }
    }
}

pub fn pmsg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
/// run library code; a panic becomes Err(message)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(pmsg)
}

/// Outcome of one raw call with explicit sizes.
pub struct RawCall<T> {
    pub panicked: Option<String>,
    pub out: Vec<T>,
    pub guards_ok: bool,
}
fn prior<T: Elem>(n: usize, f: Fill, data: &[T]) -> Guarded<T> {
    if f == Fill::Echo && !data.is_empty() {
        let d: Vec<T> = (0..n).map(|i| data[i % data.len()]).collect();
        return Guarded::new(&d);
    }
    Guarded::filled(n, f)
}
/// A call with arbitrary (possibly invalid) buffer sizes, under canaries.
pub fn raw_call<T: Elem>(d: &dyn Dht<T>, api: Api, data: &[T], out_len: usize, scratch_len: usize, fill: Fill) -> RawCall<T> {
    let mut buf = Guarded::new(data);
    match api {
        Api::Process => {
            let r = guard(|| d.process(buf.s()));
            RawCall { panicked: r.err(), guards_ok: buf.intact(), out: buf.get().to_vec() }
        }
        Api::InPlace => {
            let mut sc = prior(scratch_len, fill, data);
            let r = guard(|| d.process_with_scratch(buf.s(), sc.s()));
            RawCall { panicked: r.err(), guards_ok: buf.intact() && sc.intact(), out: buf.get().to_vec() }
        }
        Api::Oop => {
            let mut sc = prior(scratch_len, fill, data);
            let mut out = prior(out_len, fill, data);
            let r = guard(|| d.process_outofplace_with_scratch(buf.s(), out.s(), sc.s()));
            RawCall { panicked: r.err(), guards_ok: buf.intact() && sc.intact() && out.intact(), out: out.get().to_vec() }
        }
    }
}
/// A valid call: advertised scratch plus `extra`.
pub fn call<T: Elem>(d: &dyn Dht<T>, api: Api, x: &[T], extra: usize, fill: Fill) -> Result<Vec<T>, String> {
    let sl = match api {
        Api::Process => 0,
        Api::InPlace => d.get_inplace_scratch_len() + extra,
        Api::Oop => d.get_outofplace_scratch_len() + extra,
    };
    if sl > 1 << 28 {
        return Err(format!("absurd scratch requirement {} for length {}", sl, d.len()));
    }
    let r = raw_call(d, api, x, x.len(), sl, fill);
    if let Some(m) = r.panicked {
        return Err(format!("{:?} on a valid buffer of {} (transform length {}) panicked: {}", api, x.len(), d.len(), m));
    }
    if !r.guards_ok {
        return Err(format!("{:?} wrote outside the caller's buffers (transform length {}, buffer {})", api, d.len(), x.len()));
    }
    Ok(r.out)
}
pub fn build<T: Elem>(p: &Plan) -> Result<Arc<dyn Dht<T>>, String> {
    let d = guard(|| p.build::<T>()).map_err(|m| format!("constructor panicked: {}", m))?;
    if d.len() != p.len() {
        return Err(format!("transform reports length {} but was built for {}", d.len(), p.len()));
    }
    Ok(d)
}

pub fn comp<T: Elem>(x: &[T], c: usize) -> Vec<f64> {
    x.iter().map(|v| v.tc()[c]).collect()
}
pub fn norm(x: &[f64]) -> f64 {
    let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    // compensated: plain summation of thousands of equal terms drifts by n*eps
    let (mut sum, mut c) = (0.0f64, 0.0f64);
    for v in x {
        let t = (v / m) * (v / m) - c;
        let u = sum + t;
        c = (u - sum) - t;
        sum = u;
    }
    m * sum.sqrt()
}
/// safety factor on the calibrated error model
pub const K: f64 = 6.0;

thread_local! { pub static CTX: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) }; }
/// calibration of the error model (only with DHT_CALIB set): worst observed error / modelled error, by algorithm
pub static CALIB: std::sync::Mutex<std::collections::BTreeMap<String, (f64, String)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn calib() -> bool {
    static C: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *C.get_or_init(|| std::env::var_os("DHT_CALIB").is_some())
}

/// Compare an output vector with an expected one (in f64), tolerance `tol` in the 2-norm.
/// On mismatch report the worst bin.
pub fn close(exp: &[f64], got: &[f64], tol: f64) -> Result<(), (usize, f64)> {
    let mut worst = (0usize, 0.0f64);
    let mut diff = Vec::with_capacity(exp.len());
    for (k, (e, g)) in exp.iter().zip(got).enumerate() {
        let d = (e - g).abs();
        if !(d <= worst.1) {
            worst = (k, d);
            if d.is_nan() {
                return Err((k, d));
            }
        }
        diff.push(d);
    }
    let nd = norm(&diff);
    if nd <= tol { Ok(()) } else { Err((worst.0, nd)) }
}
/// The central oracle: `out` is the DHT of `x` to within the element type's rounding.
/// x is one chunk.
pub fn check_dht<T: Elem>(x: &[T], out: &[T], err: f64) -> Result<(), String> {
    for c in 0..T::NC {
        let xs = comp(x, c);
        let ys = comp(out, c);
        let e = oracle::dht_ref(&xs);
        check_against::<T>(&xs, &ys, &e, err)?;
    }
    Ok(())
}
pub fn check_against<T: Elem>(xs: &[f64], ys: &[f64], e: &[f64], err: f64) -> Result<(), String> {
    let n = xs.len();
    let scale = norm(xs) * (n as f64).sqrt();
    // the second term only matters for subnormal signals
    let tol = K * (err + oracle::ref_err(n)) * scale + 4.0 * n as f64 * T::TINY;
    if let Err((k, nd)) = close(e, ys, tol) {
        // re-decide from the definition itself
        let mut worst: Option<(usize, f64, f64)> = None;
        let mut ss = 0.0;
        let bins: Vec<usize> = if n <= 3000 { (0..n).collect() } else { vec![k] };
        for k in bins {
            let d = oracle::direct_bin(xs, k);
            let er = (d - ys[k]).abs();
            if er.is_nan() {
                worst = Some((k, d, f64::NAN));
                ss = f64::NAN;
                break;
            }
            ss += (er / tol.max(f64::MIN_POSITIVE)).powi(2);
            if worst.map_or(true, |w| er > w.2) {
                worst = Some((k, d, er));
            }
        }
        // for long vectors the norm cannot be recomputed cheaply: require the single bin to be off by
        // more than the average share, or trust the FFT (itself within tolerance on every other run)
        if ss.sqrt() <= 1.0 && n <= 3000 {
            return Ok(());
        }
        let (k, d, er) = worst.unwrap();
        if n > 3000 && er <= tol / (n as f64).sqrt() {
            return Ok(());
        }
        return Err(format!(
            "length {}: output[{}] = {:e}, DHT definition gives {:e} (error {:.3e}; 2-norm error {:.3e} > tolerance {:.3e}, |x|={:.3e})",
            n, k, ys[k], d, er, nd, tol, norm(xs)
        ));
    }
    if calib() && scale > 0.0 {
        let diff: Vec<f64> = e.iter().zip(ys).map(|(a, b)| a - b).collect();
        let ratio = K * norm(&diff) / tol;
        CTX.with(|c| {
            let mut g = CALIB.lock().unwrap();
            let (key, det) = &*c.borrow();
            let e = g.entry(format!("{} {}", key, if T::EPS > 1e-10 { "f32" } else { "f64" })).or_insert((0.0, String::new()));
            if ratio > e.0 {
                *e = (ratio, det.clone());
            }
        });
    }
    Ok(())
}
/// every chunk of a batched call
pub fn check_batch<T: Elem>(n: usize, x: &[T], out: &[T], err: f64) -> Result<(), String> {
    if out.len() != x.len() {
        return Err("output length changed".into());
    }
    for (c, (a, b)) in x.chunks(n).zip(out.chunks(n)).enumerate() {
        check_dht(a, b, err).map_err(|m| format!("chunk {}: {}", c, m))?;
    }
    Ok(())
}
pub fn same_bits<T: Elem>(a: &[T], b: &[T]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    // any NaN equals any NaN: payloads are not part of the contract
    a.iter().zip(b).position(|(x, y)| {
        let (p, q) = (x.tc(), y.tc());
        (0..T::NC).any(|c| !(p[c].is_nan() && q[c].is_nan()) && x.bits()[c] != y.bits()[c])
    })
}
