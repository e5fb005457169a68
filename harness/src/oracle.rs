//! The reference: X[k] = sum_i x[i] * (cos(2*pi*i*k/n) + sin(2*pi*i*k/n)).
//! `direct_bin` evaluates the definition for one k (octant-reduced angles, compensated dot product).
//! `dht_ref` uses it for small n, and for larger n an f64 complex FFT (rustfft); every disagreement
//! with the library is re-decided by `direct_bin` before it is reported.
use num_complex::Complex;
use rustfft::{Fft, FftPlanner};
use std::cell::RefCell;
use std::sync::Arc;

/// cos(2 pi j/n) + sin(2 pi j/n), for 0 <= j < n
pub fn cas(j: usize, n: usize) -> f64 {
    // reduce to the first octant exactly (integer arithmetic)
    let j8 = 8 * j as u128;
    let n1 = n as u128;
    let oct = (j8 / n1) as u32; // 0..8
    let rem = j8 - oct as u128 * n1; // 0 <= rem < n ; angle = (oct + rem/n) * pi/4
    let q = std::f64::consts::FRAC_PI_4;
    let (s, c) = if oct % 2 == 0 {
        let a = q * (rem as f64 / n as f64);
        (a.sin(), a.cos())
    } else {
        // angle within the odd octant measured back from the next axis
        let a = q * ((n1 - rem) as f64 / n as f64);
        (a.cos(), a.sin())
    };
    // now (c,s) is cos/sin of the angle relative to the quadrant start
    let (cq, sq) = match (oct / 2) % 4 {
        0 => (c, s),
        1 => (-s, c),
        2 => (-c, -s),
        _ => (s, -c),
    };
    cq + sq
}

/// compensated evaluation of one output of the definition
pub fn direct_bin(x: &[f64], k: usize) -> f64 {
    let n = x.len();
    let (mut s, mut comp) = (0.0f64, 0.0f64);
    let mut j = 0usize;
    let k = k % n;
    for &v in x {
        let w = cas(j, n);
        let p = v * w;
        let ep = v.mul_add(w, -p);
        let t = s + p;
        let bb = t - s;
        let es = (s - (t - bb)) + (p - bb);
        s = t;
        comp += ep + es;
        j += k;
        if j >= n {
            j -= n;
        }
    }
    s + comp
}

struct Cache {
    planner: FftPlanner<f64>,
    total: usize,
    seen: std::collections::HashSet<usize>,
}
thread_local! {
    static CACHE: RefCell<Cache> = RefCell::new(Cache { planner: FftPlanner::new(), total: 0, seen: Default::default() });
}
pub fn fft(n: usize) -> Arc<dyn Fft<f64>> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.seen.insert(n) {
            c.total += n;
            if c.total > 6_000_000 {
                c.planner = FftPlanner::new();
                c.total = n;
                c.seen.clear();
                c.seen.insert(n);
            }
        }
        c.planner.plan_fft_forward(n)
    })
}

pub fn dht_ref(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n <= 16 {
        return (0..n).map(|k| direct_bin(x, k)).collect();
    }
    dht_fft(x, &*fft(n))
}

/// fast DHT through the complex FFT: cas-kernel output = Re(F) - Im(F).
/// The mean is taken out first (its transform is known exactly), which removes the dominant error of
/// the FFT on signals with an offset.
pub fn dht_fft(x: &[f64], f: &dyn Fft<f64>) -> Vec<f64> {
    // scale to unit magnitude by an exact power of two: the FFT's own intermediates must not overflow
    let max = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let (up, down) = if max.is_finite() && max > 0.0 {
        let e = (max.log2().floor() as i32).clamp(-1000, 1000);
        (2f64.powi(e), 2f64.powi(-e))
    } else {
        (1.0, 1.0)
    };
    let sum: f64 = x.iter().map(|v| v * down).sum();
    let m = (sum / x.len() as f64) as f32 as f64;
    let m = if m.is_finite() { m } else { 0.0 };
    let mut b: Vec<Complex<f64>> = x.iter().map(|&v| Complex { re: v * down - m, im: 0.0 }).collect();
    f.process(&mut b);
    let mut y: Vec<f64> = b.iter().map(|c| c.re - c.im).collect();
    y[0] += m * x.len() as f64;
    if up != 1.0 {
        for v in y.iter_mut() {
            *v *= up;
        }
    }
    y
}

/// largest prime factor
pub fn lpf(mut n: usize) -> usize {
    let (mut m, mut d) = (1, 2);
    while d * d <= n {
        while n % d == 0 {
            m = d;
            n /= d;
        }
        d += 1;
    }
    m.max(n)
}
/// relative accuracy (2-norm) assumed of `dht_ref` at length n; see DESIGN.md for the measurements
pub fn ref_err(n: usize) -> f64 {
    let u = f64::EPSILON / 2.0;
    if n <= 16 {
        4.0 * u
    } else if lpf(n) <= 13 {
        (3.0 + (n as f64).log2()) * u
    } else {
        (20.0 + (n as f64).sqrt()) * u
    }
}
