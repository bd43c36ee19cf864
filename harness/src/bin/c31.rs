//! C31: numeric helper functions compute what they are named for.
use imgproc_rs::enums::White;
use imgproc_rs::util;
use vh::*;

fn near(got: f32, want: f64, abs: f64, rel: f64, what: impl Fn() -> String) -> Result<(), String> {
    let ok = got as f64 == want || (got as f64 - want).abs() <= abs + rel * want.abs();
    if ok { Ok(()) } else { Err(format!("{} = {} but should be {}", what(), got, want)) }
}

trait Nm: imgproc_rs::image::Number + std::fmt::Debug {
    fn nm(v: i64) -> Self;
}
macro_rules! nm { ($($t:ty),*) => {$(impl Nm for $t { fn nm(v: i64) -> $t { v as $t } })*}; }
nm!(u8, u16, u32, u64, i16, i32, i64, f32, f64);

/// both forms of the product against exact integer arithmetic
fn mul<N: Nm>(t: &mut T, mat: &[i64], v: &[i64]) {
    t.case(
        || format!("vector_mul ({}) {:?} * {:?}", std::any::type_name::<N>(), &mat[..mat.len().min(20)], v),
        |t| {
            let n = v.len();
            t.seen(n as u64 * 13 + std::any::type_name::<N>().len() as u64, &mat.iter().chain(v).flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
            let want: Vec<N> = (0..n).map(|i| N::nm((0..n).map(|j| mat[i * n + j] * v[j]).sum())).collect();
            let (m, x): (Vec<N>, Vec<N>) = (mat.iter().map(|&a| N::nm(a)).collect(), v.iter().map(|&a| N::nm(a)).collect());
            let r = t.imp(|| util::vector_mul(&m, &x))?.map_err(|e| format!("rejected: {:?}", e))?;
            if r != want {
                return Err(format!("product is {:?} but should be {:?}", r, want));
            }
            for junk in [0usize, 1, n, n + 3] {
                let mut out: Vec<N> = vec![N::nm(7); junk];
                t.imp(|| util::vector_mul_mut(&m, &x, &mut out))?.map_err(|e| format!("rejected: {:?}", e))?;
                if out != want {
                    return Err(format!("product into a vector of length {} is {:?} but should be {:?}", junk, out, want));
                }
            }
            Ok(())
        },
    );
}

fn separable(t: &mut T, k: &[f32], must: bool, what: &str) {
    t.case(
        || format!("separate_kernel of {} {:?}", what, &k[..k.len().min(25)]),
        |t| {
            t.seen_f32(k.len() as u64, k);
            let r = t.imp(|| util::separate_kernel(k))?;
            let n = (k.len() as f64).sqrt().round() as usize;
            match r {
                None if must => Err("an exact outer product is not separated".into()),
                None => Ok(()),
                Some((v, h)) => {
                    if n * n != k.len() || v.len() != n || h.len() != n {
                        return Err(format!("{} samples separated into {} and {}", k.len(), v.len(), h.len()));
                    }
                    let m = k.iter().fold(0f64, |a, &b| a.max((b as f64).abs()));
                    for i in 0..n {
                        for j in 0..n {
                            let p = v[i] as f64 * h[j] as f64;
                            if !((p - k[i * n + j] as f64).abs() <= 3e-6 * m + 1e-44) {
                                return Err(format!("outer product has {} at row {} column {} but the kernel has {}; vertical {:?} horizontal {:?}", p, i, j, k[i * n + j], v, h));
                            }
                        }
                    }
                    Ok(())
                }
            }
        },
    );
}

fn main() {
    let e = Engine::new("C31");

    // extremes of all orderings and ties
    let vals: Vec<f32> = {
        let mut v = vec![f32::NEG_INFINITY, f32::MIN, -1000.5, -255.0, -1.0, -0.25, -f32::MIN_POSITIVE, -0.0, 0.0, f32::from_bits(1), 0.25, 0.5, 1.0, 1.0000001, 2.0, 254.99998, 255.0, 1e9, f32::MAX, f32::INFINITY];
        if e.thorough() {
            v.extend([-1e-20, 1e-20, 3.0, 4.0, -3.0, -4.0, 0.1, 0.2, 0.3, 1e20, -1e20, 127.5]);
        }
        v
    };
    let n = vals.len();
    e.par("extremes", "max_3, min_3 on all triples and max_4, min_4 on all quadruples over 20 (32) values from -infinity to infinity: every ordering and every tie", n * n, |t, i| {
        let (a, b) = (vals[i / n], vals[i % n]);
        for &c in &vals {
            t.case(
                || format!("max_3/min_3 of {} {} {}", a, b, c),
                |t| {
                    t.seen_f32(3, &[a, b, c]);
                    let (mx, mn) = t.imp(|| (util::max_3(a, b, c), util::min_3(a, b, c)))?;
                    near(mx, a.max(b).max(c) as f64, 0.0, 0.0, || "max_3".into())?;
                    near(mn, a.min(b).min(c) as f64, 0.0, 0.0, || "min_3".into())
                },
            );
            for &d in &vals {
                t.case(
                    || format!("max_4/min_4 of {} {} {} {}", a, b, c, d),
                    |t| {
                        t.seen_f32(4, &[a, b, c, d]);
                        let (mx, mn) = t.imp(|| (util::max_4(a, b, c, d), util::min_4(a, b, c, d)))?;
                        near(mx, a.max(b).max(c).max(d) as f64, 0.0, 0.0, || "max_4".into())?;
                        near(mn, a.min(b).min(c).min(d) as f64, 0.0, 0.0, || "min_4".into())
                    },
                );
            }
        }
    });

    // products
    let al: [i64; 4] = [0, 1, 2, 5];
    e.par("product-2x2", "all 2x2 matrices and vectors over 4 letters, 9 sample types", 4usize.pow(4), move |t, i| {
        let w = |mut k: usize, n: usize| -> Vec<i64> { (0..n).map(|_| { let v = al[k % 4]; k /= 4; v }).collect() };
        let m = w(i, 4);
        for j in 0..16 {
            let v = w(j, 2);
            mul::<u8>(t, &m, &v);
            mul::<u16>(t, &m, &v);
            mul::<u32>(t, &m, &v);
            mul::<u64>(t, &m, &v);
            mul::<i16>(t, &m, &v);
            mul::<i32>(t, &m, &v);
            mul::<i64>(t, &m, &v);
            mul::<f32>(t, &m, &v);
            mul::<f64>(t, &m, &v);
        }
    });
    let nmax = e.b(14usize, 24);
    e.par("product-basis", "every n x n matrix unit times labelled vectors, and labelled matrices times every unit vector, n = 0..14 (24): decides the linear map entry by entry", nmax + 1, |t, n| {
        let lab: Vec<i64> = (0..n as i64).map(|i| 3 * i + 2).collect();
        let labm: Vec<i64> = (0..(n * n) as i64).map(|i| 2 * i + 1).collect();
        mul::<i64>(t, &labm, &lab);
        mul::<f64>(t, &labm, &lab);
        for k in 0..n * n {
            let mut m = vec![0; n * n];
            m[k] = 1;
            mul::<f32>(t, &m, &lab);
            mul::<i32>(t, &m, &lab);
        }
        for k in 0..n {
            let mut v = vec![0; n];
            v[k] = 1;
            mul::<f32>(t, &labm, &v);
            mul::<i32>(t, &labm, &v);
            v[k] = -1;
            mul::<i64>(t, &labm, &v);
            mul::<f64>(t, &labm, &v);
        }
    });
    e.par("product-sizes", "all matrix lengths 0..=150 (400) x vector lengths 0..=12 (20): accepted exactly when the matrix is square of the vector's size", e.b(151, 401), |t, ml| {
        for n in 0..=t.eng.b(12usize, 20) {
            t.case(
                || format!("vector_mul with {} matrix entries and a vector of {}", ml, n),
                |t| {
                    t.seen(7, &[ml as u8, (ml >> 8) as u8, n as u8]);
                    let m: Vec<f32> = (0..ml).map(|i| i as f32).collect();
                    let v: Vec<f32> = (0..n).map(|i| i as f32 + 1.0).collect();
                    let a = t.imp(|| util::vector_mul(&m, &v).is_ok())?;
                    let mut out = vec![1.0];
                    let b = t.imp(|| util::vector_mul_mut(&m, &v, &mut out).is_ok())?;
                    if ml == 0 && n == 0 {
                        return Ok(());
                    }
                    if a != (ml == n * n) || b != (ml == n * n) {
                        return Err(format!("vector_mul {}, vector_mul_mut {}", if a { "accepted" } else { "rejected" }, if b { "accepted" } else { "rejected" }));
                    }
                    Ok(())
                },
            );
        }
    });

    // separable kernels
    let kal: [f32; 4] = [-1.0, 0.0, 1.0, 2.0];
    e.par("separate-3x3", "all 3x3 kernels over {-1, 0, 1, 2}: a decomposition, when given, is exact; an exact outer product is found", 4usize.pow(5), move |t, i| {
        for j in 0..256 {
            let mut k = Vec::with_capacity(9);
            let mut x = i * 256 + j;
            for _ in 0..9 {
                k.push(kal[x % 4]);
                x /= 4;
            }
            let nz = k.iter().any(|&v| v != 0.0);
            // exact rank test by 2x2 minors
            let mut rank1 = nz;
            for a in 0..3 {
                for b in 0..3 {
                    for c in 0..3 {
                        for d in 0..3 {
                            if k[a * 3 + b] * k[c * 3 + d] != k[a * 3 + d] * k[c * 3 + b] {
                                rank1 = false;
                            }
                        }
                    }
                }
            }
            separable(t, &k, rank1, "3x3");
        }
    });
    e.par("separate-outer", "outer products of all vectors over {-2, 0, 1, 3} of length 1..=4 (5), at 15 magnitudes from 2^-60 to 1e20, alone and with every single entry perturbed", e.b(4, 5), |t, i| {
        let n = i + 1;
        let a: [i32; 4] = [-2, 0, 1, 3];
        let wd = |mut k: usize| -> Vec<i32> { (0..n).map(|_| { let v = a[k % 4]; k /= 4; v }).collect() };
        let step = if n >= 4 { 7 } else { 1 };
        let mut vi = 0;
        while vi < 4usize.pow(n as u32) {
            let mut hi = 0;
            while hi < 4usize.pow(n as u32) {
                let (v, h) = (wd(vi), wd(hi));
                for (q, s) in [1.0f32, 1e-3, 1.0 / 256.0, 1024.0, 0.7, 1e-5, 1e-7, 1e-8, 1e-10, 1e-20, 1e6, 1e20, (2f32).powi(-20), (2f32).powi(-60), (2f32).powi(60)].into_iter().enumerate() {
                    let k: Vec<f32> = (0..n * n).map(|x| (v[x / n] * h[x % n]) as f32 * s).collect();
                    let nz = k.iter().any(|&x| x != 0.0);
                    separable(t, &k, nz && (q > 11 || s == 1.0 || s == 1024.0 || s == 1.0 / 256.0), "outer product");
                    if s == 1.0 {
                        for p in 0..n * n {
                            for d in [1.0, -0.5, 0.01] {
                                let mut q = k.clone();
                                q[p] += d;
                                separable(t, &q, false, "perturbed outer product");
                            }
                        }
                    }
                }
                hi += step;
            }
            vi += step;
        }
    });
    let ps = e.b(15usize, 31);
    e.par("separate-peak", "sizes 1..=15 (31): outer products whose largest entry is at every row and column (the others equal, falling, zero but for one), and two single entries off one row and column", ps, |t, i| {
        let n = i + 1;
        for p in 0..n * n {
            let (r, c) = (p / n, p % n);
            for kind in 0..4 {
                let f = |q: usize, peak: usize| -> f32 {
                    if q == peak {
                        return 8.0;
                    }
                    match kind {
                        0 => 1.0,
                        1 => 1.0 / (1 + q.abs_diff(peak).min(3)) as f32,
                        2 => if q == (peak + 1) % n { -2.0 } else { 0.0 },
                        _ => 0.0,
                    }
                };
                let k: Vec<f32> = (0..n * n).map(|q| f(q / n, r) * f(q % n, c)).collect();
                separable(t, &k, kind != 1, "peaked outer product");
            }
            let mut k = vec![0.0f32; n * n];
            k[p] = 3.0;
            let o = (p * 7 + n + 1) % (n * n);
            if o / n != r && o % n != c {
                k[o] = 2.0;
                separable(t, &k, false, "two entries");
            }
        }
    });
    e.par("separate-lengths", "kernels of every length 0..=170 (600), constant and labelled: only square kernels are separated", e.b(171, 601), |t, n| {
        separable(t, &vec![1.0; n], false, "constant");
        separable(t, &vec![0.0; n], false, "zero");
        separable(t, &(0..n).map(|i| (i as f32) - 3.0).collect::<Vec<_>>(), false, "ramp");
        separable(t, &(0..n).map(|i| mix_u8(i, 3) as f32).collect::<Vec<_>>(), false, "mixed");
    });
    e.par("separate-gauss", "sampled Gaussians, boxes, LoG and sharpening kernels of odd size 1..=31 (61), 12 widths", e.b(16, 31), |t, i| {
        let n = 2 * i + 1;
        let c = i as f64;
        for s in [0.3, 0.5, 0.8, 1.0, 1.4, 2.0, 3.0, 5.0, 8.0, 20.0, 50.0, 300.0] {
            let g: Vec<f32> = (0..n * n).map(|p| { let (y, x) = ((p / n) as f64 - c, (p % n) as f64 - c); (-(x * x + y * y) / (2.0 * s * s)).exp() as f32 }).collect();
            separable(t, &g, false, "Gaussian");
            let l: Vec<f32> = (0..n * n).map(|p| { let (y, x) = ((p / n) as f64 - c, (p % n) as f64 - c); let r = (x * x + y * y) / (2.0 * s * s); ((r - 1.0) * (-r).exp()) as f32 }).collect();
            separable(t, &l, false, "LoG");
            if let Ok(Ok(k)) = t.try_imp(|| util::generate_gaussian_kernel(n as u32, s as f32)) {
                separable(t, &k, false, "library Gaussian");
            }
        }
        let b = vec![1.0 / (n * n) as f32; n * n];
        separable(t, &b, true, "box");
        let mut u = b.clone();
        u[n * n / 2] = 2.0;
        separable(t, &u, false, "weighted");
    });

    // coordinates
    e.par("coords", "all pixels of all images up to 260 (700) wide, 40 rows, and rows at the end of the u32 range", e.b(260, 700), |t, i| {
        let w = i as u32 + 1;
        t.case(
            || format!("get_2d_coords for width {}", w),
            |t| {
                for y in 0..40u32 {
                    for x in 0..w {
                        let r = t.imp(|| util::get_2d_coords(y * w + x, w))?;
                        if r != (x, y) {
                            return Err(format!("index {} split into {:?}", y * w + x, r));
                        }
                    }
                }
                t.seen(w as u64, &[1]);
                let last = u32::MAX / w;
                for k in (last * w).saturating_sub(3 * w)..=u32::MAX {
                    if k as u64 + 3 * (w as u64) < u32::MAX as u64 {
                        continue;
                    }
                    let r = t.imp(|| util::get_2d_coords(k, w))?;
                    if r != (k % w, k / w) {
                        return Err(format!("index {} split into {:?}", k, r));
                    }
                    if k == u32::MAX {
                        break;
                    }
                }
                Ok(())
            },
        );
    });
    e.par("coords-wide", "widths around every power of two up to 2^32-1 x indices around every multiple and power of two", 32 * 5, |t, i| {
        let w = ((1u64 << (i / 5)) as i64 + (i % 5) as i64 - 2).clamp(1, u32::MAX as i64) as u32;
        t.case(
            || format!("get_2d_coords for width {}", w),
            |t| {
                for a in 0..33u64 {
                    for d in -2..=2i64 {
                        for b in [1u64 << a, (1u64 << a) * w as u64] {
                            let k = b as i128 + d as i128;
                            if (0..=u32::MAX as i128).contains(&k) {
                                let k = k as u32;
                                let r = t.imp(|| util::get_2d_coords(k, w))?;
                                t.seen(w as u64, &k.to_le_bytes());
                                if r != (k % w, k / w) {
                                    return Err(format!("index {} split into {:?}", k, r));
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    });

    // closed forms
    e.par("distance", "all point pairs of a 24x24 (40x40) grid, each pair apart near powers of two and near 2^32, and pairs around powers of two up to 2^32-1", e.b(576, 1600), |t, i| {
        let g = t.eng.b(24u32, 40);
        let (x1, y1) = (i as u32 % g, i as u32 / g);
        t.case(
            || format!("distance from ({}, {})", x1, y1),
            |t| {
                for y2 in 0..g {
                    for x2 in 0..g {
                        let r = t.imp(|| util::distance(x1, y1, x2, y2))?;
                        t.seen(9, &[x1 as u8, y1 as u8, x2 as u8, y2 as u8]);
                        near(r, (x1 as f64 - x2 as f64).hypot(y1 as f64 - y2 as f64), 0.0, 1e-6, || format!("distance to ({}, {})", x2, y2))?;
                    }
                }
                let big = |k: u32| (1u64 << (k % 33)).min(u32::MAX as u64) as u32;
                // neighbouring points far out
                for (p, q) in [(big(i as u32), big(i as u32 / 33)), (u32::MAX - x1, 3_000_000_019), (3_000_000_019, u32::MAX - 5)] {
                    let (p2, q2) = (p.saturating_sub(x1), q.saturating_sub(y1));
                    for (a, b) in [((p, q), (p2, q2)), ((p2, q), (p, q2)), ((p, q2), (p2, q))] {
                        let r = t.imp(|| util::distance(a.0, a.1, b.0, b.1))?;
                        near(r, (a.0 as f64 - b.0 as f64).hypot(a.1 as f64 - b.1 as f64), 0.0, 1e-6, || format!("distance of {:?} and {:?}", a, b))?;
                    }
                }
                for k in 0..33 {
                    let (a, b) = (big(k), big(i as u32));
                    let r = t.imp(|| util::distance(x1, a, b, y1))?;
                    near(r, (x1 as f64 - b as f64).hypot(a as f64 - y1 as f64), 0.0, 1e-6, || format!("distance of ({}, {}) and ({}, {})", x1, a, b, y1))?;
                }
                Ok(())
            },
        );
    });
    let gx: Vec<f32> = (-45..=38).map(|k| 10f64.powi(k) as f32).collect();
    e.par("gaussian-extremes", "gaussian_fn for all pairs of powers of ten from 1e-45 to 1e38, and 0: values that f32 can hold are those of the formula", gx.len(), |t, i| {
        let s = gx[i];
        t.case(
            || format!("gaussian_fn with sigma {:e}", s),
            |t| {
                for x in gx.iter().cloned().chain([0.0, s, 2.0 * s, 5.0 * s]) {
                    let r = t.imp(|| util::gaussian_fn(x, s))?.map_err(|e| format!("rejected: {:?}", e))?;
                    t.seen_f32(12, &[x, s]);
                    let q = x as f64 / s as f64;
                    let ex = q * q / 2.0;
                    let want = (-ex).exp() / (2.0 * std::f64::consts::PI * s as f64 * s as f64);
                    if want < 3e38 && x.is_finite() {
                        near(r, want, 1e-37, 4e-7 * (4.0 + ex.min(1000.0)), || format!("gaussian_fn({:e}, {:e})", x, s))?;
                    }
                }
                Ok(())
            },
        );
    });
    let ns = e.b(120usize, 600);
    e.par("gaussian", "gaussian_fn: 120 (600) widths from 0.05 x positions every 1/16 out to 40, symmetric, against the closed form; negative widths rejected", ns, move |t, i| {
        let s = 0.05f32 * 1.06f32.powi((i * 120 / ns) as i32) + (i % 7) as f32 * 0.01;
        t.case(
            || format!("gaussian_fn with sigma {}", s),
            |t| {
                for k in -640..=640i32 {
                    let x = k as f32 / 16.0;
                    let r = t.imp(|| util::gaussian_fn(x, s))?.map_err(|e| format!("rejected: {:?}", e))?;
                    t.seen_f32(11, &[x, s]);
                    let s2 = s as f64 * s as f64;
                    let ex = x as f64 * x as f64 / (2.0 * s2);
                    let want = (-ex).exp() / (2.0 * std::f64::consts::PI * s2);
                    near(r, want, 1e-37 + 1e-37 / s2, 4e-7 * (4.0 + ex), || format!("gaussian_fn({}, {})", x, s))?;
                    if k % 64 == 0 && t.imp(|| util::gaussian_fn(x, -s).is_ok())? {
                        return Err(format!("negative sigma {} accepted", -s));
                    }
                }
                Ok(())
            },
        );
    });
    let den = e.b(4096i32, 65536);
    e.par("sinc-lanczos-cubic", "sinc_norm, lanczos_kernel (a = 1..=5 and 2.5), cubic_weighting_fn and clamp_zero on all multiples of 1/4096 (1/65536) in [-8, 8]; zero exactly outside the support", 16 * 4, move |t, i| {
        let lo = -8 * den + i as i32 * den / 4;
        t.case(
            || format!("kernels on multiples of 1/{} from {}", den, lo as f64 / den as f64),
            |t| {
                let sinc = |x: f64| if x == 0.0 { 1.0 } else { (std::f64::consts::PI * x).sin() / (std::f64::consts::PI * x) };
                for k in lo..=lo + den / 4 {
                    let x = k as f32 / den as f32;
                    let xd = x as f64;
                    t.seen_f32(12, &[x]);
                    near(t.imp(|| util::sinc_norm(x))?, sinc(xd), 5e-7, 1e-5, || format!("sinc_norm({})", x))?;
                    for a in [1.0f32, 2.0, 2.5, 3.0, 4.0, 5.0] {
                        let want = if xd.abs() < a as f64 { sinc(xd) * sinc(xd / a as f64) } else { 0.0 };
                        near(t.imp(|| util::lanczos_kernel(x, a))?, want, 5e-7, 1e-5, || format!("lanczos_kernel({}, {})", x, a))?;
                        if xd.abs() >= a as f64 && util::lanczos_kernel(x, a) != 0.0 {
                            return Err(format!("lanczos_kernel({}, {}) is not 0 outside the support", x, a));
                        }
                    }
                    if xd <= 2.0 {
                        let ax = xd.abs();
                        let want = if ax >= 2.0 { 0.0 } else if ax >= 1.0 { (2.0 - ax).powi(3) / 6.0 } else { 2.0 / 3.0 - ax * ax + ax * ax * ax / 2.0 };
                        near(t.imp(|| util::cubic_weighting_fn(x))?, want, 1e-5, 1e-5, || format!("cubic_weighting_fn({})", x))?;
                    }
                    near(t.imp(|| util::clamp_zero(x))?, xd.max(0.0), 0.0, 0.0, || format!("clamp_zero({})", x))?;
                }
                Ok(())
            },
        );
    });
    e.par("lanczos-wide", "lanczos_kernel for a = 1..=64, 100, 128, 255, 257, 1000 and halves up to 16.5, on multiples of 1/32 up to a + 3 (first 4000 of them and the last 200), both signs", 85, |t, i| {
        let a = if i < 64 { i as f32 + 1.0 } else if i < 69 { [100.0f32, 128.0, 255.0, 257.0, 1000.0][i - 64] } else { i as f32 - 68.5 };
        t.case(
            || format!("lanczos_kernel with a = {}", a),
            |t| {
                let sinc = |x: f64| if x == 0.0 { 1.0 } else { (std::f64::consts::PI * x).sin() / (std::f64::consts::PI * x) };
                let n = ((a + 3.0) * 32.0) as i32;
                for k in (0..=n).filter(|&k| k < 4000 || k > n - 200) {
                    for x in [k as f32 / 32.0, -k as f32 / 32.0] {
                        let xd = x as f64;
                        t.seen_f32(15, &[x, a]);
                        let want = if xd.abs() < a as f64 { sinc(xd) * sinc(xd / a as f64) } else { 0.0 };
                        near(t.imp(|| util::lanczos_kernel(x, a))?, want, 5e-7, 1e-5, || format!("lanczos_kernel({}, {})", x, a))?;
                    }
                }
                Ok(())
            },
        );
    });
    e.par("clamp-zero", "clamp_zero at every 2^12-th f32 bit pattern that is not NaN", 64, |t, i| {
        t.case(
            || format!("clamp_zero, pattern block {}", i),
            |t| {
                for k in 0..(1u32 << 14) {
                    let x = f32::from_bits(((i as u32) << 26) | (k << 12));
                    if !x.is_nan() {
                        t.seen_f32(13, &[x]);
                        near(t.imp(|| util::clamp_zero(x))?, (x as f64).max(0.0), 0.0, 0.0, || format!("clamp_zero({})", x))?;
                    }
                }
                Ok(())
            },
        );
    });
    let cn = e.b(1 << 16, 1 << 21);
    e.par("cie", "xyz_to_lab_fn on a grid of 65536 (2M) values of [0, 2] and of [-4, 8], lab_to_xyz_fn on [-0.2, 1.3] and on [-4, 8], and both on [-100, 1100], against the CIE formulas, and inverse of each other", 64, move |t, i| {
        t.case(
            || format!("CIE helper functions, block {}", i),
            |t| {
                let d = 6.0f64 / 29.0;
                for k in i * cn / 64..(i + 1) * cn / 64 {
                    let x = 2.0 * k as f32 / cn as f32;
                    t.seen_f32(14, &[x]);
                    let xd = x as f64;
                    let want = if xd > d * d * d { xd.cbrt() } else { xd / (3.0 * d * d) + 4.0 / 29.0 };
                    let f = t.imp(|| util::xyz_to_lab_fn(x))?;
                    near(f, want, 5e-7, 1e-6, || format!("xyz_to_lab_fn({})", x))?;
                    let b = t.imp(|| util::lab_to_xyz_fn(f))?;
                    near(b, xd, 1e-6, 4e-6, || format!("lab_to_xyz_fn(xyz_to_lab_fn({}))", x))?;
                    let y = -0.2 + 1.5 * k as f32 / cn as f32;
                    let yd = y as f64;
                    let want = if yd > d { yd * yd * yd } else { 3.0 * d * d * (yd - 4.0 / 29.0) };
                    near(t.imp(|| util::lab_to_xyz_fn(y))?, want, 5e-7, 2e-6, || format!("lab_to_xyz_fn({})", y))?;
                    // lightness and tristimulus values beyond the reference white and below zero
                    let z = -4.0 + 12.0 * k as f32 / cn as f32;
                    let zd = z as f64;
                    let want = if zd > d { zd * zd * zd } else { 3.0 * d * d * (zd - 4.0 / 29.0) };
                    near(t.imp(|| util::lab_to_xyz_fn(z))?, want, 5e-7, 2e-6, || format!("lab_to_xyz_fn({})", z))?;
                    let want = if zd > d * d * d { zd.cbrt() } else { zd / (3.0 * d * d) + 4.0 / 29.0 };
                    near(t.imp(|| util::xyz_to_lab_fn(z))?, want, 5e-7, 1e-6, || format!("xyz_to_lab_fn({})", z))?;
                    // values given on a scale of 0 to 100 or 0 to 1000
                    let z = -100.0 + 1200.0 * k as f32 / cn as f32;
                    let zd = z as f64;
                    let want = if zd > d { zd * zd * zd } else { 3.0 * d * d * (zd - 4.0 / 29.0) };
                    near(t.imp(|| util::lab_to_xyz_fn(z))?, want, 5e-7, 4e-6, || format!("lab_to_xyz_fn({})", z))?;
                    let want = if zd > d * d * d { zd.cbrt() } else { zd / (3.0 * d * d) + 4.0 / 29.0 };
                    near(t.imp(|| util::xyz_to_lab_fn(z))?, want, 5e-7, 2e-6, || format!("xyz_to_lab_fn({})", z))?;
                }
                Ok(())
            },
        );
    });
    hist::word_tables(&e);
    e.par("white-points", "both reference whites", 2, |t, i| {
        t.case(
            || format!("tristimulus values of {}", ["D50", "D65"][i]),
            |t| {
                t.seen(15, &[i as u8]);
                let r = t.imp(|| util::xyz_tristimulus_vals(if i == 0 { &White::D50 } else { &White::D65 }))?;
                let w = [(96.4212, 100.0, 82.5188), (95.0489, 100.0, 108.8840)][i];
                // published values vary in the third digit after the point
                near(r.0, w.0, 0.02, 0.0, || "X".into())?;
                near(r.1, w.1, 0.0, 1e-6, || "Y".into())?;
                near(r.2, w.2, 0.03, 0.0, || "Z".into())
            },
        );
    });
    let smax = e.b(31usize, 81);
    e.par("spatial-matrix", "generate_spatial_mat of every size 1..=31 (81) x 9 widths: odd sizes give the Gaussian of the distance to the centre at every entry, even sizes are rejected", smax, |t, i| {
        let n = i + 1;
        for s in [0.3f32, 0.5, 1.0, 1.5, 2.0, 3.0, 7.5, 20.0, 100.0] {
            t.case(
                || format!("generate_spatial_mat({}, {})", n, s),
                |t| {
                    t.seen_f32(n as u64, &[s]);
                    let r = t.imp(|| util::generate_spatial_mat(n as u32, s))?;
                    match r {
                        Err(_) if n % 2 == 0 => Ok(()),
                        Ok(_) if n % 2 == 0 => Err("even size accepted".into()),
                        Err(e) => Err(format!("rejected: {:?}", e)),
                        Ok(m) => {
                            if m.len() != n * n {
                                return Err(format!("{} entries", m.len()));
                            }
                            let c = (n / 2) as f64;
                            let s2 = s as f64 * s as f64;
                            for (p, &v) in m.iter().enumerate() {
                                let (y, x) = ((p / n) as f64 - c, (p % n) as f64 - c);
                                let ex = (x * x + y * y) / (2.0 * s2);
                                near(v, (-ex).exp() / (2.0 * std::f64::consts::PI * s2), 1e-37 + 1e-37 / s2, 1e-6 * (4.0 + ex), || format!("entry at row {} column {}", p / n, p % n))?;
                            }
                            Ok(())
                        }
                    }
                },
            );
        }
    });
    e.par("lookup-table", "generate_lookup_table fills entry i with f(i) for all 256 i, 4 functions", 4, |t, i| {
        t.case(
            || format!("lookup table of function {}", i),
            |t| {
                t.seen(16, &[i as u8]);
                let f = |k: u8| match i { 0 => k as f32, 1 => 255.0 - k as f32, 2 => (k as f32).sqrt(), _ => mix_u8(k as usize, 5) as f32 };
                let mut tb = [-1f32; 256];
                t.imp(|| util::generate_lookup_table(&mut tb, f))?;
                for k in 0..256 {
                    near(tb[k], f(k as u8) as f64, 0.0, 0.0, || format!("entry {}", k))?;
                }
                Ok(())
            },
        );
    });
    e.finish();
}
