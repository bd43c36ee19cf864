//! C17: blur and sharpening filters use the kernels their names promise.
use imgproc_rs::image::BaseImage;
use imgproc_rs::util::constants::*;
use imgproc_rs::{filter, util};
use vh::*;

fn correlate(m: &M, n: usize, k: &dyn Fn(i64, i64) -> f64) -> M {
    let r = n as i64 / 2;
    let tab: Vec<f64> = (0..n * n).map(|i| k((i % n) as i64 - r, (i / n) as i64 - r)).collect();
    M::gen(m.w, m.h, m.c, m.alpha, |x, y, c| {
        let mut s = 0.0;
        for j in 0..n {
            for i in 0..n {
                let wt = tab[j * n + i];
                if wt != 0.0 {
                    s += wt * m.cl(x as i64 + i as i64 - r, y as i64 + j as i64 - r, c);
                }
            }
        }
        s
    })
}
fn ksum(n: usize, k: &dyn Fn(i64, i64) -> f64) -> f64 {
    let r = n as i64 / 2;
    (0..n * n).map(|i| k((i % n) as i64 - r, (i / n) as i64 - r).abs()).sum()
}
fn maxabs(m: &M) -> f64 {
    m.d.iter().fold(0.0f64, |s, v| s.max(v.abs()))
}

#[derive(Clone, Copy, Debug)]
enum F {
    Box(u32),
    Weighted(u32, u32),
    Gauss(u32, f32),
    Sharpen,
    Unsharp,
}
fn size(f: F) -> usize {
    match f {
        F::Box(n) | F::Weighted(n, _) | F::Gauss(n, _) => n as usize,
        F::Sharpen => 3,
        F::Unsharp => 5,
    }
}
fn kernel(f: F, i: i64, j: i64) -> f64 {
    match f {
        F::Box(n) => 1.0 / (n as f64 * n as f64),
        F::Weighted(n, w) => {
            let s = n as f64 * n as f64 - 1.0 + w as f64;
            if i == 0 && j == 0 { w as f64 / s } else { 1.0 / s }
        }
        F::Gauss(_, s) => gauss(i, j, s as f64),
        F::Sharpen => match (i.abs(), j.abs()) {
            (0, 0) => 5.0,
            (0, 1) | (1, 0) => -1.0,
            _ => 0.0,
        },
        F::Unsharp => {
            let b = [6.0, 4.0, 1.0];
            let v = -b[i.unsigned_abs() as usize] * b[j.unsigned_abs() as usize] / 256.0;
            if i == 0 && j == 0 { 2.0 + v } else { v }
        }
    }
}
fn gauss(i: i64, j: i64, s: f64) -> f64 {
    (-((i * i + j * j) as f64) / (2.0 * s * s)).exp() / (2.0 * std::f64::consts::PI * s * s)
}
fn log(i: i64, j: i64, s: f64) -> f64 {
    let e = (i * i + j * j) as f64 / (2.0 * s * s);
    -(1.0 - e) * (-e).exp() / (std::f64::consts::PI * s.powi(4))
}

fn check(t: &mut T, m: &M, f: F, constant: bool) {
    t.case(
        || format!("{:?} on {}x{}x{} alpha={}{}", f, m.w, m.h, m.c, m.alpha, if constant { " (constant image)" } else { "" }),
        |t| {
            let a = m.f32();
            t.seen(hash_bytes((m.w * 1000 + m.h) as u64, format!("{:?}{}{}", f, m.c, constant).as_bytes()), &[m.alpha as u8]);
            let r = t
                .imp(|| match f {
                    F::Box(n) => filter::box_filter(&a, n),
                    F::Weighted(n, w) => filter::weighted_avg_filter(&a, n, w),
                    F::Gauss(n, s) => filter::gaussian_blur(&a, n, s),
                    F::Sharpen => filter::sharpen(&a),
                    F::Unsharp => filter::unsharp_masking(&a),
                })?
                .map_err(|e| format!("error {:?}", e))?;
            let n = size(f);
            let k = |i: i64, j: i64| kernel(f, i, j);
            // single precision sums of n*n terms
            let tol = ksum(n, &k) * maxabs(m) * (n as f64 * n as f64 * 1.2e-7).max(2e-5) + 1e-5 * maxabs(m).min(1.0);
            img_close(&r, &correlate(m, n, &k), tol, 0.0)?;
            if constant && !matches!(f, F::Gauss(..)) {
                img_close(&r, m, tol, 0.0).map_err(|e| format!("constant image not preserved: {}", e))?;
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

fn main() {
    let e = Engine::new("C17");
    let mut fl = vec![F::Sharpen, F::Unsharp];
    for n in [1u32, 3, 5, 7, 9, 11, 15] {
        fl.push(F::Box(n));
        for w in [0u32, 1, 2, 3, 5, 8, 16, 100, 1000] {
            if n > 1 || w > 0 {
                fl.push(F::Weighted(n, w));
            }
        }
        for s in [0.5f32, 1.0, 1.7, 3.0, 10.0] {
            fl.push(F::Gauss(n, s));
        }
    }
    let nf = fl.len();
    let smax = e.b(5usize, 7);
    let sh = shapes(smax, smax);
    e.par("shapes", &format!("{} filters (box and weighted sizes 1..15, 9 centre weights, Gaussian 5 sigmas, sharpen, unsharp) x all shapes up to {}x{}, layouts in turn", nf, smax, smax), nf, |t, i| {
        for (n, &(w, h)) in sh.iter().enumerate() {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            check(t, &mix_img(w, h, c, alpha, 1), fl[i], false);
        }
        for (c, alpha) in LAYOUTS {
            check(t, &mix_img(4, 3, c, alpha, 2), fl[i], false);
            for v in [0.0, 1.0, 200.0, 255.0] {
                check(t, &mix_img(3, 4, c, alpha, 2).map(|_| v), fl[i], true);
            }
        }
    });
    let wide: Vec<u32> = (8..=e.b(20u32, 40)).map(|k| 2 * k + 1).chain([65, 129, 255, 257, 259]).collect();
    e.par("wide", &format!("box, weighted and Gaussian filters of every odd size 17..={}, 65, 129, 255, 257 and 259 x 3 shapes, layouts in turn; constants", wide[wide.len() - 6]), wide.len() * 3, |t, i| {
        let n = wide[i % wide.len()];
        let q = n as usize;
        let (w, h) = if q > 200 { [(3, 2), (1, 4), (2, 2)][i / wide.len()] } else if q > 60 { [(9, 4), (3, 10), (6, 6)][i / wide.len()] } else { [(9, 5), (q + 3, 4), (5, q + 2)][i / wide.len()] };
        let (c, alpha) = LAYOUTS4[i % 4];
        let m = mix_img(w, h, c, alpha, 5);
        for f in [F::Box(n), F::Weighted(n, 1), F::Weighted(n, 7), F::Weighted(n, 300), F::Weighted(n, 70000), F::Gauss(n, q as f32 / 5.0), F::Gauss(n, 1.3)] {
            if q < 60 || matches!(f, F::Box(..) | F::Weighted(_, 7)) {
                check(t, &m, f, false);
            }
        }
        for f in [F::Box(n), F::Weighted(n, 3)] {
            check(t, &mix_img(4, 3, c, alpha, 2).map(|_| 201.0), f, true);
        }
    });
    // unit impulses at every position: the response is the kernel itself
    let fine: Vec<f32> = (3..=e.b(200, 600)).map(|k| k as f32 * 0.015).chain([0.01, 0.02, 0.03, 20.0, 100.0, 1000.0, 1e6]).collect();
    e.par("widths", &format!("Gaussian blur of sizes 1, 3, 5, 7, 9 and 13 x {} standard deviations from 0.01 to 10^6 x 3 shapes, layouts in turn", fine.len()), fine.len(), |t, i| {
        for (q, n) in [1u32, 3, 5, 7, 9, 13].into_iter().enumerate() {
            for (s, (w, h)) in [(1usize, 1usize), (3, 4), (11, 8)].into_iter().enumerate() {
                let (c, alpha) = LAYOUTS[(i + q + s) % 7];
                check(t, &mix_img(w, h, c, alpha, 12), F::Gauss(n, fine[i]), false);
            }
        }
    });
    e.par("impulses", "every impulse position of a 7x6 image x all filters up to size 9", nf, |t, i| {
        if size(fl[i]) > 9 {
            return;
        }
        for p in 0..42usize {
            let mut m = M::new(7, 6, 1, false);
            m.d[p] = 1024.0;
            check(t, &m, fl[i], false);
        }
    });
    let rows = e.b(80usize, 300);
    // centre weights over the whole range of their type
    let cw: Vec<u32> = (0..32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (3u64 << k) >> 1]).chain([u32::MAX as u64 - 8, u32::MAX as u64 - 1, u32::MAX as u64]).map(|v| v as u32).collect();
    e.par("centre weights", &format!("{} centre weights around every power of two up to 2^32-1 x sizes 3, 5, 9 x 2 shapes, and constants", cw.len()), cw.len(), |t, i| {
        for (q, n) in [3u32, 5, 9].into_iter().enumerate() {
            for (s, (w, h)) in [(5usize, 4usize), (11, 8)].into_iter().enumerate() {
                let (c, alpha) = LAYOUTS[(i + q + s) % 7];
                check(t, &mix_img(w, h, c, alpha, 13), F::Weighted(n, cw[i]), false);
                check(t, &mix_img(w, h, c, alpha, 13).map(|_| 93.0), F::Weighted(n, cw[i]), true);
            }
        }
    });
    let some = [F::Box(3), F::Box(7), F::Weighted(3, 4), F::Weighted(5, 2), F::Gauss(3, 1.0), F::Gauss(5, 1.4), F::Sharpen, F::Unsharp];
    e.par("sizes", &format!("rows and columns of 1..={} pixels x 8 filters, layouts in turn", rows), rows, |t, i| {
        let n = i + 1;
        let (c, alpha) = LAYOUTS[i % 7];
        for f in some {
            for (w, h) in [(n, 1), (1, n), (n, 2), (3, n)] {
                check(t, &mix_img(w, h, c, alpha, 3), f, false);
            }
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (20000, 1), (1, 20000)];
    e.par("large", "6 large shapes x 8 filters, layouts in turn", big.len() * some.len(), |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = LAYOUTS4[(i + i / big.len()) % 4];
        check(t, &mix_img(w, h, c, alpha, 4), some[i / big.len()], false);
    });
    let vast = [F::Box(3), F::Weighted(3, 4), F::Gauss(3, 1.0), F::Sharpen, F::Unsharp, F::Gauss(5, 1.0), F::Weighted(5, 2), F::Box(7)];
    e.par("vast", "a 1101x1003 and a 5x210001 image (more than 2^20 pixels) x 8 filters", 16, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001)][i % 2];
        check(t, &mix_img(w, h, 1, false, 4), vast[i / 2], false);
    });

    e.par("real contents", &format!("{} classes of floating-point contents (signed, fractional, large, tiny) x all {} filters x 4 shapes, 13 layouts (up to 9 channels) in turn; constants", REALS, nf), REALS * nf, |t, i| {
        let f = fl[i / REALS];
        let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
        for (n, (w, h)) in [(5usize, 4usize), (1, 7), (9, 1), (6, 11)].into_iter().enumerate() {
            let (c, alpha) = lay[(i + i / REALS * 5 + n) % 13];
            check(t, &real_img(w, h, c, alpha, i % REALS, n), f, false);
        }
        let v = [-200.0, 0.37, -1.0e5, 300.0, -0.5, 1.0e-4, 254.5][i % REALS];
        let (c, alpha) = lay[i % 13];
        check(t, &mix_img(4, 3, c, alpha, 2).map(|_| v as f32 as f64), f, true);
    });

    // the public constants: named kernels, applied by every entry that takes a kernel
    let bin3 = [1.0, 2.0, 1.0];
    let bin5 = [1.0, 4.0, 6.0, 4.0, 1.0];
    let nsh = [(1usize, 1usize), (2, 1), (1, 4), (3, 3), (4, 3), (5, 6), (7, 2), (9, 8), (33, 20)];
    e.par("named kernels", "the public Gaussian blur kernels (2-D and 1-D, lengths 3 and 5), sharpening and unsharp masking kernels: every entry, and applied by separable_filter, linear_filter and unseparable_filter to 9 shapes x 13 layouts, impulses and constants", 4, |t, i| {
        let outer = |b: &[f64]| -> Vec<f64> { b.iter().flat_map(|p| b.iter().map(move |q| p * q)).collect() };
        let norm = |b: Vec<f64>| -> Vec<f64> { let s: f64 = b.iter().sum(); b.iter().map(|v| v / s).collect() };
        let own = |f: F| -> Vec<f64> { let (n, r) = (size(f), size(f) as i64 / 2); (0..n * n).map(|q| kernel(f, (q % n) as i64 - r, (q / n) as i64 - r)).collect() };
        // name, kernel, 1-D factor, exact entries
        let (name, k2, k1, want): (&str, &[f32], Option<&[f32]>, Vec<f64>) = match i {
            0 => ("Gaussian blur 3", &K_GAUSSIAN_BLUR_2D_3, Some(&K_GAUSSIAN_BLUR_1D_3), norm(outer(&bin3))),
            1 => ("Gaussian blur 5", &K_GAUSSIAN_BLUR_2D_5, Some(&K_GAUSSIAN_BLUR_1D_5), norm(outer(&bin5))),
            2 => ("sharpening", &K_SHARPEN, None, own(F::Sharpen)),
            _ => ("unsharp masking", &K_UNSHARP_MASKING, None, own(F::Unsharp)),
        };
        let n = [3usize, 5, 3, 5][i];
        t.case(
            || format!("entries of the {} kernel", name),
            |t| {
                t.seen_f32(170 + i as u64, k2);
                let near = |a: &[f32], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (*x as f64 - y).abs() < 1e-6);
                if !near(k2, &want) {
                    return Err(format!("{:?} instead of {:?}", k2, want));
                }
                if let Some(k1) = k1 {
                    let b = norm(if i == 0 { bin3.to_vec() } else { bin5.to_vec() });
                    if !near(k1, &b) {
                        return Err(format!("1-D: {:?} instead of {:?}", k1, b));
                    }
                }
                Ok(())
            },
        );
        let r = n as i64 / 2;
        let k = |a: i64, b: i64| want[((b + r) * n as i64 + a + r) as usize];
        let lay: Vec<(usize, bool)> = LAYOUTS.into_iter().chain(LAYOUTS_W).collect();
        let mut ms = Vec::new();
        for (q, &(w, h)) in nsh.iter().enumerate() {
            for (p, &(c, alpha)) in lay.iter().enumerate() {
                ms.push(mix_img(w, h, c, alpha, q + p));
            }
            let (c, alpha) = lay[q % 7];
            ms.push(mix_img(w, h, c, alpha, 0).map(|_| 200.0));
        }
        for y in 0..6 {
            for x in 0..7 {
                ms.push(M::gen(7, 6, 1, false, |a, b, _| if (a, b) == (x, y) { 255.0 } else { 0.0 }));
            }
        }
        for m in ms {
            for how in 0..3 {
                if how == 0 && k1.is_none() {
                    continue;
                }
                t.case(
                    || format!("{} kernel by {} on {}x{}x{} alpha={}", name, ["separable_filter", "linear_filter", "unseparable_filter"][how], m.w, m.h, m.c, m.alpha),
                    |t| {
                        let a = m.f32();
                        t.seen_f32(180 + how as u64 + 4 * i as u64, a.data());
                        let r = t
                            .imp(|| match how {
                                0 => filter::separable_filter(&a, k1.unwrap(), k1.unwrap()),
                                1 => filter::linear_filter(&a, k2),
                                _ => filter::unseparable_filter(&a, k2),
                            })?
                            .map_err(|e| format!("error {:?}", e))?;
                        img_close(&r, &correlate(&m, n, &k), ksum(n, &k) * maxabs(&m) * 2e-5 + 1e-6, 0.0)
                    },
                );
            }
        }
    });
    // sigmas whose powers no f32 holds
    let xs: Vec<f32> = (-12..=10).flat_map(|k| [1.0f32, 2.7, 6.4].map(|m| m * 10f32.powi(k))).chain([1e-19, 1e-18, 1e-15, 1e12, 1e15, 1e19, 1e25, 1e38, f32::MAX]).collect();
    e.par("extreme kernels", &format!("Gaussian and LoG kernels of sizes 1..=9, 31 x {} sigmas from 1e-19 to the largest float: entries that f32 can hold are those of the formulas", xs.len()), xs.len(), |t, i| {
        let s = xs[i];
        for n in [1u32, 3, 5, 7, 9, 31] {
            t.case(
                || format!("generated kernels of size {} sigma {:e}", n, s),
                |t| {
                    t.seen(n as u64, &s.to_le_bytes());
                    let g = t.imp(|| util::generate_gaussian_kernel(n, s))?.map_err(|e| format!("{:?}", e))?;
                    let l = t.imp(|| util::generate_log_kernel(n, s))?.map_err(|e| format!("{:?}", e))?;
                    let nn = n as usize;
                    if g.len() != nn * nn || l.len() != nn * nn {
                        return Err(format!("kernel lengths {} and {}", g.len(), l.len()));
                    }
                    let r = (n / 2) as i64;
                    for k in 0..nn * nn {
                        let (a, b) = ((k % nn) as i64 - r, (k / nn) as i64 - r);
                        for (what, v, want) in [("Gaussian", g[k], gauss(a, b, s as f64)), ("LoG", l[k], log(a, b, s as f64))] {
                            let ex = (a * a + b * b) as f64 / (2.0 * s as f64 * s as f64);
                            if want.abs() < 3e38 && !((v as f64 - want).abs() <= 1e-37 + 2e-5 * want.abs().max(if ex > 0.5 && ex < 2.0 { 0.2 / (s as f64).powi(4) } else { 0.0 }) + ex.min(100.0) * 1e-6 * want.abs()) {
                                return Err(format!("{} entry ({}, {}) is {} but should be {}", what, a, b, v, want));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    // generated kernels
    let nmax = e.b(21u32, 41);
    let sig: Vec<f32> = (1..=e.b(40, 200)).map(|k| k as f32 * 0.1 + 0.15).chain([0.5, 1.0, 2.0, 4.0, 10.0, 50.0]).collect();
    e.par("kernels", &format!("Gaussian and LoG kernels of all sizes 1..={} x {} sigmas", nmax, sig.len()), sig.len(), |t, i| {
        let s = sig[i];
        let sd = s as f64;
        for n in 0..=nmax {
            t.case(
                || format!("generated kernels of size {} sigma {}", n, s),
                |t| {
                    t.seen(n as u64, &s.to_le_bytes());
                    let g = t.imp(|| util::generate_gaussian_kernel(n, s))?;
                    let l = t.imp(|| util::generate_log_kernel(n, s))?;
                    if n % 2 == 0 {
                        if g.is_ok() || l.is_ok() {
                            return Err("an even size was accepted".into());
                        }
                        return Ok(());
                    }
                    let (g, l) = (g.map_err(|e| format!("{:?}", e))?, l.map_err(|e| format!("{:?}", e))?);
                    let nn = n as usize;
                    if g.len() != nn * nn || l.len() != nn * nn {
                        return Err(format!("kernel lengths {} and {}", g.len(), l.len()));
                    }
                    let r = (n / 2) as i64;
                    let (g0, l0) = (gauss(0, 0, sd), log(0, 0, sd).abs());
                    let mut pos = false;
                    for j in 0..nn {
                        for i in 0..nn {
                            let (a, b) = (i as i64 - r, j as i64 - r);
                            let v = g[j * nn + i] as f64;
                            let want = gauss(a, b, sd);
                            if (v - want).abs() > 1e-6 * g0 + 2e-5 * want {
                                return Err(format!("Gaussian entry ({}, {}) is {} but should be {}", a, b, v, want));
                            }
                            let v = l[j * nn + i] as f64;
                            let want = log(a, b, sd);
                            if (v - want).abs() > 2e-6 * l0 + 2e-5 * want.abs() {
                                return Err(format!("LoG entry ({}, {}) is {} but should be {}", a, b, v, want));
                            }
                            pos |= v > 0.0;
                            for k in [&g, &l] {
                                let v = k[j * nn + i];
                                let tol = v.abs() * 1e-5 + 1e-30;
                                for q in [i * nn + j, (nn - 1 - j) * nn + i, j * nn + nn - 1 - i] {
                                    if (k[q] - v).abs() > tol {
                                        return Err(format!("not symmetric at ({}, {})", a, b));
                                    }
                                }
                            }
                        }
                    }
                    if !(l[nn * nn / 2] < 0.0) {
                        return Err("LoG centre is not negative".into());
                    }
                    let tail = (r as f64) * std::f64::consts::SQRT_2 > 1.5 * sd && (r * 2) as f64 * (r as f64) / (2.0 * sd * sd) > 2.3 && 2.0 < 60.0 * sd * sd;
                    if tail && !pos {
                        return Err("LoG has no positive tail".into());
                    }
                    Ok(())
                },
            );
        }
    });
    e.par("reject", "box, weighted and Gaussian sizes 0..=64", 65, |t, i| {
        let n = i as u32;
        let m = mix_img(3, 2, 1, false, 1);
        t.case(
            || format!("filter size {}", n),
            |t| {
                let a = m.f32();
                t.seen(n as u64, &[2]);
                let r = [
                    ("box_filter", t.imp(|| filter::box_filter(&a, n))?.is_ok()),
                    ("weighted_avg_filter", t.imp(|| filter::weighted_avg_filter(&a, n, 3))?.is_ok()),
                    ("gaussian_blur", t.imp(|| filter::gaussian_blur(&a, n, 1.5))?.is_ok()),
                ];
                for (name, ok) in r {
                    if ok != (n % 2 == 1) {
                        return Err(format!("{} returned {}", name, if ok { "Ok" } else { "Err" }));
                    }
                }
                Ok(())
            },
        );
    });
    e.finish();
}
