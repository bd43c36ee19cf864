//! C18: edge operators compute gradient magnitude and Laplacian of grayscale images.
use imgproc_rs::filter;
use imgproc_rs::image::Image;
use vh::*;

fn sep_resp(m: &M, v: &[f64], h: &[f64], x: usize, y: usize) -> f64 {
    let r = v.len() as i64 / 2;
    let mut s = 0.0;
    for (j, a) in v.iter().enumerate() {
        for (i, b) in h.iter().enumerate() {
            s += a * b * m.cl(x as i64 + i as i64 - r, y as i64 + j as i64 - r, 0);
        }
    }
    s
}
fn gradient(m: &M, v: &[f64], h: &[f64]) -> M {
    M::gen(m.w, m.h, m.c, m.alpha, |x, y, k| {
        if k == 1 {
            m.at(x, y, 1)
        } else {
            (sep_resp(m, v, h, x, y).powi(2) + sep_resp(m, h, v, x, y).powi(2)).sqrt()
        }
    })
}
fn maxabs(m: &M) -> f64 {
    (0..m.w * m.h).map(|i| m.d[i * m.c].abs()).fold(0.0, f64::max)
}
fn transpose(m: &M) -> M {
    M::gen(m.h, m.w, m.c, m.alpha, |x, y, k| m.at(y, x, k))
}
fn mirror(m: &M) -> M {
    M::gen(m.w, m.h, m.c, m.alpha, |x, y, k| m.at(m.w - 1 - x, y, k))
}

#[derive(Clone, Debug)]
enum Op {
    Prewitt,
    Sobel,
    Weighted(u32),
    Mask(Vec<f32>, Vec<f32>),
}
fn kern(o: &Op) -> (Vec<f64>, Vec<f64>) {
    let h = vec![-1.0, 0.0, 1.0];
    match o {
        Op::Prewitt => (vec![1.0, 1.0, 1.0], h),
        Op::Sobel => (vec![1.0, 2.0, 1.0], h),
        Op::Weighted(w) => (vec![1.0, *w as f64, 1.0], h),
        Op::Mask(a, b) => (a.iter().map(|&v| v as f64).collect(), b.iter().map(|&v| v as f64).collect()),
    }
}
fn run(t: &mut T, o: &Op, a: &Image<f32>) -> Result<Image<f32>, String> {
    t.imp(|| match o {
        Op::Prewitt => filter::prewitt(a),
        Op::Sobel => filter::sobel(a),
        Op::Weighted(w) => filter::sobel_weighted(a, *w),
        Op::Mask(v, h) => filter::derivative_mask(a, v, h),
    })?
    .map_err(|e| format!("error {:?}", e))
}

fn check(t: &mut T, m: &M, o: &Op) {
    t.case(
        || format!("{:?} on {}", o, m.show()),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, format!("{:?}{}", o, m.c).as_bytes()), a.data());
            let (v, h) = kern(o);
            let want = gradient(m, &v, &h);
            let s: f64 = v.iter().map(|x| x.abs()).sum::<f64>() * h.iter().map(|x| x.abs()).sum::<f64>();
            let tol = s * maxabs(m) * 4e-6 + 1e-5;
            let r = run(t, o, &a)?;
            let g = M::of(&r)?;
            close(&g, &want, tol, 0.0)?;
            if m.alpha {
                for i in 0..m.w * m.h {
                    if g.d[i * 2 + 1] != m.d[i * 2 + 1] {
                        return Err("alpha changed".into());
                    }
                }
            }
            if !matches!(o, Op::Mask(..)) && m.w * m.h <= 64 {
                let gt = M::of(&run(t, o, &transpose(m).f32())?)?;
                close(&gt, &transpose(&g), 2.0 * tol, 0.0).map_err(|e| format!("does not commute with transposition: {}", e))?;
                let gm = M::of(&run(t, o, &mirror(m).f32())?)?;
                close(&gm, &mirror(&g), 2.0 * tol, 0.0).map_err(|e| format!("does not commute with reflection: {}", e))?;
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

/// correlation of the colour channels with a kernel
fn lap_check(t: &mut T, m: &M, what: &str, n: usize, k: &dyn Fn(i64, i64) -> f64, f: &dyn Fn(&Image<f32>) -> imgproc_rs::error::ImgProcResult<Image<f32>>) {
    t.case(
        || format!("{} on {}", what, m.show()),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, what.as_bytes()), a.data());
            let r = t.imp(|| f(&a))?.map_err(|e| format!("error {:?}", e))?;
            let g = M::of(&r)?;
            let q = n as i64 / 2;
            let mut ks = 0.0;
            for j in -q..=q {
                for i in -q..=q {
                    ks += k(i, j).abs();
                }
            }
            let mx = m.d.iter().fold(0.0f64, |s, v| s.max(v.abs()));
            let tol = ks * mx * 4e-6 + 1e-6 * mx + 1e-9;
            same_dims(&g, m)?;
            for y in 0..m.h {
                for x in 0..m.w {
                    for c in 0..m.nc() {
                        let mut s = 0.0;
                        for j in -q..=q {
                            for i in -q..=q {
                                s += k(i, j) * m.cl(x as i64 + i, y as i64 + j, c);
                            }
                        }
                        let v = g.at(x, y, c);
                        if !((v - s).abs() <= tol) {
                            return Err(format!("sample ({}, {}, {}) is {} but should be {} (tolerance {})", x, y, c, v, s, tol));
                        }
                    }
                }
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}
fn lap4(i: i64, j: i64) -> f64 {
    match (i.abs(), j.abs()) {
        (0, 0) => 4.0,
        (0, 1) | (1, 0) => -1.0,
        _ => 0.0,
    }
}
fn log(i: i64, j: i64, s: f64) -> f64 {
    let e = (i * i + j * j) as f64 / (2.0 * s * s);
    -(1.0 - e) * (-e).exp() / (std::f64::consts::PI * s.powi(4))
}

fn norm_check(t: &mut T, d: &[f32], w: usize, h: usize) {
    t.case(
        || format!("normalize_laplacian of {}x{} {:?}", w, h, &d[..d.len().min(24)]),
        |t| {
            let a = Image::from_slice(w as u32, h as u32, 1, false, d);
            t.seen_f32((w * 1000 + h) as u64, d);
            let r = t.imp(|| filter::normalize_laplacian(&a))?.map_err(|e| format!("error {:?}", e))?;
            let lo = d.iter().fold(f64::INFINITY, |s, &v| s.min(v as f64));
            let hi = d.iter().fold(f64::NEG_INFINITY, |s, &v| s.max(v as f64));
            let g = M::of(&r)?;
            same_dims(&g, &M::new(w, h, 1, false))?;
            if hi > lo {
                for (i, &v) in d.iter().enumerate() {
                    let v = v as f64;
                    let q = g.d[i];
                    let want = (v - lo) / (hi - lo) * 255.0;
                    if (v == lo && q != 0.0) || (v == hi && q != 255.0) || (q - want).abs() > 0.502 {
                        return Err(format!("sample {} (value {} in [{}, {}]) became {} but should be {:.3}", i, v, lo, hi, q, want));
                    }
                }
            }
            Ok(())
        },
    );
}

/// gray+alpha: the gray samples are mapped affinely, the extremes taken over the gray samples or
/// over all samples
fn norm_alpha_check(t: &mut T, d: &[f32], w: usize, h: usize) {
    t.case(
        || format!("normalize_laplacian of gray+alpha {}x{} {:?}", w, h, &d[..d.len().min(24)]),
        |t| {
            let a = Image::from_slice(w as u32, h as u32, 2, true, d);
            t.seen_f32((w * 1000 + h) as u64 + 7, d);
            let r = M::of(&t.imp(|| filter::normalize_laplacian(&a))?.map_err(|e| format!("error {:?}", e))?)?;
            if (r.w, r.h, r.c, r.alpha) != (w, h, 2, true) {
                return Err("dimensions or layout changed".into());
            }
            let mut err = String::new();
            for step in [2usize, 1] {
                let lo = d.iter().step_by(step).fold(f64::INFINITY, |s, &v| s.min(v as f64));
                let hi = d.iter().step_by(step).fold(f64::NEG_INFINITY, |s, &v| s.max(v as f64));
                if lo == hi {
                    return Ok(());
                }
                let bad = (0..w * h).find(|&i| (r.d[i * 2] - (d[i * 2] as f64 - lo) / (hi - lo) * 255.0).abs() > 0.501);
                match bad {
                    None => return Ok(()),
                    Some(i) => err = format!("gray sample {} maps {} to {} with extremes {} and {}", i, d[i * 2], r.d[i * 2], lo, hi),
                }
            }
            Err(err)
        },
    );
}

fn main() {
    let e = Engine::new("C18");
    let nb = [(4097usize, 1usize), (1, 5000), (64, 65), (300, 300), (65537, 1), (1, 70000), (1000, 257)];
    e.par("normalize-large", "7 large shapes: the only minimum and the only maximum at the first, second, 4096th, 65536th, middle and last sample", nb.len(), |t, i| {
        let (w, h) = nb[i];
        let n = w * h;
        let mut ps: Vec<usize> = [0, 1, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536, n / 2, n - 2, n - 1].into_iter().filter(|&p| p < n).collect();
        ps.dedup();
        for &p in &ps {
            for &q in &ps {
                if p != q && (n < 10000 || p == 0 || q == 0 || p == n - 1 || q == n - 1) {
                    let mut d: Vec<f32> = (0..n).map(|k| mix_u8(k, 9) as f32 / 4.0).collect();
                    d[p] = -100.0;
                    d[q] = 300.0;
                    norm_check(t, &d, w, h);
                }
            }
        }
    });
    let ops = vec![
        Op::Prewitt,
        Op::Sobel,
        Op::Weighted(0),
        Op::Weighted(1),
        Op::Weighted(2),
        Op::Weighted(3),
        Op::Weighted(10),
        Op::Weighted(1000),
        Op::Mask(vec![1.0, 3.0, 1.0], vec![-2.0, 0.5, 1.0]),
        Op::Mask(vec![1.0], vec![-2.0]),
        Op::Mask(vec![1.0, 2.0, 4.0, 2.5, 1.0], vec![-1.0, -2.0, 0.0, 2.0, 1.0]),
    ];
    // all binary 3x3 images (linear responses of every neighbourhood pattern) and more
    e.par("binary images", "all 2^n binary images of shapes 3x3, 4x2, 2x4, 1x8, 8x1, 2x2, 1x1 with and without alpha x 11 operators", 7 * ops.len(), |t, i| {
        let (w, h) = [(3usize, 3usize), (4, 2), (2, 4), (1, 8), (8, 1), (2, 2), (1, 1)][i % 7];
        let o = &ops[i / 7];
        for k in 0..pow(2, w * h) {
            let m = word_img(k, w, h, 1, false, &[0, 255]);
            check(t, &m, o);
            if k % 5 == 0 {
                check(t, &M::gen(w, h, 2, true, |x, y, c| if c == 0 { m.at(x, y, 0) } else { (x * 50 + y * 7 + 3) as f64 }), o);
            }
        }
    });
    let smax = e.b(7usize, 10);
    let sh = shapes(smax, smax);
    e.par("shapes", &format!("all shapes up to {}x{} x gray and gray+alpha x 11 operators; constants", smax, smax), sh.len(), |t, i| {
        let (w, h) = sh[i];
        for (c, alpha) in [(1, false), (2, true)] {
            for o in &ops {
                check(t, &mix_img(w, h, c, alpha, 1), o);
                check(t, &mix_img(w, h, c, alpha, 2).map(|v| v / 256.0), o);
                check(t, &mix_img(w, h, c, alpha, 3).map(|v| (v - 128.0) * 100.0), o);
                for v in [0.0, 77.0, 255.0] {
                    check(t, &M::gen(w, h, c, alpha, |_, _, _| v), o);
                }
            }
        }
    });
    // Sobel weights over the whole range of their type
    let cw: Vec<u32> = (0..32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (3u64 << k) >> 1]).chain([u32::MAX as u64 - 1, u32::MAX as u64]).map(|v| v as u32).collect();
    e.par("weights", &format!("weighted Sobel with {} weights around every power of two up to 2^32-1 x 4 shapes x gray and gray+alpha", cw.len()), cw.len(), |t, i| {
        for (w, h) in [(3usize, 3usize), (5, 4), (1, 7), (9, 2)] {
            for (c, alpha) in [(1, false), (2, true)] {
                check(t, &mix_img(w, h, c, alpha, 14), &Op::Weighted(cw[i]));
            }
        }
    });
    let rows = e.b(100usize, 300);
    e.par("sizes", &format!("rows and columns of 1..={} pixels x 4 operators and both Laplacians", rows), rows, |t, i| {
        let n = i + 1;
        for (w, h) in [(n, 1), (1, n), (n, 2), (3, n)] {
            for (c, alpha) in [(1, false), (2, true)] {
                let m = mix_img(w, h, c, alpha, 4);
                for o in &ops[..4] {
                    check(t, &m, o);
                }
                lap_check(t, &m, "laplacian", 3, &lap4, &filter::laplacian);
                lap_check(t, &m, "laplacian_of_gaussian(5, 1)", 5, &|i, j| log(i, j, 1.0), &|a| filter::laplacian_of_gaussian(a, 5, 1.0));
            }
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (40000, 1), (1, 40000), (300, 200)];
    e.par("large", "7 large shapes x gray and gray+alpha x Prewitt, Sobel, weighted Sobel, Laplacian, LoG, normalisation", big.len() * 2, |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = [(1, false), (2, true)][i / big.len()];
        let m = mix_img(w, h, c, alpha, 5);
        for o in [&ops[0], &ops[1], &ops[5]] {
            check(t, &m, o);
        }
        lap_check(t, &m, "laplacian", 3, &lap4, &filter::laplacian);
        lap_check(t, &m, "laplacian_of_gaussian(7, 1.4)", 7, &|i, j| log(i, j, 1.4f32 as f64), &|a| filter::laplacian_of_gaussian(a, 7, 1.4));
        if c == 1 {
            let d: Vec<f32> = m.d.iter().map(|&v| (v as f32) * 3.7 - 400.0).collect();
            norm_check(t, &d, w, h);
        }
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image (more than 2^20 pixels) x Prewitt, Sobel, weighted Sobel, Laplacian, LoG, normalisation with the extremes at either end and in the middle", 18, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001)][i % 2];
        let m = mix_img(w, h, 1, false, 5);
        match i / 2 {
            3 => lap_check(t, &m, "laplacian", 3, &lap4, &filter::laplacian),
            4 => lap_check(t, &m, "laplacian_of_gaussian(5, 1)", 5, &|i, j| log(i, j, 1.0), &|a| filter::laplacian_of_gaussian(a, 5, 1.0)),
            k @ 5..=8 => {
                let mut d = m.d.iter().map(|&v| (v as f32) * 3.7 - 400.0).collect::<Vec<f32>>();
                let n = d.len();
                let (a, b) = [(0, n - 1), (n - 1, 0), (n / 2, n - 2), (n - w, n / 2 + 1)][k - 5];
                d[a] = -950.5;
                d[b] = 1800.25;
                norm_check(t, &d, w, h)
            }
            k => check(t, &m, &ops[k]),
        }
    });
    e.par("real contents", &format!("{} classes of floating-point contents (signed, fractional, large, tiny) x shapes up to 5x5 and 3 larger x the operators (gray, gray+alpha) and Laplacians (13 layouts, up to 9 channels, in turn)", REALS), REALS * 28, |t, i| {
        let sh = shapes(5, 5);
        let n = i / REALS;
        let (w, h) = if n < sh.len() { sh[n] } else { [(33, 20), (1, 300), (300, 2)][n - sh.len()] };
        for (c, alpha) in [(1, false), (2, true)] {
            let m = real_img(w, h, c, alpha, i % REALS, n);
            for o in &ops {
                check(t, &m, o);
            }
            let d: Vec<f32> = m.d.iter().map(|&v| v as f32).collect();
            if c == 1 {
                norm_check(t, &d, w, h);
            } else {
                norm_alpha_check(t, &d, w, h);
            }
        }
        let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
        for q in 0..3 {
            let (c, alpha) = lay[(i + n * 3 + q) % 13];
            let m = real_img(w, h, c, alpha, i % REALS, n + q);
            lap_check(t, &m, "laplacian", 3, &lap4, &filter::laplacian);
            lap_check(t, &m, "laplacian_of_gaussian(5, 1)", 5, &|i, j| log(i, j, 1.0), &|a| filter::laplacian_of_gaussian(a, 5, 1.0));
            lap_check(t, &m, "laplacian_of_gaussian(9, 1.9)", 9, &|i, j| log(i, j, 1.9f32 as f64), &|a| filter::laplacian_of_gaussian(a, 9, 1.9));
        }
    });
    e.par("laplacian", "all binary images of shapes up to 3x3 and all shapes up to 6x6 x 7 layouts", 36, |t, i| {
        let (w, h) = shapes(6, 6)[i];
        for (c, alpha) in LAYOUTS {
            let m = mix_img(w, h, c, alpha, 6);
            lap_check(t, &m, "laplacian", 3, &lap4, &filter::laplacian);
            lap_check(t, &m, "laplacian_of_gaussian(3, 0.8)", 3, &|i, j| log(i, j, 0.8f32 as f64), &|a| filter::laplacian_of_gaussian(a, 3, 0.8));
        }
        if w <= 3 && h <= 3 {
            for k in 0..pow(2, w * h) {
                lap_check(t, &word_img(k, w, h, 1, false, &[0, 255]), "laplacian", 3, &lap4, &filter::laplacian);
            }
        }
    });
    e.par("LoG", "sizes 1..=15 x 12 sigmas x 3 shapes", 8, |t, i| {
        let n = 2 * i + 1;
        for s in [0.4f32, 0.5, 0.7, 1.0, 1.3, 1.4, 1.7, 2.0, 2.5, 3.0, 5.0, 10.0] {
            for (w, h) in [(5usize, 4usize), (16, 16), (1, 9)] {
                lap_check(t, &mix_img(w, h, 1, false, 7), &format!("laplacian_of_gaussian({}, {})", n, s), n, &|i, j| log(i, j, s as f64), &|a| filter::laplacian_of_gaussian(a, n as u32, s));
            }
        }
    });
    // normalisation
    let vals = [-1020.0f32, -300.5, -1.0, 0.0, 0.25, 3.0, 255.0, 1019.0];
    e.par("normalise", "all images of up to 4 samples over 8 values", 4, |t, i| {
        let n = i + 1;
        for k in 0..pow(8, n) {
            let mut q = k;
            let d: Vec<f32> = (0..n)
                .map(|_| {
                    let v = vals[q % 8];
                    q /= 8;
                    v
                })
                .collect();
            norm_check(t, &d, n, 1);
            if n == 4 {
                norm_check(t, &d, 2, 2);
            }
        }
    });
    e.par("normalise ramps", "ramps of 512 values between 40 pairs of bounds", 40, |t, i| {
        let lo = [-1020.0f32, -255.0, -100.0, -1.0, 0.0, 0.5, 10.0, -0.001][i % 8];
        let wd = [0.01f32, 1.0, 255.0, 1000.0, 2040.0][i / 8];
        let d: Vec<f32> = (0..512).map(|k| lo + wd * (k as f32) / 511.0).collect();
        norm_check(t, &d, 32, 16);
        let r: Vec<f32> = d.iter().rev().cloned().collect();
        norm_check(t, &r, 512, 1);
    });
    e.par("reject", "channels 1..=255 with and without alpha for the gradient operators", 510, |t, i| {
        let (c, alpha) = (i / 2 + 1, i % 2 == 1);
        if c == 1 && alpha {
            return;
        }
        let ok = c == 1 || (c == 2 && alpha);
        for o in &ops {
            t.case(
                || format!("{:?} with {} channels alpha={}", o, c, alpha),
                |t| {
                    t.seen(i as u64, format!("{:?}", o).as_bytes());
                    let a = mix_img(3, 2, c, alpha, 1).f32();
                    let r = t.imp(|| match o {
                        Op::Prewitt => filter::prewitt(&a),
                        Op::Sobel => filter::sobel(&a),
                        Op::Weighted(w) => filter::sobel_weighted(&a, *w),
                        Op::Mask(v, h) => filter::derivative_mask(&a, v, h),
                    })?;
                    if r.is_ok() != ok {
                        return Err(format!("returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                    }
                    let n = t.imp(|| filter::normalize_laplacian(&a))?;
                    if n.is_ok() != ok {
                        return Err(format!("normalize_laplacian returned {}", if n.is_ok() { "Ok" } else { "Err" }));
                    }
                    Ok(())
                },
            );
        }
    });
    e.par("reject sizes", "LoG sizes 0..=40; derivative masks of all length pairs up to 8", 41, |t, i| {
        t.case(
            || format!("size {}", i),
            |t| {
                t.seen(i as u64, &[9]);
                let a = mix_img(3, 2, 1, false, 1).f32();
                let r = t.imp(|| filter::laplacian_of_gaussian(&a, i as u32, 1.0))?;
                if r.is_ok() != (i % 2 == 1) {
                    return Err(format!("laplacian_of_gaussian returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                }
                if i <= 8 {
                    for j in 0..=8usize {
                        let r = t.imp(|| filter::derivative_mask(&a, &vec![1.0; i], &vec![1.0; j]))?;
                        if r.is_ok() != (i == j && i % 2 == 1) {
                            return Err(format!("derivative_mask with lengths {} and {} returned {}", i, j, if r.is_ok() { "Ok" } else { "Err" }));
                        }
                    }
                }
                Ok(())
            },
        );
    });
    e.finish();
}
