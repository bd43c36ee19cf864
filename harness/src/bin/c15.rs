//! C15: scaling produces the right size and interpolates the right neighbours.
use imgproc_rs::enums::Scale;
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::transform;
use vh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Me {
    Near,
    Bil,
    Bic,
    Lan,
    LanN(u32),
}

/// uniform cubic B-spline
fn bspline(t: f64) -> f64 {
    let t = t.abs();
    if t < 1.0 {
        (4.0 - 6.0 * t * t + 3.0 * t * t * t) / 6.0
    } else if t < 2.0 {
        (2.0 - t).powi(3) / 6.0
    } else {
        0.0
    }
}
fn sinc(x: f64) -> f64 {
    if x.abs() < 1e-12 {
        1.0
    } else {
        (std::f64::consts::PI * x).sin() / (std::f64::consts::PI * x)
    }
}
fn lanczos(x: f64, a: f64) -> f64 {
    if x.abs() < a { sinc(x) * sinc(x / a) } else { 0.0 }
}

/// (source index, weight) pairs of a 1-D interpolation at position p
fn taps(me: Me, p: f64) -> Vec<(i64, f64)> {
    let fl = p.floor();
    let r: Box<dyn Fn(f64) -> f64> = match me {
        Me::Near => unreachable!(),
        Me::Bil => Box::new(|t: f64| (1.0 - t.abs()).max(0.0)),
        Me::Bic => Box::new(bspline),
        Me::Lan => Box::new(|t| lanczos(t, 3.0)),
        Me::LanN(a) => Box::new(move |t| lanczos(t, a as f64)),
    };
    let reach = match me {
        Me::Bil => 1,
        Me::Bic => 2,
        Me::Lan => 3,
        Me::LanN(a) => a as i64,
        Me::Near => 0,
    };
    (1 - reach..=reach).map(|k| (fl as i64 + k, r(p - fl - k as f64))).collect()
}

fn dims_ok(got: usize, n: usize, f: f32) -> bool {
    let v = n as f64 * f as f64;
    // a product without rounding error leaves no latitude (halves round away from zero)
    let eps = if (n as f32 * f) as f64 == v { 0.0 } else { v * 3e-7 + 1e-9 };
    got as f64 >= (v - eps + 0.5).floor() && got as f64 <= (v + eps + 0.5).floor()
}

fn check(t: &mut T, m: &M, fx: f32, fy: f32, me: Me) {
    t.case(
        || format!("scale of {}x{}x{} alpha={} by ({}, {}) with {:?}", m.w, m.h, m.c, m.alpha, fx, fy, me),
        |t| {
            let a = m.f32();
            t.seen(hash_bytes((m.w * 1000 + m.h) as u64, &[m.c as u8, match me { Me::Near => 0, Me::Bil => 1, Me::Bic => 2, Me::Lan => 3, Me::LanN(k) => 10 + k as u8 }]), &[fx.to_le_bytes(), fy.to_le_bytes()].concat());
            let r = t
                .imp(|| match me {
                    Me::Near => transform::scale(&a, fx, fy, Scale::NearestNeighbor),
                    Me::Bil => transform::scale(&a, fx, fy, Scale::Bilinear),
                    Me::Bic => transform::scale(&a, fx, fy, Scale::Bicubic),
                    Me::Lan => transform::scale(&a, fx, fy, Scale::Lanczos),
                    Me::LanN(k) => transform::scale_lanczos(&a, fx, fy, k),
                })?
                .map_err(|e| format!("error {:?}", e))?;
            let o = M::of(&r)?;
            if o.c != m.c || o.alpha != m.alpha {
                return Err("channel layout changed".into());
            }
            if !dims_ok(o.w, m.w, fx) || !dims_ok(o.h, m.h, fy) {
                return Err(format!("output is {}x{} but should be round({}) x round({})", o.w, o.h, m.w as f64 * fx as f64, m.h as f64 * fy as f64));
            }
            let (fx, fy) = (fx as f64, fy as f64);
            if me == Me::Near {
                // candidate source interval of each output column / row
                let span = |i: usize, f: f64, n: usize| {
                    let (a, b) = (i as f64 / f, (i + 1) as f64 / f);
                    let eps = 1e-6 * (b + 1.0);
                    let lo = (a - eps).floor().max(0.0).min(n as f64 - 1.0) as usize;
                    let hi = ((b + eps).ceil() - 1.0).max(0.0).min(n as f64 - 1.0) as usize;
                    (lo, hi.max(lo))
                };
                for j in 0..o.h {
                    let (y0, y1) = span(j, fy, m.h);
                    for i in 0..o.w {
                        let (x0, x1) = span(i, fx, m.w);
                        let ok = (y0..=y1).any(|y| (x0..=x1).any(|x| (0..m.c).all(|k| o.at(i, j, k) == m.at(x, y, k))));
                        if !ok {
                            return Err(format!("output pixel ({}, {}) is none of the source pixels ({}..={}, {}..={}) under it", i, j, x0, x1, y0, y1));
                        }
                    }
                }
            } else {
                let (lo, hi) = m.d.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), &v| (l.min(v), h.max(v)));
                let range = hi.abs().max(lo.abs());
                let slack = range * 4e-5;
                let tx: Vec<Vec<(i64, f64)>> = (0..o.w).map(|i| taps(me, i as f64 / fx)).collect();
                let ty: Vec<Vec<(i64, f64)>> = (0..o.h).map(|j| taps(me, j as f64 / fy)).collect();
                for j in 0..o.h {
                    for i in 0..o.w {
                        let tol = range * (1e-5 + 1.5e-6 * (i as f64 / fx + j as f64 / fy));
                        for k in 0..m.c {
                            let mut v = 0.0;
                            for &(y, wy) in &ty[j] {
                                for &(x, wx) in &tx[i] {
                                    v += wy * wx * m.cl(x, y, k);
                                }
                            }
                            let g = o.at(i, j, k);
                            if !((g - v).abs() <= tol) {
                                return Err(format!("output pixel ({}, {}) channel {} is {} but the interpolation there is {} (tolerance {})", i, j, k, g, v, tol));
                            }
                            if matches!(me, Me::Bil | Me::Bic) && !(g >= lo - slack && g <= hi + slack) {
                                return Err(format!("output pixel ({}, {}) channel {} is {}, outside the source range", i, j, k, g));
                            }
                        }
                    }
                }
            }
            if fx == 1.0 && fy == 1.0 && me != Me::Bic {
                let ex = if matches!(me, Me::Near | Me::Bil) { 0.0 } else { 2e-3 * (m.d.iter().fold(255.0f64, |a, &v| a.max(v.abs())) / 255.0) };
                close(&o, m, ex, 0.0).map_err(|e| format!("scaling by 1 changed the image: {}", e))?;
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

/// rows and columns of more than 2^24 pixels, where f32 coordinates are no longer exact
fn beyond_case(t: &mut T, n: u32, grow: bool, row: bool, me: Me) {
    t.case(
        || format!("scale of {} with {:?}", match (grow, row) { (false, true) => format!("{}x1 by (1, 1)", n), (false, _) => format!("1x{} by (1, 1)", n), (_, true) => format!("1x1 by ({}, 1)", n), _ => format!("1x1 by (1, {})", n) }, me),
        |t| {
            t.seen(n as u64 * 4 + row as u64 * 2 + grow as u64, format!("{:?}", me).as_bytes());
            let val = |i: u32| if grow { 77.0f32 } else { (1 + i % 251) as f32 };
            let (w, h) = if row { (n, 1) } else { (1, n) };
            let (wi, hi) = if grow { (1, 1) } else { (w, h) };
            let a: Image<f32> = Image::from_vec(wi, hi, 1, false, (0..wi * hi).map(val).collect());
            let (fx, fy) = if grow { (w as f32, h as f32) } else { (1.0, 1.0) };
            let r = t
                .imp(|| match me {
                    Me::Near => transform::scale(&a, fx, fy, Scale::NearestNeighbor),
                    Me::Bil => transform::scale(&a, fx, fy, Scale::Bilinear),
                    Me::Bic => transform::scale(&a, fx, fy, Scale::Bicubic),
                    Me::Lan => transform::scale(&a, fx, fy, Scale::Lanczos),
                    Me::LanN(k) => transform::scale_lanczos(&a, fx, fy, k),
                })?
                .map_err(|e| format!("error {:?}", e))?;
            if r.info().wh() != (w, h) || r.info().channels != 1 || r.data().len() != n as usize {
                return Err(format!("output is {:?} but should be {:?}", r.info().wh(), (w, h)));
            }
            for i in 0..n {
                let (p, m, q) = (val(i.saturating_sub(1)) as f64, val(i) as f64, val((i + 1).min(n - 1)) as f64);
                let want = if me == Me::Bic { (p + 4.0 * m + q) / 6.0 } else { m };
                let g = r.data()[i as usize] as f64;
                // a Lanczos kernel between samples sums to 1 within some per cent only
                let tol = match me { Me::Near => 0.0, Me::Lan | Me::LanN(_) if grow => 0.3 * m, _ => 0.01 };
                if !((g - want).abs() <= tol) {
                    return Err(format!("pixel {} of the output is {} but should be {}", i, g, want));
                }
            }
            Ok(())
        },
    );
}

fn main() {
    let e = Engine::new("C15");
    let methods = [Me::Near, Me::Bil, Me::Bic, Me::Lan, Me::LanN(1), Me::LanN(2), Me::LanN(5)];
    let q = e.b(12u32, 24);
    let mut fs: Vec<f32> = Vec::new();
    for a in 1..=q {
        for b in 1..=q {
            fs.push(a as f32 / b as f32);
        }
    }
    for k in 1..=e.b(40, 150) {
        fs.push(k as f32 * 0.1);
        fs.push(k as f32 / 16.0);
        fs.push(k as f32 * 0.01);
    }
    for k in 1..=8 {
        for b in [1.0f32, 2.0] {
            let v = k as f32 / b;
            fs.push(f32::from_bits(v.to_bits() + 1));
            fs.push(f32::from_bits(v.to_bits() - 1));
        }
    }
    fs.extend([10.0, 17.3, 33.0]);
    fs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    fs.dedup();
    let nmax = e.b(34usize, 70);
    e.par("lines", &format!("rows and columns of 1..={} pixels x {} factors x 7 kernels, layouts in turn", nmax, fs.len()), fs.len(), |t, i| {
        let f = fs[i];
        for n in 1..=nmax {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            if n as f64 * f as f64 * c as f64 > 3000.0 {
                continue;
            }
            for me in methods {
                check(t, &mix_img(n, 1, c, alpha, 3), f, 1.0, me);
                check(t, &mix_img(1, n, c, alpha, 4), 1.0, f, me);
            }
        }
    });
    let f2: Vec<f32> = vec![0.1, 0.2, 0.25, 1.0 / 3.0, 0.4, 0.5, 0.6, 2.0 / 3.0, 0.7, 0.75, 0.9, 1.0, 1.1, 8.0 / 7.0, 1.25, 4.0 / 3.0, 1.5, 5.0 / 3.0, 1.9, 2.0, 2.3, 2.5, 3.0, 3.7, 4.0, 7.0];
    let smax = e.b(5usize, 8);
    let sh = shapes(smax, smax);
    e.par("shapes", &format!("all shapes up to {}x{} x all pairs of {} factors x 7 kernels, layouts in turn", smax, smax, f2.len()), f2.len() * f2.len(), |t, i| {
        let (fx, fy) = (f2[i % f2.len()], f2[i / f2.len()]);
        for (n, &(w, h)) in sh.iter().enumerate() {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            if w as f64 * h as f64 * (fx * fy) as f64 > e_cap() {
                continue;
            }
            for me in methods {
                check(t, &mix_img(w, h, c, alpha, 5), fx, fy, me);
            }
        }
    });
    e.par("factor one", "factor 1: all shapes up to 9x9 x 7 layouts x 7 kernels", 81, |t, i| {
        let (w, h) = shapes(9, 9)[i];
        for (c, alpha) in LAYOUTS {
            for me in methods {
                check(t, &mix_img(w, h, c, alpha, 6), 1.0, 1.0, me);
            }
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (70001, 1), (1, 70001), (300, 200)];
    let bf = [(1.0f32, 1.0f32), (0.5, 0.5), (0.37, 1.3), (1.3, 0.37), (2.0, 1.0), (0.1, 0.1), (1.0, 8.0 / 7.0)];
    e.par("large", "7 large shapes x 7 factor pairs x 5 kernels, layouts in turn", big.len() * bf.len(), |t, i| {
        let (w, h) = big[i % big.len()];
        let (fx, fy) = bf[i / big.len()];
        let (c, alpha) = LAYOUTS4[(i + i / big.len()) % 4];
        for me in [Me::Near, Me::Bil, Me::Bic, Me::Lan, Me::LanN(2)] {
            check(t, &mix_img(w, h, c, alpha, 7), fx, fy, me);
        }
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image x 3 factor pairs x nearest, bilinear, bicubic", 6, |t, i| {
        let (w, h) = [(1101usize, 1003usize), (5, 210001)][i % 2];
        let (fx, fy) = [(1.0f32, 1.0f32), (0.5, 0.7), (1.3, 1.1)][i / 2];
        for me in [Me::Near, Me::Bil, Me::Bic] {
            check(t, &mix_img(w, h, 1, false, 7), fx, fy, me);
        }
    });
    let n = (1u32 << 24) + 4;
    let bm: Vec<Me> = e.b(vec![Me::Near, Me::Bil, Me::Bic, Me::LanN(1)], vec![Me::Near, Me::Bil, Me::Bic, Me::LanN(1), Me::Lan, Me::LanN(2)]);
    e.par("beyond 2^24", &format!("a row and a column of 2^24 + 4 pixels scaled by 1, and a pixel scaled to them, x {:?}", bm), bm.len() * 4, |t, i| {
        beyond_case(t, n, i / 2 % 2 == 1, i % 2 == 1, bm[i / 4]);
    });
    e.par("beyond 2^24, size", "a row of 2^24 + 1 pixels scaled by 1", 1, |t, _| {
        beyond_case(t, (1 << 24) + 1, false, true, Me::Bil);
    });
    let rf = [(1.0f32, 1.0f32), (0.5, 0.7), (1.3, 2.0), (2.5, 0.4), (3.0, 1.0), (1.0, 12.0), (21.0, 1.0), (0.15, 8.0 / 7.0)];
    e.par("real contents", &format!("{} classes of floating-point contents (signed, fractional, large, tiny) x 8 factor pairs x shapes up to 4x4 and 3 larger x 7 kernels, 13 layouts (up to 9 channels) in turn", REALS), REALS * rf.len(), |t, i| {
        let (fx, fy) = rf[i / REALS];
        for (n, &(w, h)) in shapes(4, 4).iter().chain(&[(13usize, 9usize), (40, 3), (2, 51)]).enumerate() {
            let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
            let (c, alpha) = lay[(n * 3 + i) % 13];
            for me in methods {
                check(t, &real_img(w, h, c, alpha, i % REALS, n), fx, fy, me);
            }
        }
    });
    // the library's Lanczos order is a free argument
    e.par("lanczos orders", "orders 1..=16, 24, 33 x 5 factor pairs x 4 shapes, layouts in turn", 18, |t, i| {
        let k = if i < 16 { i as u32 + 1 } else { [24, 33][i - 16] };
        for (n, &(w, h)) in [(7usize, 5usize), (1, 9), (17, 2), (k as usize * 2 + 3, 3)].iter().enumerate() {
            for (q, &(fx, fy)) in [(1.0f32, 1.0f32), (0.6, 1.7), (2.0, 0.5), (3.3, 1.0), (1.0, 1.9)].iter().enumerate() {
                let (c, alpha) = LAYOUTS[(n + q + i) % 7];
                check(t, &mix_img(w, h, c, alpha, 8), fx, fy, Me::LanN(k));
                check(t, &real_img(w, h, c, alpha, q % REALS, 8), fx, fy, Me::LanN(k));
            }
        }
    });
    // extreme contents: steps and impulses, whose overshoots leave the range first
    e.par("binary rows", "all rows of 1..=8 samples over {0, 255} x 12 factors x 4 kernels", 8, |t, i| {
        let n = i + 1;
        for k in 0..pow(2, n) {
            let m = word_img(k, n, 1, 1, false, &[0, 255]);
            for f in [0.5f32, 0.7, 0.9, 1.0, 1.1, 8.0 / 7.0, 1.5, 2.0, 2.5, 3.0, 3.3, 5.0] {
                for me in [Me::Near, Me::Bil, Me::Bic, Me::Lan] {
                    check(t, &m, f, 1.0, me);
                }
            }
        }
    });
    e.par("reject", "negative factors (each alone and both)", 8, |t, i| {
        let v = [-f32::MIN_POSITIVE, -1e-6, -0.5, -1.0, -2.0, -100.0, -1e30, f32::NEG_INFINITY][i];
        let m = mix_img(3, 2, 3, false, 1);
        for (fx, fy) in [(v, 1.0), (1.0, v), (v, v), (v, 0.5), (2.0, v)] {
            for me in methods {
                t.case(
                    || format!("scale by ({}, {}) with {:?}", fx, fy, me),
                    |t| {
                        let a = m.f32();
                        t.seen(fx.to_bits() as u64, &fy.to_le_bytes());
                        let r = t.imp(|| match me {
                            Me::Near => transform::scale(&a, fx, fy, Scale::NearestNeighbor),
                            Me::Bil => transform::scale(&a, fx, fy, Scale::Bilinear),
                            Me::Bic => transform::scale(&a, fx, fy, Scale::Bicubic),
                            Me::Lan => transform::scale(&a, fx, fy, Scale::Lanczos),
                            Me::LanN(k) => transform::scale_lanczos(&a, fx, fy, k),
                        })?;
                        if r.is_ok() {
                            return Err("a negative factor was accepted".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    e.finish();
}
fn e_cap() -> f64 {
    1200.0
}
