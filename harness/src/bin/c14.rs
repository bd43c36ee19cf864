//! C14: reflect, rotate and shear move pixels to the geometrically right place.
use imgproc_rs::enums::Refl;
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::transform;
use vh::*;

/// the input pixel an output pixel was copied from; None = blank; Err = not an input pixel
/// (inputs are injectively labelled: sample i holds i + 1)
fn source(out: &M, m: &M, i: usize, j: usize) -> Result<Option<(usize, usize)>, String> {
    let v: Vec<f64> = (0..m.c).map(|k| out.at(i, j, k)).collect();
    if v.iter().all(|&q| q == 0.0) {
        return Ok(None);
    }
    let p = (v[0] - 1.0) / m.c as f64;
    if p < 0.0 || p.fract() != 0.0 || p as usize >= m.w * m.h || (0..m.c).any(|k| v[k] != v[0] + k as f64) {
        return Err(format!("output pixel ({}, {}) = {:?} is neither blank nor an input pixel", i, j, v));
    }
    let p = p as usize;
    Ok(Some((p % m.w, p / m.w)))
}

fn reflect_case(t: &mut T, m: &M) {
    t.case(
        || format!("reflect of {}x{}x{} alpha={}", m.w, m.h, m.c, m.alpha),
        |t| {
            t.seen(hash_bytes(m.w as u64, &[m.h as u8, m.c as u8]), &[m.alpha as u8]);
            for (axis, name) in [(Refl::Horizontal, "horizontal"), (Refl::Vertical, "vertical")] {
                let hz = name == "horizontal";
                let want = M::gen(m.w, m.h, m.c, m.alpha, |x, y, k| if hz { m.at(x, m.h - 1 - y, k) } else { m.at(m.w - 1 - x, y, k) });
                let a = m.f32();
                let ax = || if hz { Refl::Horizontal } else { Refl::Vertical };
                let r = t.imp(|| transform::reflect(&a, axis))?.map_err(|e| format!("{}: error {:?}", name, e))?;
                exact(&M::of(&r)?, &want).map_err(|e| format!("{}: {}", name, e))?;
                let rr = t.imp(|| transform::reflect(&r, ax()))?.map_err(|e| format!("{}: error {:?}", name, e))?;
                exact(&M::of(&rr)?, m).map_err(|e| format!("{} twice: {}", name, e))?;
                exact(&M::of(&a)?, m).map_err(|e| format!("{}: input modified: {}", name, e))?;
                let m8 = m.map(|v| (v as u32 * 37 % 256) as f64);
                let w8 = want.map(|v| (v as u32 * 37 % 256) as f64);
                let r = t.imp(|| transform::reflect(&m8.u8(), ax()))?.map_err(|e| format!("{} u8: error {:?}", name, e))?;
                exact(&M::of(&r)?, &w8).map_err(|e| format!("{} u8: {}", name, e))?;
            }
            Ok(())
        },
    );
}

fn quarter(m: &M, q: i64) -> M {
    match q.rem_euclid(4) {
        0 => m.clone(),
        1 => M::gen(m.h, m.w, m.c, m.alpha, |i, j, k| m.at(m.w - 1 - j, i, k)),
        2 => M::gen(m.w, m.h, m.c, m.alpha, |i, j, k| m.at(m.w - 1 - i, m.h - 1 - j, k)),
        _ => M::gen(m.h, m.w, m.c, m.alpha, |i, j, k| m.at(j, m.h - 1 - i, k)),
    }
}

fn quarter_case(t: &mut T, m: &M, q: i64) {
    t.case(
        || format!("rotate of {}x{}x{} alpha={} by {} degrees", m.w, m.h, m.c, m.alpha, q * 90),
        |t| {
            t.seen(hash_bytes(m.w as u64, &[m.h as u8, m.c as u8]), &q.to_le_bytes());
            let a = m.f32();
            let r = t.imp(|| transform::rotate(&a, (q * 90) as f32))?.map_err(|e| format!("error {:?}", e))?;
            exact(&M::of(&r)?, &quarter(m, q))?;
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

fn rotate_case(t: &mut T, m: &M, deg: f32) {
    t.case(
        || format!("rotate of {}x{}x{} alpha={} by {} degrees", m.w, m.h, m.c, m.alpha, deg),
        |t| {
            t.seen(hash_bytes(m.w as u64, &[m.h as u8, m.c as u8]), &deg.to_le_bytes());
            let a = m.f32();
            let r = t.imp(|| transform::rotate(&a, deg))?.map_err(|e| format!("error {:?}", e))?;
            let o = M::of(&r)?;
            let (s, c) = (deg as f64 % 360.0).to_radians().sin_cos();
            let (w, h) = (m.w as f64, m.h as f64);
            let (bw, bh) = (w * c.abs() + h * s.abs(), w * s.abs() + h * c.abs());
            if o.c != m.c || o.alpha != m.alpha {
                return Err("channel layout changed".into());
            }
            if (o.w as f64 - bw).abs() > 1.001 || (o.h as f64 - bh).abs() > 1.001 {
                return Err(format!("output is {}x{} but the rotated bounding box is {:.3}x{:.3}", o.w, o.h, bw, bh));
            }
            for j in 0..o.h {
                for i in 0..o.w {
                    // position of the output pixel's centre relative to the centre, y up
                    let (ox, oy) = (i as f64 + 0.5 - o.w as f64 / 2.0, o.h as f64 / 2.0 - j as f64 - 0.5);
                    // rotated back into the input
                    let (ix, iy) = (c * ox + s * oy + w / 2.0, h / 2.0 - (-s * ox + c * oy));
                    match source(&o, m, i, j)? {
                        Some((x, y)) => {
                            let d = ((x as f64 + 0.5 - ix).powi(2) + (y as f64 + 0.5 - iy).powi(2)).sqrt();
                            if d > 2.0 {
                                return Err(format!(
                                    "output pixel ({}, {}) shows input pixel ({}, {}) whose rotated position is {:.2} pixels away",
                                    i, j, x, y, d
                                ));
                            }
                        }
                        None => {
                            let inside = ix.min(w - ix).min(iy).min(h - iy);
                            if inside > 1.5 {
                                return Err(format!("output pixel ({}, {}) is blank but lies {:.2} pixels inside the rotated image", i, j, inside));
                            }
                        }
                    }
                }
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

/// possible floors of v given float rounding
fn floors(v: f64, scale: f64) -> (i64, i64) {
    let eps = 1e-5 + scale * 3e-7;
    ((v - eps).floor() as i64, (v + eps).floor() as i64)
}

fn shear_case(t: &mut T, m: &M, sx: f32, sy: f32) {
    t.case(
        || format!("shear of {}x{}x{} alpha={} by ({}, {})", m.w, m.h, m.c, m.alpha, sx, sy),
        |t| {
            t.seen(hash_bytes(m.w as u64, &[m.h as u8, m.c as u8]), &[sx.to_le_bytes(), sy.to_le_bytes()].concat());
            let a = m.f32();
            let r = t.imp(|| transform::shear(&a, sx, sy))?.map_err(|e| format!("error {:?}", e))?;
            let o = M::of(&r)?;
            if o.c != m.c || o.alpha != m.alpha {
                return Err("channel layout changed".into());
            }
            let (fx, fy) = (sx as f64, sy as f64);
            let (offx, offy) = (m.h as f64 * fx.abs(), m.w as f64 * fy.abs());
            let (sclx, scly) = (offx + m.w as f64, offy + m.h as f64);
            let (wl, wh) = floors(offx, sclx);
            let (hl, hh) = floors(offy, scly);
            let (ow, oh) = (o.w as i64 - m.w as i64, o.h as i64 - m.h as i64);
            if ow < wl || ow > wh || oh < hl || oh > hh {
                return Err(format!("output is {}x{} but should be enlarged by {}..={} x {}..={}", o.w, o.h, wl, wh, hl, hh));
            }
            let cand = |x: usize, y: usize| {
                let vx = x as f64 - fx * y as f64 + if fx > 0.0 { offx } else { 0.0 };
                let vy = y as f64 - fy * x as f64 + if fy > 0.0 { offy } else { 0.0 };
                let (a, b) = floors(vx, sclx);
                let (c, d) = floors(vy, scly);
                (a.clamp(0, o.w as i64 - 1), b.clamp(0, o.w as i64 - 1), c.clamp(0, o.h as i64 - 1), d.clamp(0, o.h as i64 - 1))
            };
            for j in 0..o.h {
                for i in 0..o.w {
                    if let Some((x, y)) = source(&o, m, i, j)? {
                        let (a, b, c, d) = cand(x, y);
                        let (i, j) = (i as i64, j as i64);
                        if i < a || i > b || j < c || j > d {
                            return Err(format!("output pixel ({}, {}) shows input pixel ({}, {}) which belongs at ({}, {})", i, j, x, y, a, c));
                        }
                    }
                }
            }
            for y in 0..m.h {
                for x in 0..m.w {
                    let (a, b, c, d) = cand(x, y);
                    let mut found = false;
                    for j in c..=d {
                        for i in a..=b {
                            found |= source(&o, m, i as usize, j as usize)?.is_some();
                        }
                    }
                    if !found {
                        return Err(format!("input pixel ({}, {}) belongs at ({}, {}) but that output pixel is blank", x, y, a, c));
                    }
                }
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

/// moving pixels does not look at them: every output pixel of a content image is the pixel the
/// label image has at that place
fn content_case(t: &mut T, m: &M, what: &str, f: &dyn Fn(&imgproc_rs::image::Image<f32>) -> imgproc_rs::error::ImgProcResult<imgproc_rs::image::Image<f32>>) {
    t.case(
        || format!("{} of {}", what, m.show()),
        |t| {
            let a = m.f32();
            t.seen_f32(hash_bytes((m.w * 1000 + m.h) as u64, what.as_bytes()), a.data());
            let lab = seq_img(m.w, m.h, m.c, m.alpha);
            let l = M::of(&t.imp(|| f(&lab.f32()))?.map_err(|e| format!("error {:?}", e))?)?;
            let r = t.imp(|| f(&a))?.map_err(|e| format!("error {:?}", e))?;
            let mut want = M::new(l.w, l.h, l.c, l.alpha);
            for j in 0..l.h {
                for i in 0..l.w {
                    if let Some((x, y)) = source(&l, &lab, i, j)? {
                        for k in 0..m.c {
                            want.set(i, j, k, m.at(x, y, k));
                        }
                    }
                }
            }
            exact(&M::of(&r)?, &want)?;
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}

/// a row or column of more than 2^24 pixels, where f32 coordinates are no longer exact
fn beyond_case(t: &mut T, what: &str, n: u32, f: &dyn Fn(&Image<f32>) -> imgproc_rs::error::ImgProcResult<Image<f32>>, row: bool, row_out: bool, reversed: bool) {
    t.case(
        || format!("{} of {}", what, if row { format!("{}x1", n) } else { format!("1x{}", n) }),
        |t| {
            t.seen(n as u64 * 2 + row as u64, what.as_bytes());
            let val = |i: u32| (1 + i % 65521) as f32;
            let d: Vec<f32> = (0..n).map(val).collect();
            let a: Image<f32> = if row { Image::from_vec(n, 1, 1, false, d) } else { Image::from_vec(1, n, 1, false, d) };
            let r = t.imp(|| f(&a))?.map_err(|e| format!("error {:?}", e))?;
            let want = if row_out { (n, 1) } else { (1, n) };
            if r.info().wh() != want || r.info().channels != 1 || r.data().len() != n as usize {
                return Err(format!("output is {:?} but should be {:?}", r.info().wh(), want));
            }
            for i in 0..n {
                let w = val(if reversed { n - 1 - i } else { i });
                if r.data()[i as usize] != w {
                    return Err(format!("pixel {} of the output is {} but should be {}", i, r.data()[i as usize], w));
                }
            }
            Ok(())
        },
    );
}

fn main() {
    let e = Engine::new("C14");
    let smax = e.b(9usize, 14);
    let sh = shapes(smax, smax);
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (70000, 1), (1, 70000), (1101, 1003), (5, 210001)];
    e.par("reflect", &format!("all shapes up to {}x{}, rows and columns up to 150, 8 large shapes x 7 layouts", smax, smax), sh.len() + 300 + big.len(), |t, i| {
        let (w, h) = if i < sh.len() {
            sh[i]
        } else if i < sh.len() + 150 {
            (i - sh.len() + 1, 1 + i % 3)
        } else if i < sh.len() + 300 {
            (1 + i % 3, i - sh.len() - 149)
        } else {
            big[i - sh.len() - 300]
        };
        for (c, alpha) in LAYOUTS {
            reflect_case(t, &seq_img(w, h, c, alpha));
        }
    });
    e.par("quarter turns", &format!("all shapes up to {}x{} x all multiples of 90 degrees from -3600 to 3600 x 7 layouts", smax, smax), sh.len(), |t, i| {
        let (w, h) = sh[i];
        for (c, alpha) in LAYOUTS {
            let m = seq_img(w, h, c, alpha);
            for q in -40..=40 {
                quarter_case(t, &m, q);
            }
        }
    });
    e.par("quarter turns, many turns", "2200 multiples of 90 degrees far beyond a full turn, all exact in f32, x 7 shapes x 7 layouts in turn", 1100, |t, i| {
        let q = match i {
            0..=599 => 41 + i as i64,
            600..=899 => (i as i64 - 599) * 601,
            900..=999 => (i as i64 - 899) << (8 + i % 12),
            _ => ((i as i64 - 999) & 63 | 1) << (10 + (i - 1000) / 4),
        };
        for (n, &(w, h)) in [(7usize, 5usize), (1, 1), (33, 20), (301, 1), (2, 300), (64, 64), (128, 3)].iter().enumerate() {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            for q in [q, -q] {
                if (q * 90) as f32 as f64 == q as f64 * 90.0 {
                    quarter_case(t, &seq_img(w, h, c, alpha), q);
                }
            }
        }
    });
    e.par("many turns", "64 angles of 10^3 to 3 * 10^38 degrees x 6 shapes, layouts in turn", 64, |t, i| {
        let deg = if i < 48 { 1000.37f32 * 1.6f32.powi(i as i32) } else { 1e13f32 * 40.0f32.powi(i as i32 - 48) };
        for (n, &(w, h)) in [(8usize, 8usize), (5, 17), (40, 33), (200, 3), (120, 150), (1, 301)].iter().enumerate() {
            let (c, alpha) = LAYOUTS4[(n + i) % 4];
            let m = seq_img(w, h, c, alpha);
            rotate_case(t, &m, deg.min(f32::MAX));
            rotate_case(t, &m, -deg.min(f32::MAX));
        }
    });
    e.par("beyond 2^24", "a row and a column of 2^24 + 4 pixels under reflections, quarter turns and a shear by nothing", 6, |t, i| {
        let n = (1u32 << 24) + 4;
        for row in [true, false] {
            match i {
                0..=3 => {
                    let rev = [false, row, true, !row][i];
                    beyond_case(t, &format!("rotate by {} degrees", i * 90), n, &|a| transform::rotate(a, i as f32 * 90.0), row, row ^ (i % 2 == 1), rev);
                }
                4 => {
                    beyond_case(t, "horizontal reflect", n, &|a| transform::reflect(a, Refl::Horizontal), row, row, !row);
                    beyond_case(t, "vertical reflect", n, &|a| transform::reflect(a, Refl::Vertical), row, row, row);
                }
                _ => beyond_case(t, "shear by (0, 0)", n, &|a| transform::shear(a, 0.0, 0.0), row, row, false),
            }
        }
    });
    let rows = e.b(150usize, 400);
    e.par("quarter turns, more sizes", "rows, columns and large shapes x -360..=360 x 7 layouts", rows * 2 + 6, |t, i| {
        let (w, h) = if i < rows {
            (i + 1, 1 + i % 4)
        } else if i < rows * 2 {
            (1 + i % 4, i - rows + 1)
        } else {
            [(64usize, 64usize), (257, 129), (1031, 17), (3, 1033), (300, 301), (1101, 1003)][i - rows * 2]
        };
        for (c, alpha) in LAYOUTS {
            let m = seq_img(w, h, c, alpha);
            for q in -4..=4 {
                quarter_case(t, &m, q);
            }
        }
    });
    let rmax = e.b(7usize, 9);
    let sh2 = shapes(rmax, rmax);
    let step = e.b(1.0f32, 0.25);
    let na = (720.0 / step) as usize;
    e.par("angles", &format!("all shapes up to {}x{} x angles -360..=360 in steps of {} (shifted grid included) x 4 layouts in turn", rmax, rmax, step), na + 1, |t, i| {
        let deg = -360.0 + i as f32 * step;
        for (n, &(w, h)) in sh2.iter().enumerate() {
            let (c, alpha) = LAYOUTS4[(n + i) % 4];
            let m = seq_img(w, h, c, alpha);
            rotate_case(t, &m, deg);
            rotate_case(t, &m, deg + 0.37 * step);
        }
    });
    let shp = [(8usize, 8usize), (5, 17), (16, 3), (40, 40), (31, 64), (100, 7), (300, 200), (1, 400), (401, 1)];
    let n2 = e.b(144usize, 720);
    e.par("angles, larger images", &format!("9 larger shapes x {} angles x 4 layouts in turn", n2), n2, |t, i| {
        for (n, &(w, h)) in shp.iter().enumerate() {
            let (c, alpha) = LAYOUTS4[(n + i) % 4];
            rotate_case(t, &seq_img(w, h, c, alpha), -180.0 + i as f32 * 360.0 / n2 as f32 + 0.1 * (n as f32));
        }
    });
    // special angles: tiny, huge, next to multiples of 45
    let mut sp: Vec<f32> = vec![1e-6, -1e-6, 1e-3, 1e-30, 0.001, 45.0, 135.0, 359.999, 720.5, 1000.0, -1000.0, 12345.0];
    for k in -8..=8 {
        let a = k as f32 * 45.0;
        sp.extend([a + 0.001, a - 0.001, a + 0.01, a - 0.01, a + 0.3, a - 0.3]);
    }
    e.par("special angles", "angles next to multiples of 45 degrees, tiny and beyond a full turn x shapes up to 9x9 and 8 larger x 7 layouts", sp.len(), |t, i| {
        for (n, (w, h)) in [(47usize, 3usize), (3, 47), (50, 41), (41, 60), (130, 2), (2, 130), (64, 64), (300, 5)].into_iter().enumerate() {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            rotate_case(t, &seq_img(w, h, c, alpha), sp[i]);
        }
        for &(w, h) in &shapes(9, 9) {
            let (c, alpha) = LAYOUTS[(w + h * 3 + i) % 7];
            rotate_case(t, &seq_img(w, h, c, alpha), sp[i]);
        }
    });

    let mut fs: Vec<f32> = vec![
        0.0, 0.01, 0.1, 0.2, 0.25, 0.3, 1.0 / 3.0, 0.4, 0.5, 0.53, 0.6, 0.7, 0.75, 0.8, 0.9, 0.99, 0.999, 1.0, 1.1, 1.25, 1.5, 1.7, 2.0, 2.3, 3.0, 5.0, 7.5,
    ];
    fs.extend([f32::from_bits(1.0f32.to_bits() - 1), f32::from_bits(0.5f32.to_bits() - 1), f32::from_bits(2.0f32.to_bits() - 1), 1e-7, 1e-30]);
    let neg: Vec<f32> = fs.iter().filter(|v| **v != 0.0).map(|v| -v).collect();
    fs.extend(neg);
    let cmax = e.b(5usize, 8);
    let sh3 = shapes(cmax, cmax);
    e.par("shear", &format!("all shapes up to {}x{} x all pairs of {} shear factors x 7 layouts in turn", cmax, cmax, fs.len()), fs.len() * fs.len(), |t, i| {
        let (sx, sy) = (fs[i % fs.len()], fs[i / fs.len()]);
        for (n, &(w, h)) in sh3.iter().enumerate() {
            let (c, alpha) = LAYOUTS[(n + i) % 7];
            shear_case(t, &seq_img(w, h, c, alpha), sx, sy);
        }
    });
    let fine = e.b(400usize, 2000);
    e.par("shear, larger images", &format!("{} factors k/100 in one direction (and both) x wide and tall shapes", fine), fine, |t, i| {
        let f = (i as f32 - fine as f32 / 2.0) / 100.0;
        for &(w, h) in &[(100usize, 3usize), (3, 100), (33, 40), (128, 100), (1, 300), (300, 1), (2, 1000)] {
            let (c, alpha) = LAYOUTS[(w + i) % 7];
            let m = seq_img(w, h, c, alpha);
            shear_case(t, &m, f, 0.0);
            shear_case(t, &m, 0.0, f);
            if f.abs() <= 1.0 {
                shear_case(t, &m, f, -f / 3.0);
            }
        }
    });
    e.par("vast", "a 1101x1003 and a 5x210001 image: 8 angles and 7 shears", 30, |t, i| {
        let k = i / 2;
        let (w, h) = [(1101usize, 1003usize), (5, 210001)][i % 2];
        if k < 8 {
            let deg = [30.0f32, -45.0, 100.5, 179.0, 260.0, -7.25, 0.01, 359.9][k];
            // (the bounding box of a long column is larger than the memory)
            if h < 2000 || k >= 6 {
                rotate_case(t, &seq_img(w, h, 1, false), deg);
            }
        } else {
            let (sx, sy) = [(0.0f32, 0.0f32), (0.1, 0.0), (0.0, 0.1), (-0.2, 0.3), (0.5, -0.5), (1.0, 1.0), (-0.01, -0.01)][k - 8];
            if h < 2000 || sx.abs() < 0.005 {
                shear_case(t, &seq_img(w, h, 1, false), sx, sy);
            }
        }
    });
    e.par("contents", &format!("{} classes of floating-point contents (signed, fractional, zero, large) x shapes up to 5x5 and 3 larger, 13 layouts (up to 9 channels) in turn, under reflections, 11 angles and 9 shears", REALS), REALS * 28, |t, i| {
        let sh = shapes(5, 5);
        let n = i / REALS;
        let (w, h) = if n < sh.len() { sh[n] } else { [(33, 20), (1, 300), (300, 2)][n - sh.len()] };
        let lay: Vec<(usize, bool)> = LAYOUTS.iter().chain(&LAYOUTS_W).cloned().collect();
        for q in 0..3 {
            let (c, alpha) = lay[(i * 3 + n + q) % 13];
            let m = real_img(w, h, c, alpha, i % REALS, n);
            content_case(t, &m, "horizontal reflect", &|a| transform::reflect(a, Refl::Horizontal));
            content_case(t, &m, "vertical reflect", &|a| transform::reflect(a, Refl::Vertical));
            for deg in [0.0f32, 90.0, 180.0, -90.0, 45.0, 30.0, 7.5, 123.0, -61.0, 270.0, 359.0] {
                content_case(t, &m, &format!("rotate by {}", deg), &|a| transform::rotate(a, deg));
            }
            for (sx, sy) in [(0.0f32, 0.0f32), (0.5, 0.0), (0.0, -0.7), (1.0, 1.0), (-0.3, 0.4), (2.0, -1.0), (-1.5, -1.5), (0.25, 3.0), (-2.0, 0.0)] {
                content_case(t, &m, &format!("shear by ({}, {})", sx, sy), &|a| transform::shear(a, sx, sy));
            }
        }
    });
    e.finish();
}
