//! C21: the bilateral filter is a centred, normalised, edge-preserving average.
use imgproc_rs::colorspace;
use imgproc_rs::enums::{Bilateral, White};
use imgproc_rs::filter;
use imgproc_rs::image::Image;
use vh::*;

/// the definition, in f64, on the CIELAB image
fn reference(lab: &M, range: f64, spatial: f64) -> M {
    let n = ((spatial * 4.0 + 1.0) as i64) | 1;
    let r = n / 2;
    let mut sw = vec![0.0; (n * n) as usize];
    for j in -r..=r {
        for i in -r..=r {
            sw[((j + r) * n + i + r) as usize] = (-((i * i + j * j) as f64) / (2.0 * spatial * spatial)).exp();
        }
    }
    M::gen(lab.w, lab.h, lab.c, lab.alpha, |x, y, c| {
        let p = lab.at(x, y, c);
        let (mut s, mut tw) = (0.0, 0.0);
        for j in -r..=r {
            for i in -r..=r {
                let q = lab.cl(x as i64 + i, y as i64 + j, c);
                let w = sw[((j + r) * n + i + r) as usize] * (-(q - p) * (q - p) / (2.0 * range * range)).exp();
                s += w * q;
                tw += w;
            }
        }
        s / tw
    })
}

fn check(t: &mut T, m: &M, range: f32, spatial: f32) {
    t.case(
        || format!("bilateral_filter(range={}, spatial={}) of {}", range, spatial, m.show()),
        |t| {
            let a = m.u8();
            t.seen(hash_bytes((m.w * 100000 + m.h) as u64, &[range.to_le_bytes(), spatial.to_le_bytes(), [m.c as u8, 0, 0, 0]].concat()), a.data());
            let o = t.imp(|| filter::bilateral_filter(&a, range, spatial, Bilateral::Direct))?.map_err(|e| format!("error {:?}", e))?;
            let g = M::of(&o)?;
            same_dims(&g, m)?;
            let lab = M::of(&colorspace::srgb_to_lab_f32(&a, &White::D65))?;
            let want = reference(&lab, range as f64, spatial as f64);
            let back: Image<u8> = colorspace::lab_to_srgb_f32(&want.f32(), &White::D65);
            let ws = M::of(&back)?;
            for i in 0..m.d.len() {
                let (x, y, k) = (i / m.c % m.w, i / m.c / m.w, i % m.c);
                let ok = if m.is_alpha(k) {
                    // alpha: carried over or filtered like a colour channel
                    (g.d[i] - m.d[i]).abs() <= 1.0 || (g.d[i] - want.d[i]).abs() <= 1.0
                } else {
                    (g.d[i] - ws.d[i]).abs() <= 1.0
                };
                if !ok {
                    return Err(format!("sample (x={}, y={}, c={}) is {} but should be {}", x, y, k, g.d[i], ws.d[i]));
                }
            }
            exact(&M::of(&a)?, m).map_err(|e| format!("input modified: {}", e))
        },
    );
}
/// output equals the input within one level
fn unchanged(t: &mut T, m: &M, range: f32, spatial: f32) {
    t.case(
        || format!("bilateral_filter(range={}, spatial={}) must not change {}", range, spatial, m.show()),
        |t| {
            let a = m.u8();
            t.seen(hash_bytes((m.w * 100000 + m.h) as u64, &[range.to_le_bytes(), spatial.to_le_bytes(), [m.c as u8, 1, 0, 0]].concat()), a.data());
            let o = t.imp(|| filter::bilateral_filter(&a, range, spatial, Bilateral::Direct))?.map_err(|e| format!("error {:?}", e))?;
            img_close(&o, m, 1.0, 0.0)
        },
    );
}

fn main() {
    let e = Engine::new("C21");
    let ranges = [0.5f32, 2.0, 10.0, 40.0, 1000.0];
    let spat = [0.1f32, 0.2, 0.3, 0.49, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5, 3.0];
    let smax = e.b(5usize, 8);
    let sh = shapes(smax, smax);
    e.par("shapes", &format!("all shapes up to {}x{} x RGB, RGBA x 5 ranges x 12 spatial parameters x 3 contents", smax, smax), sh.len() * 2, |t, i| {
        let (w, h) = sh[i / 2];
        let (c, alpha) = [(3, false), (4, true)][i % 2];
        for r in ranges {
            for s in spat {
                check(t, &mix_img(w, h, c, alpha, 1), r, s);
                // soft content: neighbours within the range
                check(t, &mix_img(w, h, c, alpha, 2).map(|v| 100.0 + (v as u32 % 24) as f64), r, s);
                // two regions
                check(t, &M::gen(w, h, c, alpha, |x, y, k| if x + y < 4 { 40.0 + k as f64 * 9.0 } else { 190.0 + (x % 3) as f64 * 4.0 }), r, s);
            }
        }
    });
    e.par("two-colour images", "all 2^9 3x3 and 2^8 2x4, 8x1, 1x8 images over two colours, close and far apart, x 3 ranges x 3 spatial parameters", 24, |t, i| {
        let (w, h) = [(3usize, 3usize), (2, 4), (8, 1), (1, 8)][i % 4];
        let (a, b) = [([90.0, 120.0, 60.0], [104.0, 108.0, 75.0]), ([0.0, 0.0, 0.0], [255.0, 255.0, 255.0])][i / 4 % 2];
        let s = [0.5f32, 1.0, 2.0][i / 8];
        for k in 0..pow(2, w * h) {
            let m = M::gen(w, h, 3, false, |x, y, c| if k >> (y * w + x) & 1 == 1 { a[c] } else { b[c] });
            for r in [3.0f32, 12.0, 200.0] {
                check(t, &m, r, s);
            }
        }
    });
    let step = e.b(51usize, 17);
    e.par("constants", &format!("constant images of every colour on a {}-step grid x parameters", step), 256 / step + 1, |t, i| {
        let r = (i * step).min(255) as f64;
        for g in (0..=255).step_by(step) {
            for b in (0..=255).step_by(step) {
                for (rg, sp) in [(1e-6f32, 1.0f32), (0.1, 0.3), (5.0, 1.0), (100.0, 2.0), (1e6, 0.1), (20.0, 5.0)] {
                    unchanged(t, &M::gen(3, 2, 3, false, |_, _, k| [r, g as f64, b as f64][k]), rg, sp);
                    unchanged(t, &M::gen(2, 2, 4, true, |_, _, k| [r, g as f64, b as f64, 99.0][k]), rg, sp);
                }
            }
        }
    });
    // distinct colours whose every CIELAB channel differs clearly from its neighbours'
    e.par("small range", "ranges 1e-6..1e-3 on images of up to 6x6 with arbitrary content", 36, |t, i| {
        let (w, h) = shapes(6, 6)[i];
        for rg in [1e-6f32, 1e-5, 1e-4, 1e-3] {
            for s in [0.1f32, 0.5, 1.0, 2.0, 4.0] {
                for salt in 0..3 {
                    unchanged(t, &mix_img(w, h, 3, false, 10 + salt), rg, s);
                    unchanged(t, &mix_img(w, h, 4, true, 20 + salt), rg, s);
                }
            }
        }
    });
    let np = e.b(60usize, 200);
    e.par("parameters", &format!("{} spatial parameters 0.05..=3 and {} ranges on a 6x5 image", np, np), np, |t, i| {
        let s = 0.05 + i as f32 * (2.95 / (np as f32 - 1.0));
        for r in [1.0f32, 15.0, 300.0] {
            check(t, &mix_img(6, 5, 3, false, 4), r, s);
            check(t, &mix_img(6, 5, 3, false, 5).map(|v| 60.0 + v / 8.0).map(f64::floor), r, s);
        }
        check(t, &mix_img(5, 6, 3, false, 6), 0.3 * 1.15f32.powi(i as i32), 1.0);
    });
    // parameters whose squares or whose Gaussian's prefactor no f32 holds
    let er = [f32::from_bits(1), f32::MIN_POSITIVE, 1e-30, 1e-22, 1e-19, 1e-15, 1e-10, 1e-7, 1e7, 1e10, 1e15, 5e18, 1e20, 1e30, f32::MAX, f32::INFINITY];
    let es = [f32::from_bits(1), f32::MIN_POSITIVE, 1e-30, 1e-22, 1e-19, 1e-15, 1e-10, 1e-5, 0.01, 0.24, 0.3, 1.0, 2.0];
    e.par("extreme parameters", "16 ranges from the smallest positive float to infinity x 13 spatial parameters from the smallest positive float to 2, 3 layouts and contents", er.len(), |t, i| {
        for s in es {
            for (k, (w, h, c, alpha)) in [(1usize, 1usize, 3usize, false), (4, 3, 3, false), (3, 4, 4, true)].into_iter().enumerate() {
                let m = mix_img(w, h, c, alpha, 12 + k);
                check(t, &m, er[i], s);
                check(t, &m.map(|v| 100.0 + (v as u32 % 24) as f64), er[i], s);
                if er[i] < 1e-3 || s < 0.25 {
                    unchanged(t, &m, er[i], s);
                }
            }
        }
    });
    e.par("wide windows", "spatial 4..=12 (windows of up to 49 pixels) on small images", 9, |t, i| {
        let s = 4.0 + i as f32;
        for (w, h) in [(1usize, 1usize), (2, 3), (5, 5)] {
            for r in [5.0f32, 50.0] {
                check(t, &mix_img(w, h, 3, false, 7), r, s);
            }
        }
    });
    let rows = e.b(70usize, 200);
    e.par("sizes", &format!("rows and columns of 1..={} pixels", rows), rows, |t, i| {
        let n = i + 1;
        for (w, h) in [(n, 1), (1, n), (n, 2), (3, n)] {
            let (c, alpha) = [(3, false), (4, true)][(i + h) % 2];
            check(t, &mix_img(w, h, c, alpha, 8), 20.0, 0.5);
            check(t, &mix_img(w, h, c, alpha, 9), 20.0, 1.0);
        }
    });
    let big = [(64usize, 64usize), (257, 129), (1031, 17), (3, 4099), (20000, 1), (1, 20000), (1101, 1003)];
    e.par("large", "7 large shapes", big.len(), |t, i| {
        let (w, h) = big[i];
        let (c, alpha) = [(3, false), (4, true)][i % 2];
        check(t, &mix_img(w, h, c, alpha, 11), 30.0, 0.6);
    });
    e.par("reject", "negative parameters", 6, |t, i| {
        let v = [-f32::MIN_POSITIVE, -1e-6, -0.5, -1.0, -100.0, f32::NEG_INFINITY][i];
        for (r, s) in [(v, 1.0), (1.0, v), (v, v)] {
            t.case(
                || format!("range {} spatial {}", r, s),
                |t| {
                    t.seen(r.to_bits() as u64, &s.to_le_bytes());
                    let a = mix_img(3, 2, 3, false, 1).u8();
                    if t.imp(|| filter::bilateral_filter(&a, r, s, Bilateral::Direct))?.is_ok() {
                        return Err("a negative parameter was accepted".into());
                    }
                    Ok(())
                },
            );
        }
    });
    e.finish();
}
