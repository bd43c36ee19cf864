//! C24: thresholding and residual follow their case tables.
use imgproc_rs::enums::Thresh;
use imgproc_rs::filter;
use imgproc_rs::image::Image;
use vh::*;

const MODES: [&str; 5] = ["Binary", "BinaryInv", "Trunc", "ToZero", "ToZeroInv"];
fn mode(i: usize) -> Thresh {
    match i {
        0 => Thresh::Binary,
        1 => Thresh::BinaryInv,
        2 => Thresh::Trunc,
        3 => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}
fn table(i: usize, v: f32, th: f32, max: f32) -> f32 {
    let gt = v > th;
    match (i, gt) {
        (0, true) | (1, false) => max,
        (0, false) | (1, true) => 0.0,
        (2, true) => th,
        (2, false) => v,
        (3, true) | (4, false) => v,
        _ => 0.0,
    }
}
fn check(t: &mut T, d: &[f32], w: usize, h: usize, alpha: bool, th: f32, max: f32) {
    for i in 0..5 {
        t.case(
            || format!("threshold({}, max={}, {}) of {}x{} alpha={} {:?}", th, max, MODES[i], w, h, alpha, &d[..d.len().min(32)]),
            |t| {
                let c = if alpha { 2 } else { 1 };
                let a = Image::from_slice(w as u32, h as u32, c as u8, alpha, d);
                t.seen_f32(hash_bytes((w * 100000 + h) as u64, &[th.to_le_bytes(), max.to_le_bytes(), [i as u8, c as u8, 0, 0]].concat()), d);
                let o = t.imp(|| filter::threshold(&a, th, max, mode(i)))?.map_err(|e| format!("error {:?}", e))?;
                let want = M {
                    w,
                    h,
                    c,
                    alpha,
                    d: d.iter().enumerate().map(|(k, &v)| if alpha && k % 2 == 1 { v as f64 } else { table(i, v, th, max) as f64 }).collect(),
                };
                exact(&M::of(&o)?, &want)?;
                if a.data() != d {
                    return Err("the input image was modified".into());
                }
                Ok(())
            },
        );
    }
}
fn residual_case(t: &mut T, m: &M, f: &M) {
    t.case(
        || format!("residual of {}x{}x{} alpha={}", m.w, m.h, m.c, m.alpha),
        |t| {
            let want = M { d: (0..m.d.len()).map(|i| (m.d[i] as f32 - f.d[i] as f32) as f64).collect(), ..m.clone() };
            let (a, b) = (m.f32(), f.f32());
            t.seen_f32(hash_bytes((m.w * 100000 + m.h) as u64, &[m.c as u8, m.alpha as u8]), b.data());
            let o = t.imp(|| filter::residual(&a, &b))?.map_err(|e| format!("error {:?}", e))?;
            exact(&M::of(&o)?, &want)?;
            let real = m.d.iter().chain(&f.d).any(|v| v.fract() != 0.0 || *v < 0.0 || *v > 255.0);
            if real {
                exact(&M::of(&a)?, m)?;
                return exact(&M::of(&b)?, f);
            }
            // the same on integer images where the difference is representable
            let hi = M { d: (0..m.d.len()).map(|i| m.d[i].max(f.d[i])).collect(), ..m.clone() };
            let o = t.imp(|| filter::residual(&hi.u8(), &f.u8()))?.map_err(|e| format!("u8: error {:?}", e))?;
            let want = M { d: (0..m.d.len()).map(|i| hi.d[i] - f.d[i]).collect(), ..m.clone() };
            exact(&M::of(&o)?, &want).map_err(|e| format!("u8: {}", e))?;
            exact(&M::of(&a)?, m)?;
            exact(&M::of(&b)?, f)
        },
    );
}

fn main() {
    let e = Engine::new("C24");
    e.par("levels", "every 8-bit sample value against every integer and half-integer threshold in [-1, 256] x 4 maxima x 5 modes, gray and gray+alpha", 515, |t, i| {
        let th = -1.0 + i as f32 * 0.5;
        let d: Vec<f32> = (0..256).map(|v| v as f32).collect();
        let da: Vec<f32> = (0..512).map(|v| if v % 2 == 0 { (v / 2) as f32 } else { (v * 7 % 256) as f32 }).collect();
        for max in [255.0f32, 1.0, 0.0, 100.5] {
            check(t, &d, 16, 16, false, th, max);
            check(t, &da, 32, 8, true, th, max);
        }
    });
    let nasty = [
        f32::NEG_INFINITY, f32::MIN, -1e30f32, -300.0, -1.0, -0.5, -f32::MIN_POSITIVE, 0.0, f32::MIN_POSITIVE, 0.1, 0.3, 0.5, 0.7, 0.99999994, 1.0, 1.0000001, 99.99999, 100.0, 100.00001, 254.99998, 255.0, 255.00002, 1e30, f32::MAX, f32::INFINITY,
    ];
    e.par("values", "all pairs sample x threshold over 25 special values incl. infinities x all maxima among them", nasty.len() * nasty.len(), |t, i| {
        let (th, max) = (nasty[i % 25], nasty[i / 25]);
        check(t, &nasty, 25, 1, false, th, max);
        check(t, &nasty[..24], 3, 4, true, th, max);
        check(t, &nasty[1..], 4, 3, true, th, max);
    });
    let smax = e.b(150usize, 500);
    e.par("sizes", &format!("rows and columns of 1..={} pixels, shapes up to 12x12, gray and gray+alpha", smax), smax, |t, i| {
        let n = i + 1;
        let mut s = vec![(n, 1), (1, n), (n, 2), (3, n)];
        if n <= 144 {
            s.push((i % 12 + 1, i / 12 + 1));
        }
        for (w, h) in s {
            for alpha in [false, true] {
                let d: Vec<f32> = (0..w * h * if alpha { 2 } else { 1 }).map(|k| mix_u8(k, 1) as f32).collect();
                check(t, &d, w, h, alpha, 127.0, 255.0);
                check(t, &d, w, h, alpha, 100.0, 1.0);
            }
        }
    });
    let big = [(64usize, 64usize), (257, 255), (1031, 67), (3, 4099), (70000, 1), (1, 70000), (1101, 1003), (5, 210001)];
    e.par("large", "8 large shapes, gray and gray+alpha; residual of the same shapes", big.len() * 2, |t, i| {
        let (w, h) = big[i % big.len()];
        let alpha = i >= big.len();
        let d: Vec<f32> = (0..w * h * if alpha { 2 } else { 1 }).map(|k| mix_u8(k, 1) as f32).collect();
        check(t, &d, w, h, alpha, 127.0, 255.0);
        let (c, al) = LAYOUTS[i % 7];
        residual_case(t, &mix_img(w, h, c, al, 1), &mix_img(w, h, c, al, 2));
    });
    e.par("reject", "channels 1..=255 with and without alpha", 510, |t, i| {
        let (c, alpha) = (i / 2 + 1, i % 2 == 1);
        if c == 1 && alpha {
            return;
        }
        let ok = c == 1 || (c == 2 && alpha);
        for k in 0..5 {
            for th in [-1.0f32, 0.0, 100.0, 255.0, 300.0] {
                t.case(
                    || format!("threshold({}, {}) with {} channels alpha={}", th, MODES[k], c, alpha),
                    |t| {
                        t.seen(i as u64, &[k as u8, th as i32 as u8]);
                        let a = mix_img(3, 2, c, alpha, 1).f32();
                        let r = t.imp(|| filter::threshold(&a, th, 255.0, mode(k)))?;
                        if r.is_ok() != ok {
                            return Err(format!("returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    e.par("residual values", "all 65536 pairs of 8-bit samples", 256, |t, i| {
        let m = M::gen(256, 1, 1, false, |_, _, _| i as f64);
        let f = M::gen(256, 1, 1, false, |x, _, _| x as f64);
        residual_case(t, &m, &f);
    });
    let sh = shapes(9, 9);
    e.par("residual shapes", "all shapes up to 9x9 and rows up to 150 x 7 layouts", sh.len() + 150, |t, i| {
        let (w, h) = if i < sh.len() { sh[i] } else { (i - sh.len() + 1, 1 + i % 2) };
        for (c, al) in LAYOUTS {
            residual_case(t, &mix_img(w, h, c, al, 1), &mix_img(w, h, c, al, 2));
            residual_case(t, &mix_img(w, h, c, al, 1), &mix_img(w, h, c, al, 1));
        }
    });
    e.par("residual contents", &format!("all pairs of {} classes of floating-point contents x 13 layouts (up to 9 channels) x 12 shapes", REALS), REALS * REALS, |t, i| {
        for (n, &(w, h)) in shapes(3, 3).iter().chain(&[(17usize, 5usize), (1, 65), (300, 1)]).enumerate() {
            for (c, al) in LAYOUTS.into_iter().chain(LAYOUTS_W) {
                residual_case(t, &real_img(w, h, c, al, i % REALS, n), &real_img(w, h, c, al, i / REALS, n + 1));
            }
        }
    });
    e.par("threshold contents", &format!("{} classes of floating-point contents x thresholds at, between and beyond their samples x 4 maxima, gray and gray+alpha", REALS), REALS, |t, i| {
        for (n, (w, h)) in [(5usize, 4usize), (1, 9), (16, 16)].into_iter().enumerate() {
            for alpha in [false, true] {
                let m = real_img(w, h, if alpha { 2 } else { 1 }, alpha, i, n);
                let d: Vec<f32> = m.d.iter().map(|&v| v as f32).collect();
                let mut ths = vec![-1e6f32, -1.0, -0.5, 0.0, 0.25, 127.0, 255.0, 1e6];
                for k in 0..6 {
                    let v = d[k * 3 % d.len()];
                    ths.extend([v, f32::from_bits(v.to_bits().wrapping_add(1)), f32::from_bits(v.to_bits().wrapping_sub(1))]);
                }
                for th in ths {
                    if th.is_finite() {
                        for max in [255.0, 1.0, -7.5, 1e5] {
                            check(t, &d, w, h, alpha, th, max);
                        }
                    }
                }
            }
        }
    });
    e.par("residual reject", "all pairs of shapes up to 4x4 x channel pairs 1..=4", 256, |t, i| {
        let (w1, h1) = (i % 4 + 1, i / 4 % 4 + 1);
        let (w2, h2) = (i / 16 % 4 + 1, i / 64 + 1);
        for c1 in 1..=4 {
            for c2 in 1..=4 {
                t.case(
                    || format!("residual of {}x{}x{} and {}x{}x{}", w1, h1, c1, w2, h2, c2),
                    |t| {
                        t.seen(i as u64, &[c1 as u8, c2 as u8]);
                        let a = mix_img(w1, h1, c1, false, 1).f32();
                        let b = mix_img(w2, h2, c2, false, 2).f32();
                        let ok = (w1, h1, c1) == (w2, h2, c2);
                        let r = t.imp(|| filter::residual(&a, &b))?;
                        if r.is_ok() != ok {
                            return Err(format!("returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    e.finish();
}
