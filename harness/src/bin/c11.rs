//! C11: sRGB, linear RGB, XYZ and CIELAB conversions are consistent and invertible.
use imgproc_rs::colorspace::*;
use imgproc_rs::enums::White;
use imgproc_rs::image::Image;
use vh::*;

// sRGB primaries, D65 (the published matrix and its inverse)
const TO_XYZ: [f64; 9] = [0.4124564, 0.3575761, 0.1804375, 0.2126729, 0.7151522, 0.0721750, 0.0193339, 0.1191920, 0.9503041];
const TO_RGB: [f64; 9] = [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252];

fn mul(m: &[f64; 9], v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| m[3 * i] * v[0] + m[3 * i + 1] * v[1] + m[3 * i + 2] * v[2])
}
fn white(w: usize) -> White {
    if w == 0 { White::D50 } else { White::D65 }
}
fn wp(w: usize) -> [f64; 3] {
    // CIE 1931 2 degree tristimulus values, Y = 1
    if w == 0 { [0.964212, 1.0, 0.825188] } else { [0.950489, 1.0, 1.088840] }
}
fn lab(xyz: [f64; 3], w: usize) -> [f64; 3] {
    let d = 6.0f64 / 29.0;
    let f = |t: f64| if t > d * d * d { t.cbrt() } else { t / (3.0 * d * d) + 4.0 / 29.0 };
    let n = wp(w);
    let (x, y, z) = (f(xyz[0] / n[0]), f(xyz[1] / n[1]), f(xyz[2] / n[2]));
    [116.0 * y - 16.0, 500.0 * (x - y), 200.0 * (y - z)]
}
fn unlab(l: [f64; 3], w: usize) -> [f64; 3] {
    let d = 6.0f64 / 29.0;
    let f = |t: f64| if t > d { t * t * t } else { 3.0 * d * d * (t - 4.0 / 29.0) };
    let n = wp(w);
    let y = (l[0] + 16.0) / 116.0;
    [n[0] * f(y + l[1] / 500.0), n[1] * f(y), n[2] * f(y - l[2] / 200.0)]
}
fn p3(q: &[f32]) -> [f64; 3] {
    [q[0] as f64, q[1] as f64, q[2] as f64]
}
fn near(got: &[f32], want: [f64; 3], tol: f64, what: &str) -> Result<(), String> {
    for k in 0..3 {
        let d = (got[k] as f64 - want[k]).abs();
        if !(d <= tol * (1.0 + want[k].abs())) {
            return Err(format!("{} {:?}, should be {:?}", what, &got[..3], want));
        }
    }
    Ok(())
}
fn back(p: &[u8], q: &[u8], alpha: bool, how: &str) -> Result<(), String> {
    if (0..3).any(|k| (p[k] as i32 - q[k] as i32).abs() > 1) {
        return Err(format!("{:?} came back through {} as {:?}", p, how, q));
    }
    if alpha && p[3] != q[3] {
        return Err(format!("alpha {} came back through {} as {}", p[3], how, q[3]));
    }
    Ok(())
}
fn alphas(p: &[f32], q: &[f32], alpha: bool) -> Result<(), String> {
    if alpha && p[3] != q[3] {
        return Err(format!("alpha {} became {}", p[3], q[3]));
    }
    Ok(())
}

fn main() {
    let e = Engine::new("C11");
    // the transfer curve
    e.par("curve", "all 256 levels in every channel position x layouts", 7, |t, i| {
        let (c, alpha) = LAYOUTS[i];
        t.case(|| format!("linearisation of all levels, layout {}x{}", c, alpha), |t| {
            let d: Vec<u8> = (0..256 * c * c).map(|k| ((k / c) % 256) as u8).collect();
            let img = Image::from_slice(256, c as u32, c as u8, alpha, &d);
            let o = t.imp(|| linearize_srgb_f32(&img))?;
            let mut last = [f32::NEG_INFINITY; 8];
            for (k, q) in o.data().chunks(c).take(256).enumerate() {
                for (j, &v) in q.iter().enumerate() {
                    if alpha && j == c - 1 {
                        if v != k as f32 {
                            return Err(format!("alpha {} became {}", k, v));
                        }
                        continue;
                    }
                    if !(v > last[j]) || !(0.0..=1.0).contains(&v) {
                        return Err(format!("not strictly increasing within [0, 1] at level {}: {} after {}", k, v, last[j]));
                    }
                    if q[j] != q[0] {
                        return Err(format!("channels differ at level {}", k));
                    }
                    last[j] = v;
                }
                t.seen(110, &[k as u8]);
            }
            let (a, b) = (o.data()[0], o.data()[255 * c]);
            if a != 0.0 || (b as f64 - 1.0).abs() > 1e-5 {
                return Err(format!("0 and 255 become {} and {}", a, b));
            }
            Ok(())
        });
    });
    for alpha in [false, true] {
        let c = 3 + alpha as usize;
        e.par(
            &format!("all colours/{} channels", c),
            "all 2^24 sRGB colours: round trips through linear RGB, XYZ, Lab (D50 and D65), formulas, composition, ranges, alpha",
            256,
            |t, r| {
                if alpha && r % 4 != 0 && !t.eng.thorough() {
                    return; // with alpha: every fourth red level (quick)
                }
                let d: Vec<u8> = (0..65536usize).flat_map(|k| [r as u8, (k >> 8) as u8, k as u8, (k * 7 + 3 * r) as u8][..c].to_vec()).collect();
                let img = Image::from_slice(256, 256, c as u8, alpha, &d);
                let mut lin = None;
                let mut xyz = None;
                t.case(|| format!("linear RGB of all colours with red {}", r), |t| {
                    let l = t.imp(|| linearize_srgb_f32(&img))?;
                    M::of(&l)?;
                    let b = t.imp(|| unlinearize_srgb_f32(&l))?;
                    M::of(&b)?;
                    for (p, q) in d.chunks(c).zip(b.data().chunks(c)) {
                        back(p, q, alpha, "linear RGB")?;
                    }
                    lin = Some(l);
                    Ok(())
                });
                t.case(|| format!("XYZ of all colours with red {}", r), |t| {
                    let l = lin.as_ref().ok_or("no linear image")?;
                    let x = t.imp(|| srgb_lin_to_xyz_f32(l))?;
                    M::of(&x)?;
                    let b = t.imp(|| xyz_to_srgb_lin_f32(&x))?;
                    let comp = t.imp(|| srgb_to_xyz_f32(&img))?;
                    let full = t.imp(|| xyz_to_srgb_f32(&x))?;
                    for (k, p) in d.chunks(c).enumerate() {
                        let s = k * c..(k + 1) * c;
                        let (lq, xq, bq, cq) = (&l.data()[s.clone()], &x.data()[s.clone()], &b.data()[s.clone()], &comp.data()[s.clone()]);
                        near(xq, mul(&TO_XYZ, p3(lq)), 1e-5, "XYZ")?;
                        near(bq, mul(&TO_RGB, p3(xq)), 1e-5, "linear RGB from XYZ")?;
                        near(cq, p3(xq), 1e-6, "sRGB to XYZ in one call")?;
                        alphas(lq, xq, alpha)?;
                        alphas(lq, bq, alpha)?;
                        alphas(lq, cq, alpha)?;
                        back(p, &full.data()[s], alpha, "XYZ")?;
                        if !alpha {
                            t.seen(111, p);
                        }
                    }
                    xyz = Some(x);
                    Ok(())
                });
                for w in 0..2 {
                    t.case(|| format!("Lab (white {}) of all colours with red {}", ["D50", "D65"][w], r), |t| {
                        let x = xyz.as_ref().ok_or("no XYZ image")?;
                        let l = t.imp(|| xyz_to_lab_f32(x, &white(w)))?;
                        M::of(&l)?;
                        let comp = t.imp(|| srgb_to_lab_f32(&img, &white(w)))?;
                        let bx = t.imp(|| lab_to_xyz_f32(&l, &white(w)))?;
                        let full = t.imp(|| lab_to_srgb_f32(&l, &white(w)))?;
                        for (k, p) in d.chunks(c).enumerate() {
                            let s = k * c..(k + 1) * c;
                            let (xq, lq, cq, bq) = (&x.data()[s.clone()], &l.data()[s.clone()], &comp.data()[s.clone()], &bx.data()[s.clone()]);
                            near(lq, lab(p3(xq), w), 1e-3, "Lab")?;
                            near(cq, p3(lq), 1e-4, "sRGB to Lab in one call")?;
                            near(bq, p3(xq), 1e-4, "XYZ back from Lab")?;
                            if !(lq[0] >= -1e-3 && lq[0] <= 100.001) {
                                return Err(format!("lightness of {:?} is {}", p, lq[0]));
                            }
                            alphas(xq, lq, alpha)?;
                            alphas(xq, cq, alpha)?;
                            alphas(xq, bq, alpha)?;
                            back(p, &full.data()[s], alpha, "Lab")?;
                        }
                        t.seen(112 + w as u64, &[r as u8, c as u8]);
                        Ok(())
                    });
                }
            },
        );
    }
    // XYZ and Lab grids that are not images of sRGB colours
    let n = e.b(24usize, 60);
    e.par("grids", "grids of XYZ in [0, 1.1]^3 and Lab in [-20, 130] x [-160, 160]^2 incl. the joints of the piecewise formulas, both whites", (n + 1) * 2, |t, i| {
        let (a, w) = (i / 2, i % 2);
        t.case(|| format!("grid slice {} white {}", a, w), |t| {
            let mut xs = Vec::new();
            let mut ls = Vec::new();
            for b in 0..=n {
                for k in 0..=n {
                    // dense near the joint (6/29)^3 = 0.008856
                    let v = |j: usize| if j < n / 3 { 0.0005 * j as f32 * 24.0 / (n as f32) * 3.0 } else { 1.1 * j as f32 / n as f32 };
                    xs.extend([v(a), v(b), v(k)]);
                    ls.extend([-20.0 + 150.0 * a as f32 / n as f32, -160.0 + 320.0 * b as f32 / n as f32, -160.0 + 320.0 * k as f32 / n as f32]);
                }
            }
            let m = n as u32 + 1;
            let xi = Image::from_slice(m, m, 3, false, &xs);
            let li = Image::from_slice(m, m, 3, false, &ls);
            let l = t.imp(|| xyz_to_lab_f32(&xi, &white(w)))?;
            let x = t.imp(|| lab_to_xyz_f32(&li, &white(w)))?;
            let lin = t.imp(|| xyz_to_srgb_lin_f32(&xi))?;
            let fx = t.imp(|| srgb_lin_to_xyz_f32(&xi))?;
            let full = t.imp(|| lab_to_srgb_f32(&li, &white(w)))?;
            let steps = unlinearize_srgb_f32(&xyz_to_srgb_lin_f32(&x));
            for k in 0..xs.len() / 3 {
                let s = 3 * k..3 * k + 3;
                near(&l.data()[s.clone()], lab(p3(&xs[s.clone()]), w), 1e-3, "Lab")?;
                near(&x.data()[s.clone()], unlab(p3(&ls[s.clone()]), w), 1e-4, &format!("XYZ of Lab {:?}", &ls[s.clone()]))?;
                near(&lin.data()[s.clone()], mul(&TO_RGB, p3(&xs[s.clone()])), 1e-5, "linear RGB")?;
                near(&fx.data()[s.clone()], mul(&TO_XYZ, p3(&xs[s.clone()])), 1e-5, "XYZ")?;
                if (0..3).any(|j| (full.data()[3 * k + j] as i32 - steps.data()[3 * k + j] as i32).abs() > 1) {
                    return Err(format!("Lab {:?} to sRGB in one call {:?}, in steps {:?}", &ls[s.clone()], &full.data()[s.clone()], &steps.data()[s]));
                }
            }
            t.seen_f32(115, &xs[..300]);
            t.seen_f32(116 + w as u64, &ls[..300]);
            Ok(())
        });
    });
    // pixel independence
    let mut sh: Vec<(usize, usize)> = (1..=e.b(40, 140)).flat_map(|n| [(n, 1), (1, n)]).collect();
    sh.extend(shapes(8, 8));
    sh.extend([(64, 64), (257, 255), (1031, 17), (3, 4099), (70000, 1), (1101, 1003)]);
    e.par("sizes", "all image sizes x RGB, RGBA: each of the conversions equals the 1-pixel result at every position", sh.len() * 2, |t, i| {
        let (w, h) = sh[i / 2];
        let alpha = i % 2 == 1;
        let c = 3 + alpha as usize;
        let d: Vec<u8> = (0..w * h * c).map(|k| mix_u8(k, i)).collect();
        let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
        let f: Vec<f32> = d.iter().enumerate().map(|(k, &v)| if k % c == 3 { v as f32 } else { v as f32 / 255.0 }).collect();
        let fimg = Image::from_slice(w as u32, h as u32, c as u8, alpha, &f);
        let lf: Vec<f32> = d.iter().enumerate().map(|(k, &v)| match k % c { 0 => v as f32 / 2.55, 3 => v as f32, _ => v as f32 - 128.0 }).collect();
        let limg = Image::from_slice(w as u32, h as u32, c as u8, alpha, &lf);
        let step = if w * h > 5000 { 37 } else { 1 };
        for op in 0..14 {
            t.case(|| format!("conversion {} on {}x{}x{}", op, w, h, c), |t| {
                t.seen(117, &[w as u8, (w >> 8) as u8, h as u8, c as u8, op]);
                macro_rules! indep {
                    ($f:expr, $img:expr, $d:expr) => {{
                        let o = t.imp(|| $f(&$img))?;
                        let m = M::of(&o)?;
                        if (m.w, m.h, m.c, m.alpha) != (w, h, c, alpha) {
                            return Err("dimensions changed".into());
                        }
                        for p in (0..w * h).step_by(step) {
                            let one = $f(&Image::from_slice(1, 1, c as u8, alpha, &$d[p * c..(p + 1) * c]));
                            if one.data() != &o.data()[p * c..(p + 1) * c] {
                                return Err(format!("pixel {} {:?} gives {:?}, alone it gives {:?}", p, &$d[p * c..(p + 1) * c], &o.data()[p * c..(p + 1) * c], one.data()));
                            }
                        }
                    }};
                }
                match op {
                    0 => indep!(linearize_srgb_f32, img, d),
                    1 => indep!(unlinearize_srgb_f32, fimg, f),
                    2 => indep!(srgb_lin_to_xyz_f32, fimg, f),
                    3 => indep!(xyz_to_srgb_lin_f32, fimg, f),
                    4 => indep!(|x| xyz_to_lab_f32(x, &White::D50), fimg, f),
                    5 => indep!(|x| xyz_to_lab_f32(x, &White::D65), fimg, f),
                    6 => indep!(|x| lab_to_xyz_f32(x, &White::D50), limg, lf),
                    7 => indep!(|x| lab_to_xyz_f32(x, &White::D65), limg, lf),
                    8 => indep!(srgb_to_xyz_f32, img, d),
                    9 => indep!(xyz_to_srgb_f32, fimg, f),
                    10 => indep!(|x| srgb_to_lab_f32(x, &White::D50), img, d),
                    11 => indep!(|x| srgb_to_lab_f32(x, &White::D65), img, d),
                    12 => indep!(|x| lab_to_srgb_f32(x, &White::D50), limg, lf),
                    _ => indep!(|x| lab_to_srgb_f32(x, &White::D65), limg, lf),
                }
                Ok(())
            });
        }
    });
    e.finish();
}
