//! C10: RGB/HSV conversions match the HSV definition and invert each other.
use imgproc_rs::colorspace::*;
use imgproc_rs::image::Image;
use vh::*;

/// standard hexcone model: hue in [0, 1), saturation in [0, 1], value
fn hsv(r: f64, g: f64, b: f64) -> (f64, f64, f64) {
    let mx = r.max(g).max(b);
    let d = mx - r.min(g).min(b);
    let s = if mx > 0.0 { d / mx } else { 0.0 };
    let h = if d == 0.0 {
        0.0
    } else if mx == r {
        (g - b) / d
    } else if mx == g {
        (b - r) / d + 2.0
    } else {
        (r - g) / d + 4.0
    } / 6.0;
    (if h < 0.0 { h + 1.0 } else { h }, s, mx)
}

fn rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
    let k = |n: f64| {
        let k = (n + h * 6.0).rem_euclid(6.0);
        v - v * s * k.min(4.0 - k).min(1.0).max(0.0)
    };
    [k(5.0), k(3.0), k(1.0)]
}

fn circ(a: f64, b: f64, p: f64) -> f64 {
    let d = (a - b).abs();
    d.min(p - d)
}

fn err8(px: &[u8], hue: f64, s: f64, v: f64) -> f64 {
    let e = rgb(hue, s, v);
    (0..3).map(|c| (px[c] as f64 - e[c]).abs()).fold(0.0, f64::max)
}

fn to_hsv8(p: &[u8], q: &[u8]) -> Result<(), String> {
    let (h, s, v) = hsv(p[0] as f64, p[1] as f64, p[2] as f64);
    if circ(q[0] as f64, h * 255.0, 255.0) > 2.0 || (q[1] as f64 - s * 255.0).abs() > 2.0 || q[2] as f64 != v {
        return Err(format!("colour {:?} became HSV {:?}, definition ({:.2}, {:.2}, {})", p, q, h * 255.0, s * 255.0, v));
    }
    Ok(())
}

fn to_hsvf(p: &[u8], q: &[f32]) -> Result<(), String> {
    let (h, s, v) = hsv(p[0] as f64, p[1] as f64, p[2] as f64);
    let q: Vec<f64> = q.iter().map(|&x| x as f64).collect();
    if !q.iter().take(3).all(|x| (0.0..=1.0).contains(x)) {
        return Err(format!("colour {:?} became HSV {:?}, out of range", p, q));
    }
    if circ(q[0], h, 1.0) > 1e-4 || (q[1] - s).abs() > 1e-4 || (q[2] - v / 255.0).abs() > 1e-4 {
        return Err(format!("colour {:?} became HSV {:?}, definition ({}, {}, {})", p, q, h, s, v / 255.0));
    }
    Ok(())
}

fn from_hsv8(p: &[u8], q: &[u8]) -> Result<(), String> {
    let (s, v) = (p[1] as f64 / 255.0, p[2] as f64);
    for k in 0..=32 {
        let dh = if k % 2 == 0 { k as f64 } else { -(k as f64 + 1.0) } * 0.125;
        if err8(q, (p[0] as f64 + dh) / 255.0, s, v) <= 2.0 {
            return Ok(());
        }
    }
    Err(format!("HSV {:?} became {:?}, definition {:?}", p, q, rgb(p[0] as f64 / 255.0, s, v)))
}

fn from_hsvf(p: &[f32], q: &[u8]) -> Result<(), String> {
    let (h, s, v) = (p[0] as f64, p[1] as f64, p[2] as f64);
    // at a sector boundary the definition is continuous, so no special case is needed
    if err8(q, h, s, v * 255.0) > 2.0 {
        return Err(format!("HSV {:?} became {:?}, definition {:?}", p, q, rgb(h, s, v * 255.0)));
    }
    Ok(())
}

fn main() {
    let e = Engine::new("C10");
    for alpha in [false, true] {
        let c = 3 + alpha as usize;
        e.par(
            &format!("all colours/{} channels", c),
            "all 2^24 RGB colours and all 2^24 8-bit HSV triples: definition, ranges, round trips (8-bit and float), alpha",
            256,
            |t, r| {
                let d: Vec<u8> = (0..65536usize).flat_map(|k| [r as u8, (k >> 8) as u8, k as u8, (k * 7 + 3 * r) as u8][..c].to_vec()).collect();
                let img = Image::from_slice(256, 256, c as u8, alpha, &d);
                let mut h8 = None;
                let mut hf = None;
                t.case(|| format!("rgb_to_hsv of all colours with red {}", r), |t| {
                    let o = t.imp(|| rgb_to_hsv(&img))?;
                    M::of(&o)?;
                    for (k, (p, q)) in d.chunks(c).zip(o.data().chunks(c)).enumerate() {
                        to_hsv8(p, q)?;
                        if alpha && p[3] != q[3] {
                            return Err(format!("alpha of pixel {} changed", k));
                        }
                        if !alpha {
                            t.seen(100, q);
                        }
                    }
                    h8 = Some(o);
                    Ok(())
                });
                t.case(|| format!("rgb_to_hsv_f32 of all colours with red {}", r), |t| {
                    let o = t.imp(|| rgb_to_hsv_f32(&img))?;
                    M::of(&o)?;
                    for (k, (p, q)) in d.chunks(c).zip(o.data().chunks(c)).enumerate() {
                        to_hsvf(p, q)?;
                        if alpha && (q[3] as f64 * 255.0 - p[3] as f64).abs() > 1e-3 {
                            return Err(format!("alpha of pixel {} is {}, was {}", k, q[3] * 255.0, p[3]));
                        }
                    }
                    hf = Some(o);
                    Ok(())
                });
                t.case(|| format!("8-bit round trip of all colours with red {}", r), |t| {
                    let h8 = h8.as_ref().ok_or("no HSV image")?;
                    let o = t.imp(|| hsv_to_rgb(h8))?;
                    for (p, q) in d.chunks(c).zip(o.data().chunks(c)) {
                        if (0..3).any(|k| (p[k] as i32 - q[k] as i32).abs() > 20) || (alpha && p[3] != q[3]) {
                            return Err(format!("{:?} came back as {:?}", p, q));
                        }
                    }
                    Ok(())
                });
                t.case(|| format!("float round trip of all colours with red {}", r), |t| {
                    let hf = hf.as_ref().ok_or("no HSV image")?;
                    let o = t.imp(|| hsv_to_rgb_f32(hf))?;
                    for (p, q) in d.chunks(c).zip(o.data().chunks(c)) {
                        if (0..3).any(|k| (p[k] as i32 - q[k] as i32).abs() > 1) || (alpha && p[3] != q[3]) {
                            return Err(format!("{:?} came back as {:?}", p, q));
                        }
                    }
                    Ok(())
                });
                t.case(|| format!("hsv_to_rgb of all triples with hue {}", r), |t| {
                    let o = t.imp(|| hsv_to_rgb(&img))?;
                    M::of(&o)?;
                    for (p, q) in d.chunks(c).zip(o.data().chunks(c)) {
                        from_hsv8(p, q)?;
                        if alpha && p[3] != q[3] {
                            return Err("alpha changed".into());
                        }
                        if !alpha {
                            t.seen(101, q);
                        }
                    }
                    Ok(())
                });
            },
        );
    }
    // float HSV grid incl. sector boundaries and both ends
    let hn = e.b(720usize, 2880);
    let sn = e.b(32usize, 85);
    e.par("float HSV grid", "hues in steps over [0, 1] (all sector boundaries and their neighbours) x saturations x values", hn + 1 + 14, |t, i| {
        let hue = if i <= hn {
            i as f32 / hn as f32
        } else {
            let k = i - hn - 1;
            let b = (k / 2) as f32 / 6.0;
            if k % 2 == 0 { f32::from_bits(b.to_bits().saturating_sub(1)) } else { (f32::from_bits(b.to_bits() + 1)).min(1.0) }
        };
        for alpha in [false, true] {
            t.case(|| format!("hsv_to_rgb_f32 at hue {} alpha={}", hue, alpha), |t| {
                let c = 3 + alpha as usize;
                let mut d = Vec::new();
                for s in 0..=sn {
                    for v in 0..=sn {
                        d.extend([hue, s as f32 / sn as f32, v as f32 / sn as f32]);
                        if alpha {
                            d.push(((s * 7 + v * 13) % 256) as f32 / 255.0);
                        }
                    }
                }
                let img = Image::from_slice(sn as u32 + 1, sn as u32 + 1, c as u8, alpha, &d);
                let o = t.imp(|| hsv_to_rgb_f32(&img))?;
                M::of(&o)?;
                for (k, (p, q)) in d.chunks(c).zip(o.data().chunks(c)).enumerate() {
                    from_hsvf(p, q)?;
                    if alpha && q[3] as usize != ((k / (sn + 1)) * 7 + (k % (sn + 1)) * 13) % 256 {
                        return Err(format!("alpha {} became {}", p[3] * 255.0, q[3]));
                    }
                }
                t.seen_f32(102, &d[..3.max(d.len().min(30))]);
                t.seen(103 + alpha as u64, &hue.to_bits().to_le_bytes());
                Ok(())
            });
        }
    });
    // pixel independence and sizes
    let mut sh: Vec<(usize, usize)> = (1..=e.b(66, 140)).flat_map(|n| [(n, 1), (1, n)]).collect();
    sh.extend(shapes(9, 9));
    sh.extend([(64, 64), (257, 255), (1031, 17), (3, 4099), (70000, 1), (1101, 1003)]);
    e.par("sizes", "all image sizes x RGB, RGBA: each of the 4 conversions equals the 1-pixel result at every position", sh.len() * 2, |t, i| {
        let (w, h) = sh[i / 2];
        let alpha = i % 2 == 1;
        let c = 3 + alpha as usize;
        let d: Vec<u8> = (0..w * h * c).map(|k| mix_u8(k, i)).collect();
        let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
        let f: Vec<f32> = d.iter().map(|&v| v as f32 / 255.0).collect();
        let fimg = Image::from_slice(w as u32, h as u32, c as u8, alpha, &f);
        let step = if w * h > 5000 { 37 } else { 1 };
        for op in 0..4 {
            t.case(|| format!("conversion {} on {}x{}x{}", op, w, h, c), |t| {
                t.seen(104, &[w as u8, (w >> 8) as u8, h as u8, c as u8, op]);
                macro_rules! indep {
                    ($f:expr, $img:expr, $d:expr) => {{
                        let o = t.imp(|| $f(&$img))?;
                        let m = M::of(&o)?;
                        if (m.w, m.h, m.c, m.alpha) != (w, h, c, alpha) {
                            return Err("dimensions changed".into());
                        }
                        for p in (0..w * h).step_by(step) {
                            let one = $f(&Image::from_slice(1, 1, c as u8, alpha, &$d[p * c..(p + 1) * c]));
                            if one.data() != &o.data()[p * c..(p + 1) * c] {
                                return Err(format!("pixel {} {:?} gives {:?}, alone it gives {:?}", p, &$d[p * c..(p + 1) * c], &o.data()[p * c..(p + 1) * c], one.data()));
                            }
                        }
                    }};
                }
                match op {
                    0 => indep!(rgb_to_hsv, img, d),
                    1 => indep!(rgb_to_hsv_f32, img, d),
                    2 => indep!(hsv_to_rgb, img, d),
                    _ => indep!(hsv_to_rgb_f32, fimg, f),
                }
                Ok(())
            });
        }
    });
    e.finish();
}
