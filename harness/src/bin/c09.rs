//! C09: contrast and gamma are exact per-sample tone curves.
use imgproc_rs::image::Image;
use imgproc_rs::tone;
use vh::*;

/// output of a tone curve on an image holding every sample value, checked per sample and returned as a table
fn curve(out: &Image<u8>, d: &[u8], w: usize, h: usize, c: usize, alpha: bool, ideal: impl Fn(u8) -> f64, tol: f64) -> Result<[i32; 256], String> {
    let m = M::of(out)?;
    if (m.w, m.h, m.c, m.alpha) != (w, h, c, alpha) {
        return Err("dimensions changed".into());
    }
    let mut table = [-1i32; 256];
    for (i, (&v, &o)) in d.iter().zip(out.data()).enumerate() {
        if alpha && i % c == c - 1 {
            if o != v {
                return Err(format!("alpha sample {} changed from {} to {}", i, v, o));
            }
            continue;
        }
        let w = ideal(v).clamp(0.0, 255.0);
        if (o as f64 - w).abs() > 0.5 + tol {
            return Err(format!("sample {} with value {} became {}, exact value {}", i, v, o, w));
        }
        if table[v as usize] >= 0 && table[v as usize] != o as i32 {
            return Err(format!("value {} became {} and {} at different positions", v, table[v as usize], o));
        }
        table[v as usize] = o as i32;
    }
    Ok(table)
}

fn props(table: &[i32; 256], identity: bool, top: usize, zero: bool) -> Result<(), String> {
    let mut last = -1;
    for v in 0..256 {
        if table[v] < 0 {
            continue;
        }
        if table[v] < last {
            return Err(format!("not monotone at value {}", v));
        }
        last = table[v];
        if identity && v <= top && table[v] != v as i32 {
            return Err(format!("not the identity at value {}: {}", v, table[v]));
        }
    }
    if zero && table[0] > 0 {
        return Err(format!("0 becomes {}", table[0]));
    }
    Ok(())
}

fn all_values(c: usize, rot: usize) -> (usize, usize, Vec<u8>) {
    let (w, h) = (16, 17);
    (w, h, (0..w * h * c).map(|i| ((i / c) * [1, 37, 91][rot % 3] + (i % c) * 85 + rot * 11) as u8).collect())
}

fn main() {
    let e = Engine::new("C09");
    let lay = [(1usize, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true), (5, true)];
    let step = e.b(400, 4000);
    let mut gains: Vec<f32> = (0..=step).map(|i| i as f32 / step as f32).collect();
    gains.extend([1.0 / 3.0, 2.0 / 3.0, 0.5 + 1e-7, 0.5 - 1e-7, 1.0 - 6e-8, 1e-3, 1.0 / 255.0, 0.9999, 0.0039, 1e-30, f32::MIN_POSITIVE, -0.0]);
    e.par("contrast", "all 256 values x gains in steps over [0, 1] x 8 layouts x 3 rotations", gains.len(), |t, i| {
        let g = gains[i];
        for &(c, alpha) in &lay {
            for rot in 0..3 {
                t.case(|| format!("contrast({:e}) layout {}x{} rotation {}", g, c, alpha, rot), |t| {
                    let (w, h, d) = all_values(c, rot);
                    t.seen(90, &[g.to_bits() as u8, (g.to_bits() >> 8) as u8, (g.to_bits() >> 16) as u8, (g.to_bits() >> 24) as u8, c as u8, rot as u8]);
                    let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                    let out = t.imp(|| tone::contrast(&img, g))?.map_err(|e| format!("error for a valid gain: {:?}", e))?;
                    let tb = curve(&out, &d, w, h, c, alpha, |v| v as f64 * g as f64, 1e-4)?;
                    if img.data() != &d[..] {
                        return Err("the input changed".into());
                    }
                    props(&tb, g == 1.0, 255, true)
                });
            }
        }
    });
    // gains that put value v just above or below a rounding tie, k + 1/2
    e.par("contrast/ties", "for every value v in 1..=255 and every k < v: gains (k + 1/2 +- d) / v for d in 3e-4, 1e-3, 4e-3", 255, |t, i| {
        let v = i + 1;
        let d: Vec<u8> = (0..=255u8).chain([v as u8; 40]).collect();
        for k in 0..v {
            for dl in [-4e-3f64, -1e-3, -3e-4, 3e-4, 1e-3, 4e-3] {
                let g = ((k as f64 + 0.5 + dl) / v as f64) as f32;
                if !(0.0..=1.0).contains(&g) {
                    continue;
                }
                t.case(|| format!("contrast({:e}) on all values, tie {} + 1/2 for value {}", g, k, v), |t| {
                    t.seen(93, &[v as u8, k as u8, (dl * 1e4) as i8 as u8]);
                    let img = Image::from_slice(d.len() as u32, 1, 1, false, &d);
                    let out = t.imp(|| tone::contrast(&img, g))?.map_err(|e| format!("error for a valid gain: {:?}", e))?;
                    curve(&out, &d, d.len(), 1, 1, false, |v| v as f64 * g as f64, 1e-4)?;
                    Ok(())
                });
            }
        }
    });
    let mut gammas: Vec<f32> = vec![0.0, 1e-6, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 1.0 / 3.0, 0.4, 0.45, 1.0 / 2.2, 0.5, 0.6, 2.0 / 3.0, 0.7, 0.8, 0.9, 0.99, 1.0, 1.01, 1.1, 1.2, 1.25, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 2.1, 2.2, 2.3, 2.4, 2.5, 2.6, 2.8, 3.0, 3.3, 3.5, 4.0, 4.5, 5.0, 5.5, 6.0, 7.0, 8.0, 10.0, 12.0, 16.0, 20.0, 32.0, 50.0, 100.0, 1000.0];
    if e.thorough() {
        gammas.extend((1..800).map(|i| i as f32 / 100.0 + 0.003));
    }
    e.par("gamma", "all 256 values x every maximum 1..=255 x the listed gammas, layouts rotating", 255 * gammas.len(), |t, i| {
        let (m, g) = (i % 255 + 1, gammas[i / 255]);
        for k in 0..2 {
            let (c, alpha) = lay[(i + k * 3) % lay.len()];
            t.case(|| format!("gamma({}, max={}) layout {}x{}", g, m, c, alpha), |t| {
                let (w, h, d) = all_values(c, i % 3);
                t.seen(91, &[m as u8, (i / 255) as u8, (i / 255 >> 8) as u8, c as u8]);
                let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                let out = t.imp(|| tone::gamma(&img, g, m as u8))?.map_err(|e| format!("error for a valid gamma: {:?}", e))?;
                let tb = curve(&out, &d, w, h, c, alpha, |v| (v as f64 / m as f64).powf(g as f64) * m as f64, 2e-3 * (1.0 + (g as f64).min(10.0)))?;
                if img.data() != &d[..] {
                    return Err("the input changed".into());
                }
                props(&tb, g == 1.0, 255, g > 0.0)
            });
        }
    });
    let mut sh: Vec<(usize, usize)> = (1..=e.b(70, 200)).flat_map(|n| [(n, 1), (1, n)]).collect();
    sh.extend(shapes(9, 9));
    sh.extend([(64, 64), (257, 255), (1031, 67), (3, 4099), (70000, 1), (1, 70000), (1101, 1003)]);
    e.par("sizes", "all image sizes x layouts x 4 gains, 4 gammas: pixel by pixel", sh.len() * lay.len(), |t, i| {
        let ((w, h), (c, alpha)) = (sh[i / lay.len()], lay[i % lay.len()]);
        let d: Vec<u8> = (0..w * h * c).map(|k| mix_u8(k, i % 9)).collect();
        let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
        for k in 0..8 {
            t.case(|| format!("operation {} on {}x{}x{} alpha={}", k, w, h, c, alpha), |t| {
                t.seen(92, &[w as u8, (w >> 8) as u8, h as u8, c as u8, alpha as u8, k]);
                if k < 4 {
                    let g = [0.0f32, 0.3, 0.75, 1.0][k as usize];
                    let out = t.imp(|| tone::contrast(&img, g))?.map_err(|e| format!("{:?}", e))?;
                    curve(&out, &d, w, h, c, alpha, |v| v as f64 * g as f64, 1e-4)?;
                } else {
                    let (g, m) = [(0.45f32, 255u8), (2.2, 255), (1.7, 100), (1.0, 17)][k as usize - 4];
                    let out = t.imp(|| tone::gamma(&img, g, m))?.map_err(|e| format!("{:?}", e))?;
                    curve(&out, &d, w, h, c, alpha, |v| (v as f64 / m as f64).powf(g as f64) * m as f64, 1e-2)?;
                }
                Ok(())
            });
        }
    });
    e.par("reject", "arguments outside the domain, and at its bounds", 1, |t, _| {
        let img = Image::from_slice(3, 1, 3, false, &[9u8, 100, 200, 1, 2, 3, 255, 0, 7]);
        for (g, ok) in [(0.0f32, true), (-0.0, true), (1.0, true), (f32::MIN_POSITIVE, true), (-f32::MIN_POSITIVE, false), (-1e-6, false), (1.0 + 1.2e-7, false), (1.001, false), (1.5, false), (2.0, false), (255.0, false), (-0.5, false), (-1.0, false), (f32::MAX, false), (f32::MIN, false), (f32::INFINITY, false), (f32::NEG_INFINITY, false)] {
            t.case(|| format!("contrast({:e})", g), |t| {
                if t.imp(|| tone::contrast(&img, g))?.is_ok() != ok {
                    return Err(format!("accepted = {}", !ok));
                }
                Ok(())
            });
        }
        for (g, ok) in [(0.0f32, true), (-0.0, true), (1e-20, true), (1e6, true), (-f32::MIN_POSITIVE, false), (-1e-6, false), (-1.0, false), (-2.2, false), (f32::MIN, false), (f32::NEG_INFINITY, false)] {
            for m in [1u8, 100, 255] {
                t.case(|| format!("gamma({:e}, max={})", g, m), |t| {
                    if t.imp(|| tone::gamma(&img, g, m))?.is_ok() != ok {
                        return Err(format!("accepted = {}", !ok));
                    }
                    Ok(())
                });
            }
        }
    });
    e.finish();
}
