//! C12: lightness tone operations and histogram equalisation follow their definition.
use imgproc_rs::colorspace::{lab_to_srgb_f32, srgb_to_lab_f32};
use imgproc_rs::enums::White;
use imgproc_rs::image::Image;
use imgproc_rs::tone;
use imgproc_rs::util::generate_histogram_percentiles;
use std::collections::HashMap;
use vh::hist::Levels;
use vh::*;

/// reference: edit the lightness of the (separately checked) Lab image and convert back
fn with_l(img: &Image<u8>, w: &White, f: impl Fn(f64) -> f64) -> Image<u8> {
    let lab = srgb_to_lab_f32(img, w);
    let m = M::of(&lab).unwrap();
    let c = m.c;
    let mut o = m.clone();
    for (i, v) in o.d.iter_mut().enumerate() {
        if i % c == 0 {
            *v = f(*v);
        }
    }
    lab_to_srgb_f32(&o.f32(), w)
}

fn near(got: &Image<u8>, want: &Image<u8>, input: &Image<u8>) -> Result<(), String> {
    let (g, w, i) = (M::of(got)?, M::of(want)?, M::of(input)?);
    close(&g, &w, 1.0, 0.0)?;
    same_dims(&g, &i)?;
    if g.alpha {
        for k in (g.c - 1..g.d.len()).step_by(g.c) {
            if g.d[k] != i.d[k] {
                return Err(format!("alpha sample {} changed from {} to {}", k, i.d[k], g.d[k]));
            }
        }
    }
    Ok(())
}

fn white(w: usize) -> White {
    if w == 0 { White::D50 } else { White::D65 }
}

fn equalise(t: &mut T, img: &Image<u8>, a: f32, w: usize, prec: f32) -> Result<(), String> {
    let out = t.imp(|| tone::histogram_equalization(img, a, &white(w), prec))?.map_err(|e| format!("error for valid arguments: {:?}", e))?;
    let lab = srgb_to_lab_f32(img, &white(w));
    let m = M::of(&lab)?;
    let ls: Vec<f64> = m.d.iter().step_by(m.c).copied().collect();
    // the percentile table itself
    let mut table: HashMap<i32, f32> = HashMap::new();
    t.imp(|| generate_histogram_percentiles(&lab, &mut table, prec))?;
    if a == 0.0 {
        near(&out, img, img)?;
    }
    Levels::new(&ls, prec as f64, 0.0).check(&table)?;
    // the result: the lightness of each pixel may be quantised to either side of a boundary next to it
    let lv = Levels::new(&ls, prec as f64, 1e-4);
    let a = a as f64;
    let mut memo: HashMap<i64, (f64, f64)> = HashMap::new();
    let mut ends = [m.clone(), m.clone()];
    let mut wide = 0.0f64;
    for (p, l) in ls.iter().enumerate() {
        let mut at = |k: i64| *memo.entry(k).or_insert_with(|| lv.p(k));
        let (x, y) = (at(lv.lo[p]).0, at(lv.hi[p]).1);
        wide = wide.max(y - x);
        ends[0].d[p * m.c] = a * 100.0 * x + (1.0 - a) * l;
        ends[1].d[p * m.c] = a * 100.0 * y + (1.0 - a) * l;
    }
    let first = lab_to_srgb_f32(&ends[0].f32(), &white(w));
    if wide == 0.0 {
        return near(&out, &first, img);
    }
    let second = lab_to_srgb_f32(&ends[1].f32(), &white(w));
    let tol = if wide < 2e-3 { 1 } else { 2 };
    img_eq_u8_range(&out, &first, &second, tol)?;
    let (g, i) = (M::of(&out)?, M::of(img)?);
    for k in 0..g.d.len() {
        if g.alpha && k % g.c == g.c - 1 && g.d[k] != i.d[k] {
            return Err(format!("alpha sample {} changed from {} to {}", k, i.d[k], g.d[k]));
        }
    }
    Ok(())
}

/// every sample between those of two images, or at most `tol` beyond
fn img_eq_u8_range(got: &Image<u8>, a: &Image<u8>, b: &Image<u8>, tol: i32) -> Result<(), String> {
    let (g, x, y) = (M::of(got)?, M::of(a)?, M::of(b)?);
    same_dims(&g, &x)?;
    for k in 0..g.d.len() {
        let (lo, hi) = (x.d[k].min(y.d[k]) - tol as f64, x.d[k].max(y.d[k]) + tol as f64);
        if g.d[k] < lo || g.d[k] > hi {
            return Err(format!("sample {} is {}, expected {} to {}", k, g.d[k], lo, hi));
        }
    }
    Ok(())
}

fn main() {
    let e = Engine::new("C12");
    hist::word_tables(&e);
    let lv = [0u8, 1, 5, 10, 11, 30, 64, 100, 127, 128, 160, 200, 230, 254, 255];
    let cube = |alpha: bool| -> Image<u8> {
        let c = 3 + alpha as usize;
        let d: Vec<u8> = (0..15 * 15 * 15usize).flat_map(|k| [lv[k % 15], lv[k / 15 % 15], lv[k / 225], (k * 7) as u8][..c].to_vec()).collect();
        Image::from_vec(225, 15, c as u8, alpha, d)
    };
    let imgs = [cube(false), cube(true)];
    e.par("brightness_lab", "all 511 biases x 15^3 colours, RGB and RGBA; all 65536 arguments for acceptance", 512, |t, i| {
        if i == 511 {
            for b in i16::MIN..=i16::MAX {
                t.case(|| format!("brightness_lab({})", b), |t| {
                    let img = Image::from_slice(1, 1, 3, false, &[9u8, 100, 200]);
                    let ok = t.imp(|| tone::brightness_lab(&img, b))?.is_ok();
                    if ok != (-255..=255).contains(&b) {
                        return Err(format!("accepted = {}", ok));
                    }
                    Ok(())
                });
            }
            return;
        }
        let b = i as i16 - 255;
        for img in &imgs {
            t.case(|| format!("brightness_lab({}) {:?}", b, M::of(img).unwrap().c), |t| {
                t.seen(120, &[i as u8, (i >> 8) as u8, M::of(img)?.c as u8]);
                let out = t.imp(|| tone::brightness_lab(img, b))?.map_err(|e| format!("error: {:?}", e))?;
                near(&out, &with_l(img, &White::D50, |l| l + b as f64 * 100.0 / 255.0), img)
            });
        }
    });
    let n = e.b(200, 2000);
    e.par("contrast_lab", "gains in steps over [0, 1] x 15^3 colours, RGB and RGBA; bounds", n + 2, |t, i| {
        if i == n + 1 {
            let img = Image::from_slice(1, 1, 3, false, &[9u8, 100, 200]);
            for (g, ok) in [(0.0f32, true), (1.0, true), (-0.0, true), (0.5, true), (-1e-6, false), (1.0 + 1.2e-7, false), (1.5, false), (-1.0, false), (f32::INFINITY, false), (f32::NEG_INFINITY, false), (f32::MAX, false)] {
                t.case(|| format!("contrast_lab({:e})", g), |t| {
                    if t.imp(|| tone::contrast_lab(&img, g))?.is_ok() != ok {
                        return Err(format!("accepted = {}", !ok));
                    }
                    Ok(())
                });
            }
            for (a, p, ok) in [(0.0f32, 1.0f32, true), (1.0, 1.0, true), (0.5, 0.0, true), (-1e-6, 1.0, false), (1.0001, 1.0, false), (0.5, -1e-6, false), (0.5, -100.0, false), (2.0, 10.0, false), (-1.0, 10.0, false), (f32::INFINITY, 1.0, false)] {
                t.case(|| format!("histogram_equalization(alpha={:e}, precision={:e})", a, p), |t| {
                    if t.imp(|| tone::histogram_equalization(&img, a, &White::D50, p))?.is_ok() != ok {
                        return Err(format!("accepted = {}", !ok));
                    }
                    Ok(())
                });
            }
            return;
        }
        let g = i as f32 / n as f32;
        for img in &imgs {
            t.case(|| format!("contrast_lab({})", g), |t| {
                t.seen(121, &[i as u8, (i >> 8) as u8, M::of(img)?.c as u8]);
                let out = t.imp(|| tone::contrast_lab(img, g))?.map_err(|e| format!("error: {:?}", e))?;
                near(&out, &with_l(img, &White::D50, |l| l * g as f64), img)
            });
        }
    });
    // histogram equalisation: all small images over a palette
    let pal: [[u8; 3]; 5] = [[0, 0, 0], [200, 30, 90], [199, 31, 90], [90, 160, 20], [255, 255, 255]];
    let precs = [1.0f32, 10.0, 100.0, 255.0, 0.1, 0.0, 3.7];
    let alphas = [0.0f32, 0.25, 0.5, 1.0];
    let lens = e.b(5usize, 7);
    e.par("equalisation/small", &format!("all images of 1..={} pixels over 5 colours x 7 precisions x 4 weights x 2 whites", lens), lens * 125, |t, i| {
        let (len, part) = (i / 125 + 1, i % 125);
        let total = 5usize.pow(len as u32);
        for code in (part..total).step_by(125) {
            let d: Vec<u8> = word(code, len, &[0, 1, 2, 3, 4]).iter().flat_map(|&k| pal[k as usize]).collect();
            let shape = if len % 2 == 0 && code % 3 == 0 { (2, len / 2) } else if code % 2 == 0 { (len, 1) } else { (1, len) };
            for (j, &p) in precs.iter().enumerate() {
                let a = alphas[(code + j) % 4];
                let w = (code / 2 + j) % 2;
                t.case(|| format!("histogram_equalization(alpha={}, white {}, precision={}) on palette word {} of {} pixels, shape {:?}", a, w, p, code, len, shape), |t| {
                    t.seen(122, &[&d[..], &[j as u8, shape.0 as u8]].concat());
                    let img = Image::from_slice(shape.0 as u32, shape.1 as u32, 3, false, &d);
                    equalise(t, &img, a, w, p)
                });
            }
        }
    });
    // lightness levels placed on a quantisation boundary: both sides of the boundary must be looked up consistently
    e.par("equalisation/boundaries", "256 gray levels and 64 colours x 2 whites x precisions putting the lightness within 3 ulps of k + 1/2 for 6 values of k, alone and with 2 other colours", 320, |t, i| {
        let px: [u8; 3] = if i < 256 { [i as u8; 3] } else { [(i * 37) as u8, (i * 101) as u8, (i * 59) as u8] };
        for wh in 0..2 {
            let one = Image::from_slice(1, 1, 3, false, &px);
            let l = match t.imp(|| srgb_to_lab_f32(&one, &white(wh))) {
                Ok(x) => x.data()[0],
                Err(_) => continue,
            };
            if !(l > 0.01) {
                continue;
            }
            for k in [0u32, 1, 7, 25, 100, 254] {
                let p0 = ((k as f64 + 0.5) / l as f64) as f32;
                for u in -3i32..=3 {
                    let p = f32::from_bits((p0.to_bits() as i32 + u) as u32);
                    for (n, d) in [(1u32, px.to_vec()), (3, [&px[..], &[10, 200, 30], &[250, 240, 235]].concat())] {
                        t.case(|| format!("histogram_equalization(alpha=0.5, white {}, precision={:?}) of {:?}", wh, p, d), |t| {
                            t.seen(124, &[&p.to_le_bytes()[..], &d].concat());
                            let img = Image::from_slice(n, 1, 3, false, &d);
                            equalise(t, &img, 0.5, wh, p)
                        });
                    }
                }
            }
        }
    });
    let mut sh = shapes(7, 7);
    sh.extend([(64, 64), (33, 65), (256, 16), (300, 40), (1, 500), (1000, 2), (300, 250)]);
    e.par("equalisation/sizes", "all image sizes x 6 contents x all precisions, weights and whites, RGB and RGBA", sh.len(), |t, i| {
        let (w, h) = sh[i];
        for content in 0..6 {
            for alpha in [false, true] {
                let c = 3 + alpha as usize;
                let d: Vec<u8> = (0..w * h * c)
                    .map(|k| match content {
                        0 => mix_u8(k, 1),
                        1 => ((k / c) * 255 / (w * h)) as u8,
                        2 => 77,
                        3 => if mix_u8(k / c, 3) < 128 { 0 } else { 255 },
                        4 => 200 + mix_u8(k, 5) % 8,
                        _ => 255 - ((k / c) * 255 / (w * h)) as u8,
                    })
                    .collect();
                let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                for &p in &precs {
                    for &a in &alphas {
                        if w * h > 3000 && (a == 0.25 || p == 3.7) {
                            continue;
                        }
                        for wh in 0..2 {
                            t.case(|| format!("histogram_equalization(alpha={}, white {}, precision={}) on {}x{}x{} content {}", a, wh, p, w, h, c, content), |t| {
                                t.seen(123, &[w as u8, h as u8, c as u8, content, wh as u8, p as u8, (a * 4.0) as u8]);
                                equalise(t, &img, a, wh, p)
                            });
                        }
                    }
                }
            }
        }
    });
    let mut sh: Vec<(usize, usize)> = (1..=e.b(80, 200)).flat_map(|n| [(n, 1), (1, n), (n, 2)]).collect();
    sh.extend(shapes(7, 7));
    sh.extend([(64, 64), (33, 65), (256, 16), (1031, 17), (300, 257), (70000, 1), (1, 70000), (1101, 1003)]);
    e.par("lightness/sizes", "rows and columns of 1..=80 (200) pixels, all shapes up to 7x7 and 8 large x RGB and RGBA x 7 biases, 5 gains and an equalisation: every pixel follows the definition", sh.len(), |t, i| {
        let (w, h) = sh[i];
        for alpha in [false, true] {
            let c = 3 + alpha as usize;
            if alpha && w * h > 66000 && h > 1 && !t.eng.thorough() {
                continue;
            }
            let img = mix_img(w, h, c, alpha, 9).u8();
            for b in [-255i16, -130, -1, 0, 1, 77, 255] {
                if w * h > 1_000_000 && b != 77 && b != -1 {
                    continue;
                }
                t.case(|| format!("brightness_lab({}) on {}x{}x{}", b, w, h, c), |t| {
                    t.seen(125, &[&b.to_le_bytes()[..], &[i as u8, (i >> 8) as u8, c as u8]].concat());
                    let out = t.imp(|| tone::brightness_lab(&img, b))?.map_err(|e| format!("error: {:?}", e))?;
                    near(&out, &with_l(&img, &White::D50, |l| l + b as f64 * 100.0 / 255.0), &img)
                });
            }
            for g in [0.0f32, 0.1, 0.5, 0.93, 1.0] {
                if w * h > 1_000_000 && g != 0.93 {
                    continue;
                }
                t.case(|| format!("contrast_lab({}) on {}x{}x{}", g, w, h, c), |t| {
                    t.seen(126, &[&g.to_le_bytes()[..], &[i as u8, (i >> 8) as u8, c as u8]].concat());
                    let out = t.imp(|| tone::contrast_lab(&img, g))?.map_err(|e| format!("error: {:?}", e))?;
                    near(&out, &with_l(&img, &White::D50, |l| l * g as f64), &img)
                });
            }
            t.case(|| format!("histogram_equalization(alpha=0.5, white 1, precision=10) on {}x{}x{}", w, h, c), |t| {
                t.seen(127, &[i as u8, (i >> 8) as u8, c as u8]);
                equalise(t, &img, 0.5, 1, 10.0)
            });
        }
    });
    e.finish();
}
