//! C22: erosion, dilation and majority implement their set definitions everywhere.
use imgproc_rs::image::Image;
use imgproc_rs::morphology as mo;
use vh::*;

/// per pixel: (white pixels in the window inside the image, image pixels in the window, window inside)
fn counts(d: &[bool], w: usize, h: usize, r: u64) -> Vec<(u64, u64, bool)> {
    // prefix counts by direct summation along rows, then columns
    let mut p = vec![0u64; (w + 1) * (h + 1)];
    for y in 0..h {
        let mut s = 0;
        for x in 0..w {
            s += d[y * w + x] as u64;
            p[(y + 1) * (w + 1) + x + 1] = p[y * (w + 1) + x + 1] + s;
        }
    }
    let mut v = Vec::with_capacity(w * h);
    for y in 0..h as u64 {
        for x in 0..w as u64 {
            let (x0, y0) = (x.saturating_sub(r) as usize, y.saturating_sub(r) as usize);
            let (x1, y1) = ((x + r + 1).min(w as u64) as usize, (y + r + 1).min(h as u64) as usize);
            let q = |a: usize, b: usize| p[b * (w + 1) + a];
            let c = q(x1, y1) + q(x0, y0) - q(x0, y1) - q(x1, y0);
            v.push((c, ((x1 - x0) * (y1 - y0)) as u64, x >= r && y >= r && x + r < w as u64 && y + r < h as u64));
        }
    }
    v
}

fn check(t: &mut T, d: &[bool], w: usize, h: usize, r: u32, alpha: bool) {
    t.case(
        || format!("radius {} on {}x{} alpha={} {:?}", r, w, h, alpha, d.iter().take(64).map(|&b| b as u8).collect::<Vec<_>>()),
        |t| {
            let c = if alpha { 2 } else { 1 };
            let px: Vec<u8> = (0..w * h * c)
                .map(|i| if alpha && i % 2 == 1 { mix_u8(i, 3) } else if d[i / c] { 255 } else { 0 })
                .collect();
            let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &px);
            t.seen(hash_bytes((w * 100000 + h) as u64, &[r as u8, (r >> 8) as u8, alpha as u8]), &px);
            let cn = counts(d, w, h, r as u64);
            let er = t.imp(|| mo::erode(&img, r))?.map_err(|e| format!("erode: error {:?}", e))?;
            let di = t.imp(|| mo::dilate(&img, r))?.map_err(|e| format!("dilate: error {:?}", e))?;
            let ma = t.imp(|| mo::majority(&img, r))?.map_err(|e| format!("majority: error {:?}", e))?;
            for (name, o) in [("erode", &er), ("dilate", &di), ("majority", &ma)] {
                let g = M::of(o)?;
                same_dims(&g, &M::new(w, h, c, alpha)).map_err(|e| format!("{}: {}", name, e))?;
                for i in 0..w * h {
                    let (white, area, inside) = cn[i];
                    let want = match name {
                        "erode" => Some(inside && white == area),
                        "dilate" => Some(white > 0),
                        _ => {
                            if 2 * white == area {
                                None
                            } else {
                                Some(2 * white > area)
                            }
                        }
                    };
                    let v = o.data()[i * c];
                    let ok = match want {
                        Some(true) => v == 255,
                        Some(false) => v == 0,
                        None => v == 0 || v == 255,
                    };
                    if !ok {
                        return Err(format!("{}: pixel ({}, {}) is {} but {} of the {} image pixels in the window are white{}", name, i % w, i / w, v, white, area, if inside { "" } else { " (window crosses the border)" }));
                    }
                    if alpha && o.data()[i * 2 + 1] != px[i * 2 + 1] {
                        return Err(format!("{}: alpha changed at ({}, {})", name, i % w, i / w));
                    }
                }
            }
            if img.data() != &px[..] {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}

fn main() {
    let e = Engine::new("C22");
    let bits = e.b(12usize, 16);
    let mut shp: Vec<(usize, usize)> = Vec::new();
    for h in 1..=bits {
        for w in 1..=bits / h {
            shp.push((w, h));
        }
    }
    let far = [7u32, 100, 65535, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    e.par("all binary images", &format!("every binary image of at most {} pixels x radii 0..=4 and {:?}, every 3rd with alpha", bits, far), shp.len(), |t, i| {
        let (w, h) = shp[i];
        for k in 0..pow(2, w * h) {
            let d: Vec<bool> = (0..w * h).map(|b| k >> b & 1 == 1).collect();
            for r in 0..=4u32 {
                check(t, &d, w, h, r, false);
            }
            let q = k % 3;
            if q == 0 || k + 1 == pow(2, w * h) {
                for r in 0..=2 {
                    check(t, &d, w, h, r, true);
                }
            }
            if w * h <= 8 {
                for r in far {
                    check(t, &d, w, h, r, k & 1 == 1);
                }
            }
        }
    });
    let smax = e.b(16usize, 24);
    e.par("one odd pixel", &format!("all shapes up to {}x{}: single white pixel / single black pixel at every position x radii 0..=3", smax, smax), smax * smax, |t, i| {
        let (w, h) = (i % smax + 1, i / smax + 1);
        for p in 0..w * h {
            for bg in [false, true] {
                let d: Vec<bool> = (0..w * h).map(|k| (k == p) != bg).collect();
                check(t, &d, w, h, (p % 4) as u32, p % 5 == 0);
            }
        }
        for r in 0..=9 {
            check(t, &vec![true; w * h], w, h, r, r & 1 == 1);
            check(t, &vec![false; w * h], w, h, r, r & 1 == 0);
        }
    });
    let rows = e.b(150usize, 400);
    e.par("sizes", &format!("rows and columns of 1..={} pixels x radii 0..=20 x 3 densities", rows), rows, |t, i| {
        let n = i + 1;
        for (w, h) in [(n, 1), (1, n), (n, 3), (2, n)] {
            for r in [0u32, 1, 2, 3, 5, 10, 20] {
                for dens in [3u8, 128, 250] {
                    let d: Vec<bool> = (0..w * h).map(|k| mix_u8(k, r as usize) < dens).collect();
                    check(t, &d, w, h, r, (i + h) % 3 == 0);
                }
            }
        }
    });
    let big: Vec<(usize, usize)> = e.b(
        vec![(64, 64), (257, 255), (300, 300), (1031, 67), (3, 4099), (70000, 1), (1, 70000), (512, 513), (1101, 1003)],
        vec![(64, 64), (257, 255), (300, 300), (1031, 67), (3, 4099), (70000, 1), (1, 70000), (512, 513), (1101, 1003), (1500, 1201), (2048, 2048)],
    );
    e.par("large", "large images: all white, one black pixel at corners/centre, all black but one, dense and sparse x radii 0, 1, 2, 7, 100, 5000", big.len() * 6, |t, i| {
        let (w, h) = big[i % big.len()];
        let r = [0u32, 1, 2, 7, 100, 5000][i / big.len()];
        let n = w * h;
        let alpha = i % 2 == 1;
        if n > 1 << 20 && !t.eng.thorough() {
            for dens in [1u8, 255] {
                check(t, &(0..n).map(|k| mix_u8(k, 5) < dens).collect::<Vec<_>>(), w, h, r.min(100), alpha);
            }
            return;
        }
        check(t, &vec![true; n], w, h, r, alpha);
        for p in [0, w - 1, n / 2, n - 1] {
            check(t, &(0..n).map(|k| k != p).collect::<Vec<_>>(), w, h, r, alpha);
            check(t, &(0..n).map(|k| k == p).collect::<Vec<_>>(), w, h, r, !alpha);
        }
        for dens in [1u8, 128, 255] {
            check(t, &(0..n).map(|k| mix_u8(k, 5) < dens).collect::<Vec<_>>(), w, h, r, alpha);
        }
    });
    e.par("reject", "channels 1..=255 with and without alpha", 510, |t, i| {
        let (c, alpha) = (i / 2 + 1, i % 2 == 1);
        if c == 1 && alpha {
            return;
        }
        let ok = c == 1 || (c == 2 && alpha);
        for r in [0u32, 1, 3] {
            t.case(
                || format!("{} channels alpha={} radius {}", c, alpha, r),
                |t| {
                    t.seen(i as u64, &[r as u8]);
                    let img = M::gen(3, 3, c, alpha, |x, _, _| (x % 2 * 255) as f64).u8();
                    for (name, g) in [
                        ("erode", t.imp(|| mo::erode(&img, r))?.is_ok()),
                        ("dilate", t.imp(|| mo::dilate(&img, r))?.is_ok()),
                        ("majority", t.imp(|| mo::majority(&img, r))?.is_ok()),
                    ] {
                        if g != ok {
                            return Err(format!("{} returned {}", name, if g { "Ok" } else { "Err" }));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    e.finish();
}
