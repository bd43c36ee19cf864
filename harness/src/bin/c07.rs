//! C07: grayscale is the mean of the colour channels, alpha kept.
use imgproc_rs::colorspace::{rgb_to_grayscale, rgb_to_grayscale_f32};
use imgproc_rs::image::{BaseImage, Image};
use vh::*;

fn gray(img: &Image<u8>) -> Image<u8> {
    rgb_to_grayscale(img)
}

/// dimensions, alpha and the mean of every pixel
fn check(out: &Image<u8>, w: usize, h: usize, c: usize, alpha: bool, d: &[u8]) -> Result<(), String> {
    let (oc, nc) = (1 + alpha as usize, c - alpha as usize);
    let o = out.data();
    if out.info().whca() != (w as u32, h as u32, oc as u8, alpha) || o.len() != w * h * oc {
        return Err(format!("the result is {:?} with {} samples", out.info(), o.len()));
    }
    for p in 0..w * h {
        let px = &d[p * c..(p + 1) * c];
        let s: i32 = px[..nc].iter().map(|&v| v as i32).sum();
        let g = o[p * oc] as i32 * nc as i32;
        if (g - s).abs() >= nc as i32 {
            return Err(format!("pixel {} (x={}, y={}) {:?} became {}, the mean is {}", p, p % w, p / w, px, o[p * oc], s as f64 / nc as f64));
        }
        if alpha && o[p * oc + 1] != px[c - 1] {
            return Err(format!("alpha of pixel {} is {}, was {}", p, o[p * oc + 1], px[c - 1]));
        }
    }
    Ok(())
}

fn main() {
    let e = Engine::new("C07");
    // the reference for position independence: the library's own result for a 1-pixel image
    for (c, alpha) in [(3usize, false), (4usize, true)] {
        e.par(
            &format!("all colours/{} channels", c),
            "all 2^24 RGB colours, laid out in three different images (256x256, one row, shifted); mean within 1 level, alpha kept, same gray at every position",
            256,
            |t, r| {
                let n = 65536usize;
                let pix = |k: usize| -> [u8; 4] {
                    let k = k % n;
                    [r as u8, (k >> 8) as u8, k as u8, (k * 7 + 3 * r) as u8]
                };
                let mut first: Vec<u8> = Vec::new();
                for (variant, (w, h, shift)) in [(256usize, 256usize, 0usize), (n, 1, 0), (255, 258, 0), (131, 501, 1 + r)].into_iter().enumerate() {
                    t.case(
                        || format!("red {} x all green, blue; image {}x{}x{} variant {}", r, w, h, c, variant),
                        |t| {
                            let d: Vec<u8> = (0..w * h).flat_map(|k| pix(k + shift)[..c].to_vec()).collect();
                            let img = Image::from_vec(w as u32, h as u32, c as u8, alpha, d.clone());
                            let out = t.imp(|| gray(&img))?;
                            t.seen(70 + variant as u64, &[r as u8, c as u8]);
                            check(&out, w, h, c, alpha, &d)?;
                            let oc = 1 + alpha as usize;
                            if variant == 0 {
                                first = (0..n).map(|k| out.data()[k * oc]).collect();
                                for k in 0..n {
                                    t.seen(7, &[r as u8, (k >> 8) as u8, k as u8]);
                                }
                            } else if !first.is_empty() {
                                for k in 0..w * h {
                                    if out.data()[k * oc] != first[(k + shift) % n] {
                                        return Err(format!("colour {:?} gives {} at position {} but {} elsewhere", &pix(k + shift)[..c], out.data()[k * oc], k, first[(k + shift) % n]));
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
                // one-pixel images
                t.case(
                    || format!("1-pixel images, red {}", r),
                    |t| {
                        for k in (0..n).step_by(if t.eng.thorough() { 1 } else { 7 }) {
                            let px = pix(k);
                            let img = Image::from_slice(1, 1, c as u8, alpha, &px[..c]);
                            let out = t.imp(|| gray(&img))?;
                            check(&out, 1, 1, c, alpha, &px[..c])?;
                            if !first.is_empty() && out.data()[0] != first[k] {
                                return Err(format!("colour {:?} gives {} in a 1-pixel image but {} in a large one", &px[..c], out.data()[0], first[k]));
                            }
                        }
                        Ok(())
                    },
                );
            },
        );
    }
    // all sizes x layouts, position independence via single-pixel images
    let lay: Vec<(usize, bool)> = (1..=8).flat_map(|c| [(c, false), (c, true)]).filter(|&(c, a)| c > a as usize).collect();
    let mut sh: Vec<(usize, usize)> = (1..=e.b(140, 300)).map(|n| (n, 1)).collect();
    sh.extend((2..=70).map(|n| (1, n)));
    sh.extend(shapes(12, 12));
    sh.extend([(64, 64), (65, 63), (300, 7), (7, 300), (257, 257), (1025, 3), (3, 1025), (70000, 1), (1, 70000), (1101, 1003), (5, 210001)]);
    e.par("all sizes and layouts", "all listed image sizes x layouts x 6 contents: every pixel equals the 1-pixel result", sh.len() * lay.len(), |t, i| {
        let ((w, h), (c, alpha)) = (sh[i / lay.len()], lay[i % lay.len()]);
        for content in 0..if w * h > 1 << 20 { 2 } else { 6 } {
            t.case(
                || format!("{}x{}x{} alpha={} content {}", w, h, c, alpha, content),
                |t| {
                    let d: Vec<u8> = (0..w * h * c)
                        .map(|j| match content {
                            0 => label_u8(j, 0),
                            1 => mix_u8(j, 1),
                            2 => 255,
                            3 => if j % 2 == 0 { 255 } else { 254 },
                            4 => if mix_u8(j, 9) & 1 == 0 { 0 } else { 255 },
                            _ => mix_u8(j, 2),
                        })
                        .collect();
                    t.seen(hash_bytes(72, &[w as u8, (w >> 8) as u8, h as u8, c as u8, alpha as u8]), &[content]);
                    let img = Image::from_vec(w as u32, h as u32, c as u8, alpha, d.clone());
                    let out = t.imp(|| gray(&img))?;
                    check(&out, w, h, c, alpha, &d)?;
                    if img.data() != &d[..] {
                        return Err("the input changed".into());
                    }
                    let oc = 1 + alpha as usize;
                    let (a, b) = if w * h > 3000 { (500, 500) } else { (w * h, 0) };
                    for p in (0..a).chain(w * h - b..w * h) {
                        let one = Image::from_slice(1, 1, c as u8, alpha, &d[p * c..(p + 1) * c]);
                        let o1 = gray(&one);
                        if o1.data() != &out.data()[p * oc..(p + 1) * oc] {
                            return Err(format!("pixel {} {:?} gives {:?}, alone it gives {:?}", p, &d[p * c..(p + 1) * c], &out.data()[p * oc..(p + 1) * oc], o1.data()));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    e.par("float images", "all listed image sizes x layouts x 4 contents: exact mean up to rounding", sh.len() * lay.len(), |t, i| {
        let ((w, h), (c, alpha)) = (sh[i / lay.len()], lay[i % lay.len()]);
        for content in 0..4 {
            t.case(
                || format!("f32 {}x{}x{} alpha={} content {}", w, h, c, alpha, content),
                |t| {
                    let m = M {
                        w, h, c, alpha,
                        d: (0..w * h * c)
                            .map(|j| match content {
                                0 => label_u8(j, 0) as f64,
                                1 => (mix_u8(j, 1) as f64 - 128.0) * if w % 2 == 0 { 0.25 } else { 1000.5 },
                                2 => (mix_u8(j, 3) as f64) / 255.0,
                                _ => if mix_u8(j, 4) & 1 == 0 { 1e6 } else { 1e-3 },
                            } as f32 as f64)
                            .collect(),
                    };
                    let out = M::of(&t.imp(|| rgb_to_grayscale_f32(&m.f32()))?)?;
                    let nc = m.nc();
                    let want = M::gen(w, h, 1 + alpha as usize, alpha, |x, y, k| if k == 1 { m.at(x, y, c - 1) } else { (0..nc).map(|k| m.at(x, y, k)).sum::<f64>() / nc as f64 });
                    let mag = m.d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                    close(&out, &want, mag * 1e-5 + 1e-9, 0.0)?;
                    if alpha {
                        for p in 0..w * h {
                            if out.d[p * 2 + 1] != m.d[p * c + c - 1] {
                                return Err(format!("alpha of pixel {} changed", p));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    // every channel count an image can have
    e.par("all channel counts", "channel counts 1..=255 with and without alpha x 6 pixel counts x 4 contents, u8 and f32", 255, |t, i| {
        let c = i + 1;
        for alpha in [false, true] {
            if c == 1 && alpha {
                continue;
            }
            for n in [1usize, 2, 5, 31, 33, 67] {
                for content in 0..4usize {
                    t.case(
                        || format!("gray of {}x1x{} alpha={} content {}", n, c, alpha, content),
                        |t| {
                            let d: Vec<u8> = (0..n * c)
                                .map(|j| match content {
                                    0 => 255,
                                    1 => mix_u8(j, 5),
                                    2 => 255 - (mix_u8(j, 6) & 3),
                                    _ => if mix_u8(j, 7) & 1 == 0 { 0 } else { 255 },
                                })
                                .collect();
                            t.seen(hash_bytes(77, &[c as u8, alpha as u8, n as u8]), &[content as u8]);
                            let img = Image::from_slice(n as u32, 1, c as u8, alpha, &d);
                            check(&t.imp(|| gray(&img))?, n, 1, c, alpha, &d)?;
                            let m = M { w: n, h: 1, c, alpha, d: d.iter().map(|&v| (v as f64 - 100.0) * if content == 1 { 300.0 } else { 0.5 }).collect() };
                            let out = M::of(&t.imp(|| rgb_to_grayscale_f32(&m.f32()))?)?;
                            let nc = m.nc();
                            let want = M::gen(n, 1, 1 + alpha as usize, alpha, |x, y, k| if k == 1 { m.at(x, y, c - 1) } else { (0..nc).map(|k| m.at(x, y, k)).sum::<f64>() / nc as f64 });
                            close(&out, &want, 50_000.0 * 2e-5, 0.0)
                        },
                    );
                }
            }
        }
    });
    e.finish();
}
