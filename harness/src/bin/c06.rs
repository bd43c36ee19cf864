//! C06: brightness is a saturating per-channel add that spares alpha.
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::tone;
use vh::*;

fn want(d: &[u8], c: usize, alpha: bool, b: i16) -> Vec<u8> {
    d.iter()
        .enumerate()
        .map(|(i, &v)| {
            if alpha && i % c == c - 1 {
                v
            } else {
                (v as i32 + b as i32).clamp(0, 255) as u8
            }
        })
        .collect()
}

fn main() {
    let e = Engine::new("C06");
    let mut layouts: Vec<(usize, bool)> = LAYOUTS.to_vec();
    layouts.extend([(5, false), (5, true), (6, true), (7, false), (8, true), (33, true)]);

    // every bias x every sample value x every lane offset (values rotate through the lanes)
    let ls = layouts.clone();
    e.par("values", "all biases -255..=255 x all 256 sample values x 13 layouts, 2 rotations", 511 * ls.len(), |t, i| {
        let b = (i % 511) as i16 - 255;
        let (c, alpha) = ls[i / 511];
        for rot in 0..2usize {
            // 256 values in colour samples, shifted so that every value meets several lanes
            let w = 16;
            let h = (256 + rot * 5 + w - 1) / w * 1 + 1;
            let n = w * h * c;
            let d: Vec<u8> = (0..n).map(|i| ((i / c) * if rot == 0 { 1 } else { 37 } + (i % c) * 85 + rot * 11) as u8).collect();
            t.case(
                || format!("brightness(bias={}) on {}x{}x{} alpha={} rotation {}", b, w, h, c, alpha, rot),
                |t| {
                    let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                    t.seen(hash_bytes(b as u64, &[c as u8, alpha as u8]), &d);
                    let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                    img_eq_u8(&r, w, h, c, alpha, &want(&d, c, alpha, b))?;
                    t.seen(1, r.data());
                    if img.data() != &d[..] {
                        return Err("the input image was modified".into());
                    }
                    Ok(())
                },
            );
        }
    });

    // every image size around the vector widths
    let nmax = e.b(200usize, 700);
    let biases: Vec<i16> = e.b(
        vec![-255, -254, -129, -128, -127, -100, -1, 0, 1, 2, 100, 127, 128, 129, 200, 254, 255],
        (-255..=255).step_by(5).chain([-254, -129, -128, -127, -1, 0, 1, 127, 128, 129, 254]).collect(),
    );
    e.par("sizes", &format!("all pixel counts 1..={} as rows, columns and blocks x 13 layouts x {} biases", nmax, biases.len()), nmax, |t, i| {
        let n = i + 1;
        let mut shapes = vec![(n, 1), (1, n)];
        for k in 2..=9 {
            if n % k == 0 && n / k > 1 {
                shapes.push((n / k, k));
                shapes.push((k, n / k));
            }
        }
        for &(w, h) in &shapes {
            for &(c, alpha) in &layouts {
                for &b in &biases {
                    t.case(
                        || format!("brightness(bias={}) on {}x{}x{} alpha={}", b, w, h, c, alpha),
                        |t| {
                            let d: Vec<u8> = (0..n * c).map(|i| mix_u8(i, b as usize & 1023)).collect();
                            let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
                            t.seen(hash_bytes(b as u64, &[c as u8, alpha as u8, w as u8]), &d);
                            let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                            img_eq_u8(&r, w, h, c, alpha, &want(&d, c, alpha, b))?;
                            t.seen(1, r.data());
                            Ok(())
                        },
                    );
                }
            }
        }
    });

    // all biases x all small sizes (every lane / tail position combination)
    let smax = e.b(72usize, 140);
    e.par("biases x sizes", &format!("all 511 biases x rows of 1..={} pixels x 13 layouts", smax), 511, |t, i| {
        let b = i as i16 - 255;
        for n in 1..=smax {
            for &(c, alpha) in &layouts {
                t.case(
                    || format!("brightness(bias={}) on {}x1x{} alpha={}", b, n, c, alpha),
                    |t| {
                        let d: Vec<u8> = (0..n * c).map(|i| mix_u8(i, b as usize & 1023)).collect();
                        let img = Image::from_slice(n as u32, 1, c as u8, alpha, &d);
                        t.seen(hash_bytes(b as u64, &[c as u8, alpha as u8]), &d);
                        let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                        img_eq_u8(&r, n, 1, c, alpha, &want(&d, c, alpha, b))
                    },
                );
            }
        }
    });

    // every channel count an image can have
    e.par("all channel counts", "channel counts 1..=255 with and without alpha x 9 pixel counts x 17 biases", 255, |t, i| {
        let c = i + 1;
        for alpha in [false, true] {
            for n in [1usize, 2, 3, 4, 7, 16, 31, 33, 70] {
                let d: Vec<u8> = (0..n * c).map(|i| mix_u8(i, 60 + n)).collect();
                for b in [-255i16, -254, -129, -128, -127, -100, -2, -1, 0, 1, 2, 77, 127, 128, 129, 254, 255] {
                    t.case(
                        || format!("brightness(bias={}) on {}x1x{} alpha={}", b, n, c, alpha),
                        |t| {
                            let img = Image::from_slice(n as u32, 1, c as u8, alpha, &d);
                            t.seen(hash_bytes(b as u64, &[c as u8, alpha as u8, n as u8, 9]), &[]);
                            let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                            img_eq_u8(&r, n, 1, c, alpha, &want(&d, c, alpha, b))
                        },
                    );
                }
            }
        }
    });

    // every sample value in every channel of single pixels (no full vector), and behind one full vector
    let lv = layouts.clone();
    e.par("tail values", "all 511 biases x all 256 sample values x 13 layouts, in single pixels and in the tail behind 32 bytes", 511 * lv.len(), |t, i| {
        let b = (i % 511) as i16 - 255;
        let (c, alpha) = lv[i / 511];
        let behind = (32 + c - 1) / c + 1;
        for v in 0..256usize {
            for n in [1, behind] {
                t.case(
                    || format!("brightness(bias={}) on {}x1x{} alpha={}, samples {}", b, n, c, alpha, v),
                    |t| {
                        let d = vec![v as u8; n * c];
                        let img = Image::from_slice(n as u32, 1, c as u8, alpha, &d);
                        let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                        img_eq_u8(&r, n, 1, c, alpha, &want(&d, c, alpha, b))
                    },
                );
            }
        }
        t.seen(hash_bytes(b as u64, &[c as u8, alpha as u8, 77]), &[]);
    });

    // large images (beyond any plausible chunking threshold)
    let big: Vec<(usize, usize)> = e.b(vec![(257, 255), (1031, 67), (3, 4099), (1101, 1003)], vec![(257, 255), (1031, 67), (3, 4099), (1101, 1003), (2049, 1025), (70001, 1), (1, 70001)]);
    e.par("large", "large images (up to 1.1 million pixels and 9 million samples), all layouts, 13 biases", big.len() * layouts.len(), |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = layouts[i / big.len()];
        if w * h * c > 9_000_000 {
            return;
        }
        let d: Vec<u8> = (0..w * h * c).map(|i| mix_u8(i, 7)).collect();
        let img = Image::from_slice(w as u32, h as u32, c as u8, alpha, &d);
        for b in [-255i16, -200, -129, -128, -77, -1, 0, 1, 77, 128, 129, 200, 255] {
            t.case(
                || format!("brightness(bias={}) on {}x{}x{} alpha={}", b, w, h, c, alpha),
                |t| {
                    t.seen(b as u64, &d);
                    let r = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error for a valid bias: {:?}", e))?;
                    img_eq_u8(&r, w, h, c, alpha, &want(&d, c, alpha, b))
                },
            );
        }
    });

    // rejection: every other i16
    e.par("reject", "all 65536 bias values", 256, |t, i| {
        let img = Image::from_slice(3, 2, 3, false, &[9u8; 18]);
        for k in 0..256usize {
            let b = (i * 256 + k) as u16 as i16;
            t.case(
                || format!("brightness(bias={})", b),
                |t| {
                    let r = t.imp(|| tone::brightness(&img, b))?;
                    t.seen(b as u64, &[3]);
                    let ok = (-255..=255).contains(&b);
                    if r.is_ok() != ok {
                        return Err(format!("returned {} but the bias is {}", if r.is_ok() { "Ok" } else { "Err" }, if ok { "valid" } else { "invalid" }));
                    }
                    Ok(())
                },
            );
        }
    });

    if e.thorough() {
        e.par("beyond u32", "images of more than 2^32 samples (4 channels with alpha, 3 without) x biases 37, -255", 1, |t, _| {
            if Vec::<u8>::new().try_reserve_exact(13_500_000_000).is_err() {
                t.eng.note("beyond u32", "skipped: no memory for it here".to_string());
                return;
            }
            for (w, h, c, alpha) in [(32768u32, 32769u32, 4u8, true), (37838, 37839, 3, false)] {
                for b in [37i16, -255] {
                    t.case(
                        || format!("brightness of {}x{}x{} alpha={} by {}", w, h, c, alpha, b),
                        |t| {
                            t.seen(hash_bytes(w as u64, &b.to_le_bytes()), &[c]);
                            let n = w as usize * h as usize * c as usize;
                            let mut d: Vec<u8> = Vec::with_capacity(n);
                            for i in 0..n {
                                d.push((i % 251) as u8);
                                if i & 0xFFFFFFF == 0 { t.beat(); }
                            }
                            let img = Image::from_vec(w, h, c, alpha, d);
                            let o = t.imp(|| tone::brightness(&img, b))?.map_err(|e| format!("error {:?}", e))?;
                            t.beat();
                            if o.info() != img.info() || o.data().len() != n {
                                return Err(format!("output is {:?} with {} samples", o.info(), o.data().len()));
                            }
                            for (i, (&g, &v)) in o.data().iter().zip(img.data()).enumerate() {
                                let want = if alpha && i % c as usize == c as usize - 1 { v } else { (v as i16 + b).clamp(0, 255) as u8 };
                                if g != want {
                                    return Err(format!("sample {} is {} but should be {}", i, g, want));
                                }
                                if i & 0xFFFFFFF == 0 { t.beat(); }
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
    }
    e.finish();
}
