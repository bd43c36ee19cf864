//! C13: crop, translate, overlay and superimpose place pixels exactly.

use imgproc_rs::transform;
use vh::*;

fn crop_model(m: &M, x: usize, y: usize, w: usize, h: usize) -> M {
    M::gen(w, h, m.c, m.alpha, |i, j, k| m.at(x + i, y + j, k))
}
fn translate_model(m: &M, x: u32, y: u32) -> M {
    let (x, y) = (x as usize, y as usize);
    M::gen(m.w, m.h, m.c, m.alpha, |i, j, k| if i >= x && j >= y { m.at(i - x, j - y, k) } else { 0.0 })
}
fn overlay_model(b: &M, f: &M, x: u32, y: u32, wt: Option<f64>) -> M {
    let (x, y) = (x as usize, y as usize);
    M::gen(b.w, b.h, b.c, b.alpha, |i, j, k| {
        if i >= x && j >= y && i - x < f.w && j - y < f.h {
            let (p, q) = (b.at(i, j, k), f.at(i - x, j - y, k));
            match wt {
                None => q,
                Some(t) => t * p + (1.0 - t) * q,
            }
        } else {
            b.at(i, j, k)
        }
    })
}

fn crop_case(t: &mut T, m: &M, x: u32, y: u32, w: u32, h: u32) {
    t.case(
        || format!("crop(x={}, y={}, width={}, height={}) of {}x{}x{} alpha={}", x, y, w, h, m.w, m.h, m.c, m.alpha),
        |t| {
            let inside = x as u64 + w as u64 <= m.w as u64 && y as u64 + h as u64 <= m.h as u64;
            let a = m.u8();
            let b = m.f32();
            let ra = t.imp(|| transform::crop(&a, x, y, w, h))?;
            let rb = t.imp(|| transform::crop(&b, x, y, w, h))?;
            t.seen(hash_bytes((x as u64) << 32 | y as u64, &[m.w as u8, m.h as u8, m.c as u8, w as u8, h as u8]), &[inside as u8]);
            if ra.is_ok() != inside || rb.is_ok() != inside {
                return Err(format!("returned Ok={}/{} but the rectangle is {} the image", ra.is_ok(), rb.is_ok(), if inside { "inside" } else { "outside" }));
            }
            if inside {
                let want = crop_model(m, x as usize, y as usize, w as usize, h as usize);
                exact(&M::of(&ra.unwrap())?, &want)?;
                exact(&M::of(&rb.unwrap())?, &want).map_err(|e| format!("f32: {}", e))?;
            }
            if M::of(&a)? != *m || M::of(&b)? != *m {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}

fn translate_case(t: &mut T, m: &M, x: u32, y: u32) {
    t.case(
        || format!("translate(x={}, y={}) of {}x{}x{} alpha={}", x, y, m.w, m.h, m.c, m.alpha),
        |t| {
            let (a, b) = (m.u8(), m.f32());
            let want = translate_model(m, x, y);
            let ra = t.imp(|| transform::translate(&a, x, y))?.map_err(|e| format!("error {:?}", e))?;
            let rb = t.imp(|| transform::translate(&b, x, y))?.map_err(|e| format!("error {:?}", e))?;
            t.seen(hash_bytes((x as u64) << 32 | y as u64, &[m.w as u8, m.h as u8, m.c as u8]), &[0]);
            exact(&M::of(&ra)?, &want)?;
            exact(&M::of(&rb)?, &want).map_err(|e| format!("f32: {}", e))?;
            if M::of(&a)? != *m || M::of(&b)? != *m {
                return Err("the input image was modified".into());
            }
            Ok(())
        },
    );
}

fn overlay_case(t: &mut T, b: &M, f: &M, x: u32, y: u32, ws: &[f32]) {
    t.case(
        || format!("overlay/superimpose {}x{} on {}x{} ({} channels, alpha={}/{}) at ({}, {})", f.w, f.h, b.w, b.h, b.c, b.alpha, f.alpha, x, y),
        |t| {
            let (bu, fu, bf, ff) = (b.u8(), f.u8(), b.f32(), f.f32());
            t.seen(hash_bytes((x as u64) << 32 | y as u64, &[b.w as u8, b.h as u8, b.c as u8, f.w as u8, f.h as u8]), &[0]);
            let want = overlay_model(b, f, x, y, None);
            let r = t.imp(|| transform::overlay(&bu, &fu, x, y))?.map_err(|e| format!("overlay: error {:?}", e))?;
            exact(&M::of(&r)?, &want).map_err(|e| format!("overlay: {}", e))?;
            let r = t.imp(|| transform::overlay(&bf, &ff, x, y))?.map_err(|e| format!("overlay f32: error {:?}", e))?;
            exact(&M::of(&r)?, &want).map_err(|e| format!("overlay f32: {}", e))?;
            for &wt in ws {
                let want = overlay_model(b, f, x, y, Some(wt as f64));
                let r = t.imp(|| transform::superimpose(&bf, &ff, x, y, wt))?.map_err(|e| format!("superimpose weight {}: error {:?}", wt, e))?;
                img_close(&r, &want, 1e-3, 0.0).map_err(|e| format!("superimpose weight {}: {}", wt, e))?;
                t.seen_f32(wt.to_bits() as u64, r.data());
            }
            if M::of(&bu)? != *b || M::of(&bf)? != *b || M::of(&fu)? != *f || M::of(&ff)? != *f {
                return Err("an input image was modified".into());
            }
            Ok(())
        },
    );
}

const FAR: [u32; 6] = [1000, 65535, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];

fn main() {
    let e = Engine::new("C13");
    let smax = e.b(5usize, 8);
    let sh = shapes(smax, smax);
    e.par("crop", &format!("all shapes up to {}x{} x all rectangles with x, y, width, height in 0..=size+2 x 7 layouts", smax, smax), sh.len() * LAYOUTS.len(), |t, i| {
        let (w, h) = sh[i % sh.len()];
        let (c, alpha) = LAYOUTS[i / sh.len()];
        let m = label_img(w, h, c, alpha, 1);
        for x in 0..=(w as u32 + 2) {
            for cw in 1..=(w as u32 + 2) {
                for y in 0..=(h as u32 + 2) {
                    for ch in 1..=(h as u32 + 2) {
                        crop_case(t, &m, x, y, cw, ch);
                    }
                }
            }
        }
    });
    e.par("crop far", "positions and extents at the u32 bounds x small shapes x 7 layouts", LAYOUTS.len(), |t, i| {
        let (c, alpha) = LAYOUTS[i];
        for &(w, h) in &[(1usize, 1usize), (3, 2), (2, 5)] {
            let m = label_img(w, h, c, alpha, 2);
            let mut v: Vec<u32> = vec![0, 1, 2];
            v.extend(FAR);
            for &x in &v {
                for &y in &v {
                    for &cw in &v[1..] {
                        for &ch in &v[1..] {
                            crop_case(t, &m, x, y, cw, ch);
                        }
                    }
                }
            }
        }
    });
    let big = [(64usize, 64usize), (257, 255), (1031, 17), (3, 4099), (70000, 1), (1, 70000), (1101, 1003)];
    e.par("crop large", "large images: rectangles touching every combination of edges x 7 layouts", big.len() * LAYOUTS.len(), |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = LAYOUTS[i / big.len()];
        let m = mix_img(w, h, c, alpha, 3);
        for (x, cw) in [(0, w), (0, w.div_ceil(2)), (w / 2, w - w / 2), (w / 3, (w / 3).max(1)), (w - 1, 1), (1, w)] {
            for (y, ch) in [(0, h), (0, h.div_ceil(2)), (h / 2, h - h / 2), (h / 3, (h / 3).max(1)), (h - 1, 1), (1, h)] {
                crop_case(t, &m, x as u32, y as u32, cw as u32, ch as u32);
            }
        }
    });

    let tmax = e.b(7usize, 10);
    let sh = shapes(tmax, tmax);
    e.par("translate", &format!("all shapes up to {}x{} x all offsets 0..=size+1 and far offsets x 7 layouts", tmax, tmax), sh.len() * LAYOUTS.len(), |t, i| {
        let (w, h) = sh[i % sh.len()];
        let (c, alpha) = LAYOUTS[i / sh.len()];
        let m = seq_img(w, h, c, alpha).map(|v| ((v as u32 * 7) % 255 + 1) as f64);
        let xs: Vec<u32> = (0..=w as u32 + 1).chain(FAR).collect();
        let ys: Vec<u32> = (0..=h as u32 + 1).chain(FAR).collect();
        for &x in &xs {
            for &y in &ys {
                translate_case(t, &m, x, y);
            }
        }
    });
    e.par("translate large", "large images x offsets x 7 layouts", big.len() * LAYOUTS.len(), |t, i| {
        let (w, h) = big[i % big.len()];
        let (c, alpha) = LAYOUTS[i / big.len()];
        let m = mix_img(w, h, c, alpha, 4).map(|v| v.max(1.0));
        for x in [0, 1, w / 2, w - 1, w] {
            for y in [0, 1, h / 2, h - 1, h] {
                translate_case(t, &m, x as u32, y as u32);
            }
        }
    });

    let omax = e.b(4usize, 5);
    let sh = shapes(omax, omax);
    let ws = [0.0f32, 0.25, 0.3, 1.0];
    e.par("overlay", &format!("all back and front shapes up to {}x{} x all positions 0..=size+1 x 4 weights x 7 layouts", omax, omax), sh.len() * sh.len() * LAYOUTS.len(), |t, i| {
        let (bw, bh) = sh[i % sh.len()];
        let (fw, fh) = sh[i / sh.len() % sh.len()];
        let (c, alpha) = LAYOUTS[i / sh.len() / sh.len()];
        let b = label_img(bw, bh, c, alpha, 5);
        let f = label_img(fw, fh, c, alpha, 90);
        for x in 0..=bw as u32 + 1 {
            for y in 0..=bh as u32 + 1 {
                overlay_case(t, &b, &f, x, y, &ws);
            }
        }
    });
    e.par("overlay far", "positions at the u32 bounds x 7 layouts; fronts larger than the back image", LAYOUTS.len(), |t, i| {
        let (c, alpha) = LAYOUTS[i];
        let mut v: Vec<u32> = vec![0, 1, 2, 3];
        v.extend(FAR);
        for &(bw, bh) in &[(1usize, 1usize), (3, 2), (2, 5)] {
            for &(fw, fh) in &[(1usize, 1usize), (2, 2), (9, 7), (1, 300), (300, 1)] {
                let b = label_img(bw, bh, c, alpha, 6);
                let f = label_img(fw, fh, c, alpha, 91);
                for &x in &v {
                    for &y in &v {
                        overlay_case(t, &b, &f, x, y, &ws);
                    }
                }
            }
        }
    });
    e.par("overlay large", "large back and front images x positions x 7 layouts", big.len() * big.len() * LAYOUTS.len(), |t, i| {
        let (bw, bh) = big[i % big.len()];
        let (fw, fh) = big[i / big.len() % big.len()];
        let (c, alpha) = LAYOUTS[i / big.len() / big.len()];
        if bw * bh * c > 150_000 && !t.eng.thorough() {
            return;
        }
        let b = mix_img(bw, bh, c, alpha, 7);
        let f = mix_img(fw, fh, c, alpha, 8);
        for (x, y) in [(0, 0), (1, 0), (0, 1), (bw / 2, bh / 2), (bw - 1, bh - 1), (bw, 0), (0, bh)] {
            overlay_case(t, &b, &f, x as u32, y as u32, &[0.3, 0.5, 0.0, 1.0, 0.75]);
        }
    });
    e.par("overlay vast", "a 1101x1003 back image, fronts of 3 sizes x positions x 4 layouts", 12, |t, i| {
        let (fw, fh) = [(1101usize, 1003usize), (17, 9), (1500, 700)][i / 4];
        let (c, alpha) = LAYOUTS4[i % 4];
        let b = mix_img(1101, 1003, c, alpha, 7);
        let f = mix_img(fw, fh, c, alpha, 8);
        for (x, y) in [(0u32, 0u32), (1, 1), (550, 500), (1100, 1002)] {
            overlay_case(t, &b, &f, x, y, &[0.3, 1.0]);
        }
    });
    // weights
    let steps = e.b(200usize, 2000);
    let mut ws: Vec<f32> = (0..=steps).map(|i| i as f32 / steps as f32).collect();
    for k in 1..=24 {
        let d = 0.5f32.powi(k);
        ws.extend([d, 1.0 - d, 0.5 + d / 2.0, 0.5 - d / 2.0]);
    }
    ws.extend([1e-5, 1e-7, 1e-10, 1e-20, f32::MIN_POSITIVE, 0.99999, 0.9999, 0.999, 0.001, 0.0001]);
    e.par("weights", &format!("{} weights in [0, 1] (a grid, and down to 2^-24 from 0, 1/2 and 1), all pairs from 8 values per sample, among them values far beyond 8 bits", ws.len()), ws.len(), |t, i| {
        let wt = ws[i];
        let vals = [0.0f64, 1.0, 127.5, 255.0, -3.25, 1000.0, 1048576.0, -16000000.0];
        let b = M::gen(8, 8, 1, false, |x, _, _| vals[x]);
        let f = M::gen(8, 8, 1, false, |_, y, _| vals[y]);
        t.case(
            || format!("superimpose all value pairs with weight {}", wt),
            |t| {
                let want = overlay_model(&b, &f, 0, 0, Some(wt as f64));
                let r = t.imp(|| transform::superimpose(&b.f32(), &f.f32(), 0, 0, wt))?.map_err(|e| format!("error {:?}", e))?;
                t.seen_f32(i as u64, r.data());
                // relative to the two samples, so that a small weight on a large value shows
                let got = M::of(&r)?;
                same_dims(&got, &want)?;
                for p in 0..64 {
                    let tol = 4e-7 * (b.d[p].abs() + f.d[p].abs()) + 1e-30;
                    if !((got.d[p] - want.d[p]).abs() <= tol) {
                        return Err(format!("weight {} of {} and {}: {}, expected {}", wt, b.d[p], f.d[p], got.d[p], want.d[p]));
                    }
                }
                Ok(())
            },
        );
    });
    e.par("reject", "channel counts 1..=6 pairwise; weights outside [0, 1]", 36, |t, i| {
        let (c1, c2) = (i % 6 + 1, i / 6 + 1);
        let b = label_img(3, 3, c1, false, 1);
        let f = label_img(2, 2, c2, false, 2);
        for (x, y) in [(0u32, 0u32), (1, 1), (7, 7)] {
            t.case(
                || format!("overlay/superimpose of {} channels on {} at ({}, {})", c2, c1, x, y),
                |t| {
                    let ok = c1 == c2;
                    t.seen(x as u64, &[c1 as u8, c2 as u8]);
                    let r = t.imp(|| transform::overlay(&b.u8(), &f.u8(), x, y))?;
                    if r.is_ok() != ok {
                        return Err(format!("overlay returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                    }
                    for wt in [0.0f32, 0.5, 1.0] {
                        let r = t.imp(|| transform::superimpose(&b.f32(), &f.f32(), x, y, wt))?;
                        if r.is_ok() != ok {
                            return Err(format!("superimpose returned {}", if r.is_ok() { "Ok" } else { "Err" }));
                        }
                    }
                    for wt in [-f32::MIN_POSITIVE, -1e-6, -0.5, -1.0, -1e30, f32::NEG_INFINITY, 1.0 + f32::EPSILON, 1.001, 2.0, 255.0, 1e30, f32::INFINITY] {
                        let r = t.imp(|| transform::superimpose(&b.f32(), &f.f32(), x, y, wt))?;
                        if r.is_ok() {
                            return Err(format!("superimpose accepted weight {}", wt));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    e.finish();
}
