//! C05: SIMD-backed safe operations never touch memory outside the image buffers.
//! Every heap block is placed directly against an inaccessible page; fresh memory is filled with a
//! marker, and each operation runs once per marker so that output bytes that were never written show.
use imgproc_rs::colorspace::*;
use imgproc_rs::image::{BaseImage, Image, SubImage};
use imgproc_rs::tone;
use vh::guard::{guarded, set_fill, Mode};
use vh::*;

#[global_allocator]
static A: vh::guard::Guard = vh::guard::Guard;

#[derive(Clone, Copy, Debug)]
enum Op {
    Brightness(i16),
    Saturation(i16),
    Gray,
    #[allow(dead_code)]
    Avg,
}

fn apply(op: Op, img: &Image<u8>) -> Option<Image<u8>> {
    match op {
        Op::Brightness(b) => tone::brightness(img, b).ok(),
        Op::Saturation(s) => tone::saturation(img, s).ok(),
        Op::Gray => Some(rgb_to_grayscale(img)),
        #[cfg(feature = "simd")]
        Op::Avg => Some(imgproc_rs::simd::avg_checked_256_u8(img)),
        #[cfg(not(feature = "simd"))]
        Op::Avg => Some(rgb_to_grayscale(img)),
    }
}

/// what the specification says about the result, where it says it exactly
fn model(op: Op, w: usize, h: usize, c: usize, alpha: bool, d: &[u8], out: &Image<u8>) -> Result<(), String> {
    match op {
        Op::Brightness(b) => {
            let want: Vec<u8> = d
                .iter()
                .enumerate()
                .map(|(i, &v)| if alpha && i % c == c - 1 { v } else { (v as i16 + b).clamp(0, 255) as u8 })
                .collect();
            img_eq_u8(out, w, h, c, alpha, &want)
        }
        Op::Gray | Op::Avg => {
            let nc = c - alpha as usize;
            let oc = 1 + alpha as usize;
            let o = out.data();
            if out.info().whca() != (w as u32, h as u32, oc as u8, alpha) || o.len() != w * h * oc {
                return Err(format!("the result is {:?} with {} samples", out.info(), o.len()));
            }
            for p in 0..w * h {
                let s: u32 = d[p * c..p * c + nc].iter().map(|&v| v as u32).sum();
                let g = o[p * oc] as f64;
                if (g - s as f64 / nc as f64).abs() >= 1.0 {
                    return Err(format!("gray sample of pixel {} is {}, the mean is {}", p, g, s as f64 / nc as f64));
                }
                if alpha && o[p * oc + 1] != d[p * c + c - 1] {
                    return Err(format!("alpha of pixel {} changed", p));
                }
            }
            Ok(())
        }
        Op::Saturation(_) => {
            if c - alpha as usize != 3 {
                return Ok(()); // only defined for RGB
            }
            if out.info().whca() != (w as u32, h as u32, c as u8, alpha) || out.data().len() != w * h * c {
                return Err(format!("the result is {:?} with {} samples", out.info(), out.data().len()));
            }
            Ok(())
        }
    }
}

type Case = ((usize, usize), (usize, bool));

fn buffers(e: &Engine, name: &str, text: &str, list: &[Case], ops: &[Op]) {
    e.par(name, text, list.len(), |t, i| {
        let ((w, h), (c, alpha)) = list[i];
        let full = w * h * c;
        let mut lens = vec![full];
        for l in [full.saturating_sub(1), full.saturating_sub(c), full.saturating_sub(32), full.saturating_sub(33), full / 2, 0, full + 1, full + c] {
            if !lens.contains(&l) {
                lens.push(l);
            }
        }
        for &op in ops {
            if matches!(op, Op::Saturation(_)) && (c - (alpha as usize) < 3 || full > 40_000 && c - alpha as usize != 3) {
                continue;
            }
            for (li, &len) in lens.iter().enumerate() {
                if li > 0 && matches!(op, Op::Brightness(0 | 255)) {
                    continue;
                }
                for mode in [Mode::After, Mode::Before] {
                    t.case(
                        || format!("{:?} on {}x{}x{} alpha={} buffer of {} bytes, guard {:?}", op, w, h, c, alpha, len, mode),
                        |t| {
                            t.announce(&format!("{:?} on {}x{}x{} alpha={} buffer of {} bytes, guard {:?}", op, w, h, c, alpha, len, mode));
                            t.seen(hash_bytes(31, format!("{:?}", op).as_bytes()), &[w as u8, (w >> 8) as u8, h as u8, c as u8, alpha as u8, len as u8, (len >> 8) as u8, mode as u8]);
                            let mut outs: Vec<Option<Image<u8>>> = Vec::new();
                            for fill in [0x5Au8, 0xA5] {
                                set_fill(fill);
                                let r = guarded(mode, || {
                                    let mut v: Vec<u8> = Vec::with_capacity(len);
                                    for j in 0..len {
                                        v.push(label_u8(j, 5));
                                    }
                                    let img = Image::from_vec(w as u32, h as u32, c as u8, alpha, v);
                                    let r = t.try_imp(|| apply(op, &img));
                                    for j in 0..len {
                                        if img.data()[j] != label_u8(j, 5) {
                                            return Err(format!("the input changed at byte {}", j));
                                        }
                                    }
                                    Ok(r)
                                });
                                match r? {
                                    Ok(o) => outs.push(o),
                                    Err(m) => {
                                        if len >= full {
                                            return Err(format!("panicked: {}", m));
                                        }
                                        outs.push(None) // short buffer refused
                                    }
                                }
                            }
                            match (&outs[0], &outs[1]) {
                                (Some(a), Some(b)) => {
                                    if a.data() != b.data() {
                                        let p = a.data().iter().zip(b.data()).position(|(x, y)| x != y);
                                        return Err(format!("the output depends on uninitialised memory at byte {:?}", p));
                                    }
                                    if len >= full && full > 0 {
                                        let d: Vec<u8> = (0..full).map(|j| label_u8(j, 5)).collect();
                                        model(op, w, h, c, alpha, &d, a)?;
                                    }
                                    Ok(())
                                }
                                (None, None) => Ok(()),
                                _ => Err("accepted or refused depending on uninitialised memory".into()),
                            }
                        },
                    );
                }
            }
        }
    });
}

/// every accessor with coordinates inside and outside the image: it panics or stays within the buffer
fn accessors(e: &Engine) {
    const U: u32 = u32::MAX;
    let mut list = Vec::new();
    for (w, h) in [(1u32, 1u32), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (5, 4), (0, 2), (2, 0), (17, 3), (1, 40)] {
        for (c, al) in [(1u8, false), (2, true), (3, false), (4, true), (5, false)] {
            list.push((w, h, c, al));
        }
    }
    e.par("accessors", "every accessor of Image and SubImage x coordinates inside, around and far outside x exact, short and long buffers: a returned slice lies inside the buffer, a write changes nothing outside it", list.len(), |t, i| {
        let (w, h, c, alpha) = list[i];
        let full = (w * h) as usize * c as usize;
        let mut lens = vec![full];
        for l in [full.saturating_sub(1), full.saturating_sub(c as usize), full / 2, 0, full + 1, full + 40] {
            if !lens.contains(&l) {
                lens.push(l);
            }
        }
        let xs: Vec<u32> = (0..w + 3).chain([2 * w + 1, 200, 4096, 1 << 16, 1 << 20, 1 << 30, U / 2, U / 2 + 1, U - w, U - 1, U]).collect();
        let ys: Vec<u32> = (0..h + 3).chain([2 * h + 1, 200, 4096, 1 << 16, 1 << 20, 1 << 30, U / 2, U / 2 + 1, U - h, U - 1, U]).collect();
        for &len in &lens {
            for mode in [Mode::After, Mode::Before] {
                for acc in 0..13 {
                    for &y in &ys {
                        for &x in &xs {
                            let near = x < w + 3 && y < h + 3;
                            if acc >= 8 && !near {
                                continue;
                            }
                            let d = || format!("accessor {} at ({}, {}) of {}x{}x{} alpha={} with a buffer of {} bytes, guard {:?}", acc, x, y, w, h, c, alpha, len, mode);
                            t.case(d, |t| {
                                if near {
                                    t.announce(&d());
                                }
                                t.seen(acc, &[w as u8, h as u8, c, len as u8, x.min(255) as u8, y.min(255) as u8]);
                                set_fill(0x5A);
                                guarded(mode, || {
                                    let mut v: Vec<u8> = Vec::with_capacity(len);
                                    v.extend((0..len).map(|j| label_u8(j, 5)));
                                    let mut img = Image::from_vec(w, h, c, alpha, v);
                                    let lo = img.data().as_ptr() as usize;
                                    let inside = |s: &[u8]| -> Result<(), String> {
                                        let p = s.as_ptr() as usize;
                                        if !s.is_empty() && (p < lo || p + s.len() > lo + len) {
                                            return Err(format!("it returned {} bytes at offset {} of a buffer of {} bytes", s.len(), p as i64 - lo as i64, len));
                                        }
                                        Ok(())
                                    };
                                    let k = (y as usize).wrapping_mul(w as usize).wrapping_add(x as usize);
                                    let px = vec![1u8; c as usize];
                                    let r = match acc {
                                        0 => t.try_imp(|| inside(img.get_pixel(x, y))),
                                        1 => t.try_imp(|| inside(img.get_pixel_unchecked(x, y))),
                                        2 => t.try_imp(|| inside(img.get_pixel_mut(x, y))),
                                        3 => t.try_imp(|| inside(img.get_pixel_mut_unchecked(x, y))),
                                        4 => t.try_imp(|| inside(&img[k])),
                                        5 => t.try_imp(|| inside(&mut img[k])),
                                        6 => t.try_imp(|| { img.set_pixel(x, y, &px); Ok(()) }),
                                        7 => t.try_imp(|| { img.set_pixel_indexed(k, &px); Ok(()) }),
                                        8 => t.try_imp(|| {
                                            let s = img.get_subimage(x, y, 2, 2);
                                            for q in 0..5 {
                                                if q < s.data().len() {
                                                    inside(s.data()[q])?;
                                                }
                                            }
                                            inside(s.get_pixel(x, y))
                                        }),
                                        9 => t.try_imp(|| {
                                            for vert in [false, true] {
                                                for p in img.get_neighborhood_1d(x, y, 3 + 2 * (x % 2), vert).data() {
                                                    inside(p)?;
                                                }
                                            }
                                            Ok(())
                                        }),
                                        10 => t.try_imp(|| {
                                            let s = img.get_neighborhood_2d(x, y, 3);
                                            for p in s.data() {
                                                inside(p)?;
                                            }
                                            inside(&s[(x + y) as usize])
                                        }),
                                        11 => t.try_imp(|| {
                                            let mut n = 0;
                                            for p in img.into_iter() {
                                                inside(p.2)?;
                                                n += 1;
                                                if n > 1000 {
                                                    break;
                                                }
                                            }
                                            Ok(())
                                        }),
                                        _ => t.try_imp(|| {
                                            match (x + 3 * y) % 7 {
                                                0 => img.apply_channels(|v| v ^ 1),
                                                1 => img.apply_channels_if_alpha(|v| v ^ 1, |a| a),
                                                2 => img.apply_pixels(|p, o| o.extend_from_slice(p)),
                                                3 => img.edit_channel(|v| v ^ 1, x as usize + y as usize),
                                                4 => return Ok(drop(img.map_channels(|v| v))),
                                                5 => return Ok(drop(img.map_channels_if_alpha(|v| v, |a| a))),
                                                _ => return Ok(drop(img.map_pixels_if_alpha(|p, o: &mut Vec<u8>| o.extend_from_slice(p), |a| a))),
                                            }
                                            Ok(())
                                        }),
                                    };
                                    match r {
                                        Ok(r) => r,
                                        Err(m) => {
                                            if len >= full && x < w && y < h && acc < 8 {
                                                return Err(format!("panicked: {}", m));
                                            }
                                            Ok(()) // refused
                                        }
                                    }
                                })
                            });
                        }
                    }
                }
            }
        }
    });
}

/// sub-images built from too few or too many pixel slices
fn subimages(e: &Engine) {
    let list: Vec<(u32, u32)> = (0..5).flat_map(|h| (0..5).map(move |w| (w, h))).chain([(40, 3), (3, 40)]).collect();
    e.par("sub-images", "SubImage::new of every size up to 4x4, 40x3 and 3x40 from every number of pixel slices up to two more than its size, 1 to 4 channels: every accessor at every position inside and up to 2 beyond shows the slice given for it or panics", list.len(), |t, i| {
        let (w, h) = list[i];
        let full = (w * h) as usize;
        for n in 0..=full + 2 {
            if full > 20 && n % 17 > 1 && n + 3 < full {
                continue;
            }
            for c in 1..=4usize {
                let d = || format!("SubImage::new({}, {}, {} channels) from {} slices", w, h, c, n);
                t.case(d, |t| {
                    t.announce(&d());
                    t.seen(90, &[w as u8, h as u8, c as u8, n as u8]);
                    set_fill(0x5A);
                    guarded(if n % 2 == 0 { Mode::After } else { Mode::Before }, || {
                        let px: Vec<u8> = (0..n.max(1) * c).map(|j| label_u8(j, 5)).collect();
                        let mut v: Vec<&[u8]> = Vec::with_capacity(n);
                        v.extend((0..n).map(|k| &px[k * c..(k + 1) * c]));
                        let s = match t.try_imp(|| SubImage::new(w, h, c as u8, false, v)) {
                            Ok(s) => s,
                            Err(_) if n != full => return Ok(()), // refused
                            Err(m) => return Err(format!("panicked: {}", m)),
                        };
                        let at = |k: usize, r: Result<Vec<u8>, String>| -> Result<(), String> {
                            match r {
                                Ok(p) if k < n && p == px[k * c..(k + 1) * c] => Ok(()),
                                Ok(p) => Err(format!("pixel {} reads as {:?}", k, p)),
                                Err(m) if k < n && k < full => Err(format!("pixel {}: panicked: {}", k, m)),
                                Err(_) => Ok(()),
                            }
                        };
                        for y in 0..h + 2 {
                            for x in 0..w + 2 {
                                let k = (y * w + x) as usize;
                                let r = t.try_imp(|| s.get_pixel(x, y).to_vec());
                                if x < w && y < h {
                                    at(k, r)?;
                                } else if r.is_ok() {
                                    return Err(format!("({}, {}) outside the sub-image was read", x, y));
                                }
                                let r = t.try_imp(|| s[k].to_vec());
                                at(k, r)?;
                            }
                        }
                        match t.try_imp(|| s.to_vec()) {
                            Ok(a) if n >= full && a == px[..full * c] => Ok(()),
                            Err(_) if n < full => Ok(()),
                            r => Err(format!("to_vec gives {:?}", r)),
                        }
                    })
                });
            }
        }
    });
}

/// every operation of the alphabet with guarded inputs: no fault, and nothing that depends on what fresh memory held
fn alphabet(e: &Engine) {
    let all: Vec<ops::Op> = ops::ops().into_iter().chain(ops::more_ops()).chain(ops::wide_ops()).collect();
    let mut sh = vec![(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (5, 3), (4, 4), (11, 1), (1, 11), (7, 5), (33, 1), (3, 11), (43, 3)];
    if e.thorough() {
        sh.extend([(64, 2), (17, 9), (1, 97), (130, 1), (9, 17)]);
    }
    let per = LAYOUTS.len();
    e.par("all operations", "every operation of the alphabet x shapes x layouts with every block against an inaccessible page x two marker fills: no fault, same outcome", sh.len() * per, |t, i| {
        let ((w, h), (c, al)) = (sh[i / per], LAYOUTS[i % per]);
        for op in &all {
            if op.cost == 2 && w * h > 16 && !e.thorough() || op.more && w * h > 6 && !e.thorough() {
                continue;
            }
            for mode in [Mode::After, Mode::Before] {
                let d = || format!("{} on {}x{}x{} alpha={}, guard {:?}", op.name, w, h, c, al, mode);
                let mut skip = false;
                t.case(d, |t| {
                    t.announce(&d());
                    let mut outs = Vec::new();
                    for fill in [0x5Au8, 0xA5] {
                        set_fill(fill);
                        let r = guarded(mode, || {
                            let a = ops::In::new(ops::input(w, h, c, al, 1));
                            if !op.fits(&a) {
                                skip = true;
                                return Ok(ops::Out::Rejected);
                            }
                            t.try_imp(|| (op.f)(&a))
                        });
                        outs.push(r.map(|o| o.fp()).map_err(|_| ()));
                        if skip {
                            return Ok(());
                        }
                    }
                    t.seen(hash_bytes(9, op.name.as_bytes()), &[w as u8, h as u8, c as u8, al as u8]);
                    if outs[0] != outs[1] {
                        return Err("the outcome depends on what fresh memory held before".into());
                    }
                    Ok(())
                });
            }
        }
    });
}

fn main() {
    vh::guard::init();
    let e = Engine::new("C05");
    let layouts: Vec<(usize, bool)> = vec![
        (1, false), (2, true), (3, false), (4, true), (2, false), (4, false), (3, true), (5, false), (5, true), (6, true), (7, false), (8, true),
        (16, false), (31, true), (32, true), (33, true), (33, false), (40, true), (64, true), (255, true), (255, false),
    ];
    let mut sizes: Vec<(usize, usize)> = (1..=e.b(140, 420)).map(|n| (n, 1)).collect();
    for (w, h) in [(1, 33), (1, 97), (2, 31), (3, 43), (5, 26), (7, 19), (9, 15), (11, 12), (13, 10), (17, 8), (16, 16), (31, 3), (32, 2), (32, 32), (33, 31), (64, 3), (65, 63), (1, 0), (0, 1), (0, 0), (257, 3), (1000, 1), (341, 4), (1024, 2), (4096, 1)] {
        sizes.push((w, h));
    }
    let mut list: Vec<Case> = Vec::new();
    for &l in &layouts {
        for &s in &sizes {
            if s.0 * s.1 * l.0 <= 40_000 && (l.0 <= 8 || s.0 * s.1 <= 140) {
                list.push((s, l));
            }
        }
    }
    for c in 9..=65 {
        for al in [false, true] {
            if !layouts.contains(&(c, al)) {
                list.extend((1..=e.b(23, 70)).map(|n| ((n, 1), (c, al))));
            }
        }
    }
    let ops = [Op::Brightness(77), Op::Brightness(-255), Op::Brightness(0), Op::Brightness(255), Op::Saturation(60), Op::Saturation(-60), Op::Gray, Op::Avg];
    subimages(&e);
    buffers(&e, "guard pages", "all image sizes x layouts x operations x guard page behind/before every block x two marker fills x exact, short and long buffers", &list, &ops);
    let mut list: Vec<Case> = Vec::new();
    for k in 0..e.b(36, 130) {
        for (c, al, n) in [(3, false, 20_000), (3, false, 21_840), (4, true, 16_380), (4, true, 65_530), (1, false, 65_530), (2, true, 40_000), (31, true, 2_100), (5, false, 13_100)] {
            list.push(((n + k, 1), (c, al)));
        }
    }
    buffers(&e, "guard pages, large", "images around 60000..262000 bytes of every length modulo the vector width, as above", &list, &[Op::Brightness(77), Op::Saturation(-60), Op::Gray]);
    accessors(&e);
    alphabet(&e);
    e.note("guarded heap blocks", vh::guard::GUARDED_BLOCKS.load(std::sync::atomic::Ordering::Relaxed));
    e.note("unguarded heap blocks in guarded sections", vh::guard::UNGUARDED_BLOCKS.load(std::sync::atomic::Ordering::Relaxed));
    e.finish();
}
