//! C01: an image is a W x H x C array under any access history.
use imgproc_rs::image::{BaseImage, Image, ImageInfo, Number};
use vh::*;

trait Samp: Number + Into<f64> + std::fmt::Debug + 'static {
    fn of(v: usize) -> Self;
}
impl Samp for u8 {
    fn of(v: usize) -> u8 {
        (v % 256) as u8
    }
}
impl Samp for u16 {
    fn of(v: usize) -> u16 {
        (v % 65536) as u16
    }
}
impl Samp for u32 {
    fn of(v: usize) -> u32 {
        v as u32
    }
}
impl Samp for f32 {
    fn of(v: usize) -> f32 {
        v as f32
    }
}

/// everything that can be read from the image, through every accessor, against the model array
fn observe<S: Samp>(img: &mut Image<S>, w: usize, h: usize, c: usize, alpha: bool, d: &[S]) -> Result<(), String> {
    let i = img.info();
    if i.wh() != (w as u32, h as u32) || i.whc() != (w as u32, h as u32, c as u8) || i.whca() != (w as u32, h as u32, c as u8, alpha) {
        return Err(format!("reported dimensions changed: {:?}", i));
    }
    if i.size() as usize != w * h || i.full_size() as usize != w * h * c || i.channels_non_alpha() as usize != c - alpha as usize {
        return Err("reported sizes are wrong".into());
    }
    if img.data() != d {
        let p = (0..d.len()).find(|&p| img.data().get(p) != Some(&d[p]));
        return Err(format!("data() differs at sample {:?}: {:?}, model {:?}", p, p.map(|p| img.data().get(p).copied()), p.map(|p| d[p])));
    }
    if img.data_mut() != d {
        return Err("data_mut() differs from the model".into());
    }
    for y in 0..h {
        for x in 0..w {
            let k = y * w + x;
            let px = &d[k * c..(k + 1) * c];
            if img.index(x as u32, y as u32) != k * c {
                return Err(format!("index({}, {}) = {}", x, y, img.index(x as u32, y as u32)));
            }
            if img.get_pixel(x as u32, y as u32) != px
                || img.get_pixel_unchecked(x as u32, y as u32) != px
                || &img[k] != px
                || img.get_pixel_mut(x as u32, y as u32) != px
                || img.get_pixel_mut_unchecked(x as u32, y as u32) != px
                || &mut img[k] != px
            {
                return Err(format!("an accessor shows a wrong pixel at ({}, {})", x, y));
            }
        }
    }
    let cl = img.clone();
    if cl != *img || cl.data() != d {
        return Err("a clone differs".into());
    }
    Ok(())
}

fn build<S: Samp>(ctor: usize, w: usize, h: usize, c: usize, alpha: bool, d: &[S]) -> Image<S> {
    let (wi, hi, ci) = (w as u32, h as u32, c as u8);
    match ctor {
        0 => Image::from_slice(wi, hi, ci, alpha, d),
        1 => Image::from_vec(wi, hi, ci, alpha, d.to_vec()),
        2 => Image::from_vec_of_vec(wi, hi, ci, alpha, d.chunks(c).map(|p| p.to_vec()).collect()),
        3 => Image::from_vec_of_slice(wi, hi, ci, alpha, d.chunks(c).collect()),
        // vectors need not be pixels: rows, and everything in one
        4 => Image::from_vec_of_vec(wi, hi, ci, alpha, d.chunks(c * w).map(|p| p.to_vec()).collect()),
        5 => Image::from_vec_of_slice(wi, hi, ci, alpha, vec![d]),
        6 => {
            let mut i = Image::blank(ImageInfo::new(wi, hi, ci, alpha));
            for (k, p) in d.chunks(c).enumerate() {
                i.set_pixel((k % w) as u32, (k / w) as u32, p);
            }
            i
        }
        _ => {
            let mut i = Image::blank(ImageInfo::new(wi, hi, ci, alpha));
            i.data_mut().copy_from_slice(d);
            i
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, usize, usize),       // x, y, pixel code
    SetIdx(usize, usize),           // index, pixel code
    Mut(usize, usize, usize),       // x, y, pixel code via get_pixel_mut
    MutUnchecked(usize, usize, usize),
    Index(usize, usize, usize),     // index, channel, value
    Data(usize, usize),             // sample, value
    Edit(usize, usize),             // channel, added value
    Apply(usize),
    BadSet(usize, usize),           // out of bounds
    BadLen(usize),                  // wrong pixel length
    BadIdx,
    Clone,
}

fn pixel<S: Samp>(code: usize, c: usize) -> Vec<S> {
    (0..c).map(|k| S::of((code >> (2 * k)) & 3)).collect()
}

/// applies an operation to both; returns the expectation about panics
fn step<S: Samp>(t: &mut T, img: &mut Image<S>, d: &mut [S], w: usize, h: usize, c: usize, op: Op) -> Result<(), String> {
    let r = match op {
        Op::Set(x, y, p) => {
            let px = pixel::<S>(p, c);
            let r = t.try_imp(|| img.set_pixel(x as u32, y as u32, &px));
            d[(y * w + x) * c..(y * w + x + 1) * c].copy_from_slice(&px);
            r
        }
        Op::SetIdx(k, p) => {
            let px = pixel::<S>(p, c);
            let r = t.try_imp(|| img.set_pixel_indexed(k, &px));
            d[k * c..(k + 1) * c].copy_from_slice(&px);
            r
        }
        Op::Mut(x, y, p) => {
            let px = pixel::<S>(p, c);
            let r = t.try_imp(|| img.get_pixel_mut(x as u32, y as u32).copy_from_slice(&px));
            d[(y * w + x) * c..(y * w + x + 1) * c].copy_from_slice(&px);
            r
        }
        Op::MutUnchecked(x, y, p) => {
            let px = pixel::<S>(p, c);
            let r = t.try_imp(|| img.get_pixel_mut_unchecked(x as u32, y as u32).copy_from_slice(&px));
            d[(y * w + x) * c..(y * w + x + 1) * c].copy_from_slice(&px);
            r
        }
        Op::Index(k, ch, v) => {
            let r = t.try_imp(|| img[k][ch] = S::of(v));
            d[k * c + ch] = S::of(v);
            r
        }
        Op::Data(i, v) => {
            let r = t.try_imp(|| img.data_mut()[i] = S::of(v));
            d[i] = S::of(v);
            r
        }
        Op::Edit(ch, v) => {
            let r = t.try_imp(|| img.edit_channel(|x| if x == S::of(v) { S::of(0) } else { S::of(v) }, ch));
            for (i, x) in d.iter_mut().enumerate() {
                if i % c == ch {
                    *x = if *x == S::of(v) { S::of(0) } else { S::of(v) };
                }
            }
            r
        }
        Op::Apply(v) => {
            let r = t.try_imp(|| img.apply_channels(|x| if x == S::of(v) { S::of(0) } else { S::of(v) }));
            for x in d.iter_mut() {
                *x = if *x == S::of(v) { S::of(0) } else { S::of(v) };
            }
            r
        }
        Op::BadSet(x, y) => {
            let px = pixel::<S>(0x55, c);
            for (x, y) in [(x as u32, y as u32)] {
                if t.try_imp(|| img.set_pixel(x, y, &px)).is_ok()
                    || t.try_imp(|| {
                        img.get_pixel_mut(x, y)[0] = S::of(3);
                    })
                    .is_ok()
                    || t.try_imp(|| {
                        let _ = img.get_pixel(x, y)[0];
                    })
                    .is_ok()
                {
                    return Err(format!("a checked access at ({}, {}) outside {}x{} did not panic", x, y, w, h));
                }
            }
            Ok(())
        }
        Op::BadLen(l) => {
            let px = vec![S::of(1); l];
            if t.try_imp(|| img.set_pixel(0, 0, &px)).is_ok() || t.try_imp(|| img.set_pixel_indexed(0, &px)).is_ok() {
                return Err(format!("a pixel of length {} was accepted by an image with {} channels", l, c));
            }
            Ok(())
        }
        Op::BadIdx => {
            let px = pixel::<S>(0x55, c);
            if t.try_imp(|| img.set_pixel_indexed(w * h, &px)).is_ok()
                || t.try_imp(|| {
                    let _ = img[w * h][0];
                })
                .is_ok()
            {
                return Err("an indexed access outside the image did not panic".into());
            }
            Ok(())
        }
        Op::Clone => {
            let r = t.try_imp(|| {
                let c = img.clone();
                *img = c;
            });
            r
        }
    };
    r.map_err(|e| format!("{:?} panicked: {}", op, e))
}

fn ops(w: usize, h: usize, c: usize, codes: &[usize]) -> Vec<Op> {
    let mut v = Vec::new();
    for y in 0..h {
        for x in 0..w {
            for &p in codes {
                v.push(Op::Set(x, y, p));
                v.push(Op::SetIdx(y * w + x, p));
                v.push(Op::Mut(x, y, p));
                v.push(Op::MutUnchecked(x, y, p));
            }
            for ch in 0..c {
                v.push(Op::Index(y * w + x, ch, 2));
                v.push(Op::Data((y * w + x) * c + ch, 3));
            }
        }
    }
    for ch in 0..c {
        v.push(Op::Edit(ch, 1));
    }
    v.push(Op::Apply(2));
    for (x, y) in [(w, 0), (0, h), (w, h), (w + 1, 0), (0, h + 1), (u32::MAX as usize, 0), (0, u32::MAX as usize)] {
        v.push(Op::BadSet(x, y));
    }
    for l in [0, c - 1, c + 1, c + 256] {
        if l != c {
            v.push(Op::BadLen(l));
        }
    }
    v.push(Op::BadIdx);
    v.push(Op::Clone);
    v
}

/// all operation sequences of length `depth` from the given start, on one live image object
fn sequences<S: Samp>(e: &Engine, name: &str, list: &[(usize, usize, usize, bool)], depth: usize) {
    let mut tasks = Vec::new();
    for &(w, h, c, a) in list {
        let o = ops(w, h, c, &[0b01_10_11_01, 0]);
        for start in 0..2 {
            for first in 0..o.len() {
                tasks.push((w, h, c, a, start, first));
            }
        }
    }
    e.par(name, &format!("all operation sequences of length {} over all accessors, {} shapes, 2 start images", depth, list.len()), tasks.len(), |t, i| {
        let (w, h, c, alpha, start, first) = tasks[i];
        let o = ops(w, h, c, &[0b01_10_11_01, 0]);
        let n = o.len();
        let total = n.pow(depth as u32 - 1);
        for code in 0..total {
            let mut seq = vec![o[first]];
            let mut k = code;
            for _ in 1..depth {
                seq.push(o[k % n]);
                k /= n;
            }
            t.case(
                || format!("{}x{}x{} alpha={} start={} ops {:?}", w, h, c, alpha, start, seq),
                |t| {
                    let mut d: Vec<S> = (0..w * h * c).map(|i| S::of(if start == 0 { 0 } else { i + 1 })).collect();
                    let mut img = if start == 0 { Image::blank(ImageInfo::new(w as u32, h as u32, c as u8, alpha)) } else { build(0, w, h, c, alpha, &d) };
                    for &op in &seq {
                        step(t, &mut img, &mut d, w, h, c, op)?;
                        let key: Vec<u8> = d.iter().map(|&v| { let f: f64 = v.into(); f as u8 }).collect();
                        t.seen(hash_bytes((w * 100 + h * 10 + c) as u64, &[alpha as u8]), &key);
                    }
                    observe(&mut img, w, h, c, alpha, &d)
                },
            );
        }
    });
}

fn every_state<S: Samp>(e: &Engine, name: &str, list: &[(usize, usize, usize, bool)]) {
    // every content over {0,1} x every operation
    let mut tasks = Vec::new();
    for &(w, h, c, a) in list {
        let n = 1usize << (w * h * c);
        for lo in (0..n).step_by(64) {
            tasks.push((w, h, c, a, lo, (lo + 64).min(n)));
        }
    }
    e.par(name, "all contents over {0,1} of the listed shapes x every operation", tasks.len(), |t, i| {
        let (w, h, c, alpha, lo, hi) = tasks[i];
        let o = ops(w, h, c, &[0, 0b01_01_01_01, 0b00_01_00_01]);
        for st in lo..hi {
            for &op in &o {
                t.case(
                    || format!("{}x{}x{} alpha={} content {:b} op {:?}", w, h, c, alpha, st, op),
                    |t| {
                        let mut d: Vec<S> = (0..w * h * c).map(|i| S::of((st >> i) & 1)).collect();
                        let mut img = build((st + w) % 8, w, h, c, alpha, &d);
                        let key: Vec<u8> = d.iter().map(|&v| { let f: f64 = v.into(); f as u8 }).collect();
                        t.seen(hash_bytes((w * 100 + h * 10 + c) as u64, &[alpha as u8]), &key);
                        step(t, &mut img, &mut d, w, h, c, op)?;
                        observe(&mut img, w, h, c, alpha, &d)
                    },
                );
            }
        }
    });
}

fn big<S: Samp>(e: &Engine, name: &str, shapes: &[(usize, usize)]) {
    let l: Vec<_> = (0..shapes.len() * 10).map(|i| (shapes[i / 10].0, shapes[i / 10].1, i % 10 / 2 + 1, i % 2 == 1)).collect();
    listed::<S>(e, name, "labelled images of every listed shape x channels 1..=5: all constructors, every pixel written through every accessor, all reads", &l)
}

fn listed<S: Samp>(e: &Engine, name: &str, bound: &str, list: &[(usize, usize, usize, bool)]) {
    e.par(name, bound, list.len(), |t, i| {
        let (w, h, c, alpha) = list[i];
        let d: Vec<S> = (0..w * h * c).map(|i| S::of(i + 1)).collect();
        for ctor in 0..8 {
            t.case(
                || format!("constructor {} on {}x{}x{} alpha={}", ctor, w, h, c, alpha),
                |t| {
                    let mut img = t.imp(|| build(ctor, w, h, c, alpha, &d))?;
                    t.seen(7 + ctor as u64, &[w as u8, h as u8, c as u8, alpha as u8, (w >> 8) as u8, (h >> 8) as u8]);
                    observe(&mut img, w, h, c, alpha, &d)?;
                    if img != build(0, w, h, c, alpha, &d) {
                        return Err("constructors disagree".into());
                    }
                    Ok(())
                },
            );
        }
        for acc in 0..6 {
            t.case(
                || format!("write all pixels through accessor {} on {}x{}x{} alpha={}", acc, w, h, c, alpha),
                |t| {
                    let mut img: Image<S> = Image::blank(ImageInfo::new(w as u32, h as u32, c as u8, alpha));
                    if img.data().len() != w * h * c || img.data().iter().any(|v| *v != S::of(0)) {
                        return Err("a blank image is not all zeroes".into());
                    }
                    t.imp(|| {
                        // reverse order, so that a write spilling into the next pixel is not repaired
                        for k in (0..w * h).rev() {
                            let px = &d[k * c..(k + 1) * c];
                            write_through(&mut img, acc, w, c, k, px);
                        }
                    })?;
                    observe(&mut img, w, h, c, alpha, &d)?;
                    // single write in the middle of a labelled image changes that pixel only
                    let mut img = build(0, w, h, c, alpha, &d);
                    let mut dd = d.clone();
                    for &k in &[0, w * h / 2, w * h - 1, w - 1, w * h - w] {
                        let px: Vec<S> = (0..c).map(|j| S::of(200 + j)).collect();
                        img.set_pixel((k % w) as u32, (k / w) as u32, &px);
                        dd[k * c..(k + 1) * c].copy_from_slice(&px);
                    }
                    observe(&mut img, w, h, c, alpha, &dd)
                },
            );
        }
        t.case(
            || format!("empty() on {}x{}x{} alpha={}", w, h, c, alpha),
            |t| {
                let img: Image<S> = t.imp(|| Image::empty(ImageInfo::new(w as u32, h as u32, c as u8, alpha)))?;
                if img.info().whca() != (w as u32, h as u32, c as u8, alpha) || !img.data().is_empty() {
                    return Err("an empty image has wrong dimensions or holds samples".into());
                }
                Ok(())
            },
        );
    });
}

/// pixels of many channels: every single sample changed alone, through every write accessor
fn wide_pixels<S: Samp>(e: &Engine, name: &str) {
    let cs: Vec<usize> = (5..=17).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 254, 255]).collect();
    e.par(name, "3x2 images of 5..=17, 31..=33, 63..=65, 100, 127, 128, 200, 254 and 255 channels x every pixel x every one of its samples (and two at once) changed alone x 6 write accessors", cs.len() * 2, |t, i| {
        let (c, alpha) = (cs[i / 2], i % 2 == 1);
        let d: Vec<S> = (0..6 * c).map(|j| S::of(j / c * 3 % 251)).collect();
        for k in 0..6usize {
            for j in 0..c {
                for acc in 0..6 {
                    t.case(
                        || format!("sample {} of pixel {} of 3x2x{} alpha={} changed through accessor {}", j, k, c, alpha, acc),
                        |t| {
                            t.seen(40 + acc as u64, &[k as u8, j as u8, c as u8, alpha as u8]);
                            let mut img = Image::from_slice(3, 2, c as u8, alpha, &d);
                            let mut want = d.clone();
                            want[k * c + j] = S::of(250);
                            if (j + k) % 3 == 2 {
                                want[k * c + (j * 2 + 1) % c] = S::of(249);
                            }
                            let px = want[k * c..(k + 1) * c].to_vec();
                            t.imp(|| write_through(&mut img, acc, 3, c, k, &px))?;
                            if img.data() != &want[..] {
                                return Err("the samples are not those written".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}
fn write_through<S: Samp>(img: &mut Image<S>, acc: usize, w: usize, c: usize, k: usize, px: &[S]) {
    let (x, y) = ((k % w) as u32, (k / w) as u32);
    match acc {
        0 => img.set_pixel(x, y, px),
        1 => img.set_pixel_indexed(k, px),
        2 => img.get_pixel_mut(x, y).copy_from_slice(px),
        3 => img.get_pixel_mut_unchecked(x, y).copy_from_slice(px),
        4 => img[k].copy_from_slice(px),
        _ => {
            let at = img.index(x, y);
            img.data_mut()[at..at + c].copy_from_slice(px)
        }
    }
}

/// the multi-vector constructors take any split of the samples, one-sample and empty vectors included
fn splits<S: Samp>(e: &Engine, name: &str) {
    let list = [(1, 1, 1, false), (2, 1, 3, false), (3, 2, 4, true), (5, 3, 2, true), (4, 4, 5, false), (71, 67, 1, false), (61, 71, 3, false), (130, 127, 4, true), (5000, 1, 2, false)];
    e.par(name, "vectors and slices cut into pieces of 1, 2, 3, 5, 7, C-1, C+1, W, 4096 and of cyclically varying (also zero) length", list.len(), |t, i| {
        let (w, h, c, alpha) = list[i];
        let d: Vec<S> = (0..w * h * c).map(|i| S::of(i + 1)).collect();
        for cut in [1, 2, 3, 5, 7, (c - 1).max(1), c + 1, w, 4096, 0] {
            let mut parts: Vec<&[S]> = Vec::new();
            let (mut at, mut k) = (0, 0);
            while at < d.len() {
                let n = if cut == 0 { [0, 1, c, 2, 0, c + 1, 3 * c][k % 7] } else { cut };
                k += 1;
                let n = n.min(d.len() - at);
                parts.push(&d[at..at + n]);
                at += n;
            }
            if cut == 0 {
                parts.push(&[]);
            }
            t.case(
                || format!("{}x{}x{} alpha={} in {} pieces (cut {})", w, h, c, alpha, parts.len(), cut),
                |t| {
                    let (wi, hi, ci) = (w as u32, h as u32, c as u8);
                    let mut a = t.imp(|| Image::from_vec_of_vec(wi, hi, ci, alpha, parts.iter().map(|p| p.to_vec()).collect()))?;
                    observe(&mut a, w, h, c, alpha, &d)?;
                    let mut b = t.imp(|| Image::from_vec_of_slice(wi, hi, ci, alpha, parts.clone()))?;
                    t.seen(19, &[w as u8, h as u8, c as u8, cut as u8]);
                    observe(&mut b, w, h, c, alpha, &d)
                },
            );
        }
    });
}

/// every coordinate around the image, and those whose index wraps to one inside it
fn ring(e: &Engine) {
    let list: Vec<(usize, usize, usize, bool)> = shapes(6, 6).into_iter().flat_map(|(w, h)| [(w, h, 1, false), (w, h, 3, false), (w, h, 4, true)]).collect();
    e.par("outside", "all shapes up to 6x6, layouts 1, 3, 3+a: every point of [0, W+2]x[0, H+2] outside the image and every (x, y) whose linear index wraps to one inside, through every checked accessor", list.len(), |t, i| {
        let (w, h, c, alpha) = list[i];
        let mut d: Vec<u8> = (0..w * h * c).map(|i| (i + 1) as u8).collect();
        let mut img = build(0, w, h, c, alpha, &d);
        let mut pts = Vec::new();
        for y in 0..h + 3 {
            for x in 0..w + 3 {
                if x >= w || y >= h {
                    pts.push((x, y));
                }
            }
        }
        let two32 = 1usize << 32;
        for k in 0..w * h {
            // y * w + x = 2^32 + k
            let y = (two32 - 1) / w;
            if y * w <= two32 + k && two32 + k - y * w < two32 {
                pts.push((two32 + k - y * w, y));
            }
            pts.push((k + w, two32 - 1));
            pts.push((two32 - 1 - k, 0));
            if k >= w {
                pts.push((k, 0));
            }
        }
        for (x, y) in pts {
            t.case(
                || format!("access at ({}, {}) of {}x{}x{} alpha={}", x, y, w, h, c, alpha),
                |t| {
                    step(t, &mut img, &mut d, w, h, c, Op::BadSet(x, y))?;
                    t.seen(23, &[w as u8, h as u8, c as u8, x as u8, y as u8]);
                    observe(&mut img, w, h, c, alpha, &d)
                },
            );
        }
    });
}

/// points next to, and far from, the borders of images with long sides
fn ring_large(e: &Engine) {
    let mut list: Vec<(usize, usize, usize, bool)> = Vec::new();
    for (w, h) in [(16, 5), (17, 3), (3, 17), (32, 4), (64, 5), (5, 64), (128, 3), (255, 2), (256, 3), (257, 3), (3, 257), (300, 2), (1000, 4), (4, 1000), (1024, 2), (4097, 2), (32768, 2), (65536, 2), (70000, 2), (2, 70000)] {
        for (c, a) in [(1, false), (3, false), (4, true)] {
            list.push((w, h, c, a));
        }
    }
    e.par("outside/large", "20 shapes with sides of 16 to 70000, layouts 1, 3, 3+a: points outside within 3 of, and at 1.5x, 2x, powers of two beyond, each border, at every quarter of the other side, through every checked accessor", list.len(), |t, i| {
        let (w, h, c, alpha) = list[i];
        let mut d: Vec<u8> = (0..w * h * c).map(|i| (i * 7 + i / 256 + 1) as u8).collect();
        let mut img = build(0, w, h, c, alpha, &d);
        let inside = |n: usize| -> Vec<usize> {
            let mut v = vec![0, 1, n / 4, n / 2, 3 * n / 4, n - 2, n - 1];
            v.sort();
            v.dedup();
            v
        };
        let beyond = |n: usize| -> Vec<usize> {
            let mut v = vec![n, n + 1, n + 2, n + 3, n + n / 2, 2 * n - 1, 2 * n, n + 255, n + 256, n + 65535, n + 65536, n + (1 << 24), u32::MAX as usize];
            v.sort();
            v.dedup();
            v
        };
        let mut pts = Vec::new();
        for &a in &beyond(w) {
            pts.extend(inside(h).into_iter().map(|b| (a, b)));
            pts.extend([(a, h), (a, h + 1)]);
        }
        for &b in &beyond(h) {
            pts.extend(inside(w).into_iter().map(|a| (a, b)));
        }
        for (x, y) in pts {
            t.case(
                || format!("access at ({}, {}) of {}x{}x{} alpha={}", x, y, w, h, c, alpha),
                |t| {
                    step(t, &mut img, &mut d, w, h, c, Op::BadSet(x, y))?;
                    t.seen(hash_bytes(24, &[w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8, c as u8]), format!("{},{}", x, y).as_bytes());
                    if img.data() != &d[..] {
                        return Err("a rejected access changed the image".into());
                    }
                    Ok(())
                },
            );
        }
    });
}

/// images of more samples than u32 counts (their untouched pages are never backed by memory)
fn beyond_u32(e: &Engine) {
    let list = [(65535u32, 16400u32, 4u8, true), (40000, 40000, 3, false), (5, 858993500, 1, false), (858993460, 6, 1, false), (65540, 65541, 1, false), (16909321, 1, 254, true), (2, 1048577, 255, false), (30000000, 3, 48, true)];
    e.par("beyond u32", "8 blank u8 images of up to 5.2 * 10^9 samples: every ordered pair of 4 writers x 4 readers over the 25 corner, edge-centre and mid-image pixels and the pixels whose offsets differ from theirs by 2^32 samples", 1, |t, _| {
      // one image at a time: their address space adds up
      if Vec::<u8>::new().try_reserve_exact(5_300_000_000).is_err() {
          t.eng.note("beyond u32", "skipped: no 5.3 GB of address space here".to_string());
          return;
      }
      for &(w, h, c, alpha) in &list {
        let n = c as usize;
        // coordinates: borders and middles, and the pixels that a 32-bit offset would confuse with them
        let mut at: Vec<(u32, u32)> = Vec::new();
        for y in [0, 1, h / 2, h.saturating_sub(2), h - 1] {
            for x in [0, 1, w / 2, w.saturating_sub(2), w - 1] {
                let off = (y as u64 * w as u64 + x as u64) * n as u64;
                for o in [off, off.wrapping_sub(1 << 32), off + (1 << 32)] {
                    let p = o / n as u64;
                    if p < w as u64 * h as u64 {
                        let q = ((p % w as u64) as u32, (p / w as u64) as u32);
                        if q.0 < w && q.1 < h && !at.contains(&q) {
                            at.push(q);
                        }
                    }
                }
            }
        }
        for writer in 0..4usize {
            t.case(
                || format!("blank {}x{}x{} alpha={}: {} pixels written with {}", w, h, n, alpha, at.len(), ["set_pixel", "set_pixel_indexed", "get_pixel_mut", "get_pixel_mut_unchecked"][writer]),
                |t| {
                    t.seen(hash_bytes(w as u64, &h.to_le_bytes()), &[c, writer as u8]);
                    let mut img: Image<u8> = t.imp(|| Image::blank(ImageInfo::new(w, h, c, alpha)))?;
                    if img.data().len() as u64 != w as u64 * h as u64 * n as u64 {
                        return Err(format!("the image holds {} samples", img.data().len()));
                    }
                    let val = |k: usize| -> Vec<u8> { (0..n).map(|q| (1 + (k * 7 + q * 3) % 255) as u8).collect() };
                    for k in 0..at.len() {
                        let (x, y) = at[k];
                        let lin = y as usize * w as usize + x as usize;
                        let v = val(k);
                        t.imp(|| match writer {
                            0 => img.set_pixel(x, y, &v),
                            1 => img.set_pixel_indexed(lin, &v),
                            2 => img.get_pixel_mut(x, y).copy_from_slice(&v),
                            _ => img.get_pixel_mut_unchecked(x, y).copy_from_slice(&v),
                        })?;
                        for (j, &(x, y)) in at.iter().enumerate() {
                            let want = if j <= k { val(j) } else { vec![0; n] };
                            let lin = y as usize * w as usize + x as usize;
                            for reader in 0..5 {
                                let got = t.imp(|| match reader {
                                    0 => img.get_pixel(x, y).to_vec(),
                                    1 => img.get_pixel_unchecked(x, y).to_vec(),
                                    2 => img[lin].to_vec(),
                                    3 => img.data()[lin * n..(lin + 1) * n].to_vec(),
                                    _ => img.data()[img.index(x, y)..][..n].to_vec(),
                                })?;
                                if got != want {
                                    return Err(format!("after writing pixel {:?}, reader {} shows {:?} at ({}, {}) instead of {:?}", at[k], reader, &got[..n.min(8)], x, y, &want[..n.min(8)]));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
      }
    });
}

fn main() {
    let e = Engine::new("C01");
    beyond_u32(&e);
    ring(&e);
    ring_large(&e);
    wide_pixels::<u8>(&e, "wide pixels/u8");
    wide_pixels::<f32>(&e, "wide pixels/f32");
    splits::<u8>(&e, "pieces/u8");
    splits::<f32>(&e, "pieces/f32");
    let small = [
        (1, 1, 1, false), (1, 1, 2, true), (1, 1, 3, false), (1, 1, 4, true),
        (2, 1, 1, false), (1, 2, 1, false), (2, 1, 3, false), (1, 2, 4, true),
        (2, 2, 1, false), (2, 2, 2, true), (3, 2, 1, false), (2, 3, 1, false), (3, 2, 2, false), (2, 3, 2, true),
    ];
    every_state::<u8>(&e, "states/u8", &small);
    sequences::<u8>(&e, "sequences2/u8", &[(1, 1, 1, false), (2, 1, 2, true), (1, 2, 3, false), (2, 2, 1, false), (3, 2, 2, true), (2, 3, 3, false), (2, 2, 4, true)], 2);
    sequences::<u8>(&e, "sequences3/u8", &[(1, 1, 2, true), (2, 1, 1, false), (1, 2, 1, false), (2, 2, 1, false)], 3);
    sequences::<f32>(&e, "sequences2/f32", &[(2, 1, 2, true), (2, 2, 1, false), (3, 2, 2, true)], 2);
    if e.thorough() {
        sequences::<u8>(&e, "sequences4/u8", &[(1, 1, 1, false), (2, 1, 1, false)], 4);
        sequences::<u8>(&e, "sequences3b/u8", &[(2, 2, 2, true), (3, 2, 1, false), (1, 2, 3, false)], 3);
        every_state::<u16>(&e, "states/u16", &small);
        every_state::<f32>(&e, "states/f32", &small);
    }
    let mut sh = shapes(e.b(13, 24), e.b(13, 24));
    sh.extend([(256, 2), (2, 256), (257, 3), (3, 257), (300, 256), (256, 300), (70000, 1), (1, 70000), (65536, 3), (65537, 2), (3, 65536), (4, 65537), (33000, 2), (2, 33000)]);
    big::<u8>(&e, "shapes/u8", &sh);
    big::<u32>(&e, "shapes/u32", &sh);
    big::<f32>(&e, "shapes/f32", &sh[..60]);
    // beyond 2^20 samples, beyond 2^24 samples (indices no f32 can hold), many channels
    let huge = [(1101, 1003, 1, false), (1003, 701, 3, false), (4099, 4101, 1, false), (1, 1 << 21, 1, false), ((1 << 21) + 1, 1, 2, true), (2111, 1999, 4, true), (300, 301, 255, true), (17, 19, 200, false)];
    let n = if std::env::var("VH_CONFIG").as_deref() == Ok("rel") && !e.thorough() { 2 } else { e.b(7, 8) };
    listed::<u32>(&e, "shapes/huge", "labelled images with up to 2^24 samples and up to 255 channels: all constructors, every pixel written through every accessor, all reads", &huge[..n]);
    if e.thorough() {
        listed::<u8>(&e, "shapes/huge u8", "the same with 8-bit samples", &huge);
        listed::<f32>(&e, "shapes/huge f32", "the same with f32 samples", &huge);
    }
    e.finish();
}
