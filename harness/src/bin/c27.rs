//! C27: images survive a write/read round trip and bad files are reported as errors.
//! Everything happens inside a scratch directory under VH_WORK that is removed at the end.
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::io;
use vh::*;

fn content(w: usize, h: usize, c: usize, al: bool, k: usize) -> M {
    match k {
        0 => label_img(w, h, c, al, w + h),
        1 => mix_img(w, h, c, al, w * 3 + h),
        2 => M::gen(w, h, c, al, |_, _, _| 0.0),
        3 => M::gen(w, h, c, al, |_, _, _| 255.0),
        _ => M::gen(w, h, c, al, |x, y, k| ((x + 2 * y + k) % 2 * 255) as f64),
    }
}

fn same(m: &M, b: &Image<u8>) -> Result<(), String> {
    let want: Vec<u8> = m.d.iter().map(|&v| v as u8).collect();
    img_eq_u8(b, m.w, m.h, m.c, m.alpha, &want)
}

/// write, then read back: identical, and the written image untouched
fn trip(t: &mut T, m: &M, path: &str) -> Result<(), String> {
    let u = m.u8();
    t.seen(hash_bytes((m.w * 70001 + m.h) as u64, &[m.c as u8, m.alpha as u8]), u.data());
    let before = u.clone();
    t.imp(|| io::write(&u, path))?.map_err(|e| format!("write failed: {:?}", e))?;
    if u.info() != before.info() || u.data() != before.data() {
        return Err("writing modified the image".into());
    }
    let b = t.imp(|| io::read(path))?.map_err(|e| format!("read failed: {:?}", e))?;
    same(m, &b)
}

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c ^= x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
/// a PNG file made here: scan lines (filter byte first) in stored deflate blocks
fn raw_png(w: usize, h: usize, depth: u8, ct: u8, plte: &[u8], lines: &[u8]) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |n: &[u8], d: &[u8]| {
        let b = [n, d].concat();
        o.extend((d.len() as u32).to_be_bytes());
        o.extend(&b);
        o.extend(crc(&b).to_be_bytes());
    };
    chunk(b"IHDR", &[&(w as u32).to_be_bytes()[..], &(h as u32).to_be_bytes(), &[depth, ct, 0, 0, 0]].concat());
    if !plte.is_empty() {
        chunk(b"PLTE", plte);
    }
    let mut z = vec![0x78, 1];
    let n = lines.chunks(60000).count();
    for (i, c) in lines.chunks(60000).enumerate() {
        z.push((i + 1 == n) as u8);
        z.extend((c.len() as u16).to_le_bytes());
        z.extend((!(c.len() as u16)).to_le_bytes());
        z.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in lines {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    z.extend((b << 16 | a).to_be_bytes());
    chunk(b"IDAT", &z);
    chunk(b"IEND", &[]);
    o
}
/// scan lines of 8-bit samples under one filter type
fn filtered(m: &M, ft: u8) -> Vec<u8> {
    let row = m.w * m.c;
    let at = |y: i64, x: i64| if y < 0 || x < 0 { 0i64 } else { m.d[y as usize * row + x as usize] as i64 };
    let mut o = Vec::new();
    for y in 0..m.h as i64 {
        o.push(ft);
        for x in 0..row as i64 {
            let (a, b, c) = (at(y, x - m.c as i64), at(y - 1, x), at(y - 1, x - m.c as i64));
            let p = match ft {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                _ => {
                    let e = a + b - c;
                    let (pa, pb, pc) = ((e - a).abs(), (e - b).abs(), (e - c).abs());
                    if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }
                }
            };
            o.push((at(y, x) - p) as u8);
        }
    }
    o
}

fn child(a: &[String]) -> ! {
    let n: Vec<usize> = a[..5].iter().map(|s| s.parse().unwrap()).collect();
    let m = content(n[1], n[2], n[3], n[3] % 2 == 0, n[4]);
    let u = m.u8();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: n[0] as u64, rlim_max: n[0] as u64 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
    let r = std::panic::catch_unwind(|| io::write(&u, &a[5]).is_ok());
    std::process::exit(match r {
        Ok(true) => 0,
        Ok(false) => 3,
        Err(_) => 4,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--child-write").unwrap_or(false) {
        child(&args[2..]);
    }
    let e = Engine::new("C27");
    let work = std::env::var("VH_WORK").unwrap_or_else(|_| "/tmp".into());
    let dir = format!("{}/c27-{}", work, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let dir = dir.as_str();
    let file = |ext: &str| format!("{}/f{}.{}", dir, slot_index(), ext);

    e.par("png-values", "PNG: every level in every channel of a 1x1 image of each layout, all pairs of 6 levels in adjacent samples, all 2x1 gray images over 24 levels", 256 + 24, |t, i| {
        if i < 256 {
            for (c, al) in LAYOUTS4 {
                for k in 0..c {
                    let m = M::gen(1, 1, c, al, |_, _, q| if q == k { i as f64 } else { 90.0 + q as f64 });
                    t.case(|| format!("PNG round trip of {}", m.show()), |t| trip(t, &m, &file("png")));
                }
            }
        } else {
            let a = (i - 256) as f64 * 11.0;
            for b in 0..24 {
                let m = M { w: 2, h: 1, c: 1, alpha: false, d: vec![a, b as f64 * 11.0] };
                t.case(|| format!("PNG round trip of {}", m.show()), |t| trip(t, &m, &file("png")));
            }
        }
    });
    let al4: [u8; 4] = [0, 1, 128, 255];
    e.par("png-words", "PNG: all images over {0, 1, 128, 255} of 2x2 gray, 2x1 and 1x2 gray+alpha, 1x1 RGBA, 2x1 RGB", 256 * 3 + 256 + 4096, |t, i| {
        let m = if i < 256 {
            word_img(i, 2, 2, 1, false, &al4)
        } else if i < 512 {
            word_img(i - 256, 2, 1, 2, true, &al4)
        } else if i < 768 {
            word_img(i - 512, 1, 2, 2, true, &al4)
        } else if i < 1024 {
            word_img(i - 768, 1, 1, 4, true, &al4)
        } else {
            word_img(i - 1024, 2, 1, 3, false, &al4)
        };
        t.case(|| format!("PNG round trip of {}", m.show()), |t| trip(t, &m, &file("png")));
    });
    let (wm, hm) = e.b((40, 10), (90, 40));
    let mut sh = shapes(wm, hm);
    sh.extend([(64, 64), (257, 129), (129, 257), (1031, 17), (17, 1031), (5000, 3), (3, 5000), (20000, 1), (1, 20000), (300, 300), (1101, 1003), (5, 210001)]);
    e.par("png-shapes", "PNG: every shape up to 40x10 (90x40) and 12 large ones up to 1.1 million pixels x 4 layouts x 5 contents (the largest: 1)", sh.len(), |t, i| {
        let (w, h) = sh[i];
        for (c, al) in LAYOUTS4 {
            for k in 0..5 {
                if w * h > 1_000_000 && k != 1 {
                    continue;
                }
                let m = content(w, h, c, al, k);
                t.case(|| format!("PNG round trip of {}x{}x{} content {}", w, h, c, k), |t| trip(t, &m, &file("png")));
            }
        }
    });
    // lossless formats and the layouts they store
    let fm: [(&str, &[usize]); 9] = [("bmp", &[3, 4]), ("tiff", &[1, 3, 4]), ("tif", &[1, 3, 4]), ("tga", &[1, 2, 3, 4]), ("pgm", &[1]), ("ppm", &[3]), ("pam", &[1, 3]), ("ico", &[4]), ("PNG", &[1, 2, 3, 4])];
    let osh = [(1, 1), (2, 1), (1, 2), (3, 3), (5, 4), (7, 9), (31, 2), (32, 3), (33, 5), (4, 40), (100, 7), (255, 3), (256, 256), (257, 2), (300, 211), (1000, 3), (1101, 1003)];
    e.par("other-formats", "BMP, TIFF, TGA, PGM/PPM/PAM, ICO (up to 256x256) and an upper-case extension: each layout the format stores x 17 shapes x 5 contents (the largest: 1)", fm.len() * osh.len(), |t, i| {
        let (ext, ls) = fm[i % fm.len()];
        let (w, h) = osh[i / fm.len()];
        if ext == "ico" && (w > 256 || h > 256) {
            return;
        }
        for &c in ls {
            for k in 0..5 {
                if w * h > 1_000_000 && k != 1 {
                    continue;
                }
                let m = content(w, h, c, c % 2 == 0, k);
                t.case(|| format!("{} round trip of {}x{}x{} content {}", ext, w, h, c, k), |t| trip(t, &m, &file(ext)));
            }
        }
    });
    e.par("names", "file names with spaces, dots, non-ASCII characters and relative components, and names and paths as long as the file system takes", 13, |t, i| {
        let n = ["a b.png", "a.b.c.png", "übung-図.png", "no.jpg.png", "-dash.png", "./x/../y.png", "x/y.png", "PNG.png"].get(i).map(|s| s.to_string()).unwrap_or_else(|| match i {
            8 => format!("{}.png", "n".repeat(251)),
            9 => format!("{}.png", "長".repeat(83)),
            10 => format!("x/{}{}/f.png", "./".repeat(400), "../x/".repeat(300)),
            11 => "tab\tnew\nline'quote\"%s{}*?\\b.png".into(),
            _ => format!("{}{}", "a.".repeat(100), "png"),
        });
        let n = n.as_str();
        let _ = std::fs::create_dir_all(format!("{}/x", dir));
        for (c, al) in LAYOUTS4 {
            let m = content(6, 5, c, al, 1);
            t.case(|| format!("PNG round trip under the name {:?}, {} channels", n, c), |t| trip(t, &m, &format!("{}/{}", dir, n)));
        }
    });

    // histories over one path: the file always holds the last successful write
    let depth = e.b(3, 4);
    let nops = 6usize;
    e.par("histories", "all histories of 3 (4) operations over one path: write 4 different images (large to small), a rejected write, a read; every read returns the image of the last successful write", nops.pow(depth), move |t, i| {
        let p = file("png");
        let ms = [content(40, 30, 3, false, 1), content(3, 2, 1, false, 0), content(5, 5, 4, true, 1), content(1, 1, 2, true, 0)];
        t.case(
            || format!("history {} over one PNG file", i),
            |t| {
                let _ = std::fs::remove_file(&p);
                let mut last: Option<usize> = None;
                let mut after_failure = false;
                let mut k = i;
                for s in 0..depth + 1 {
                    let op = if s == depth { 5 } else { k % nops };
                    k /= nops;
                    t.seen(i as u64, &[s as u8, op as u8]);
                    match op {
                        0..=3 => {
                            let u = ms[op].u8();
                            t.imp(|| io::write(&u, &p))?.map_err(|e| format!("step {}: write failed: {:?}", s, e))?;
                            last = Some(op);
                            after_failure = false;
                        }
                        4 => {
                            let u = content(4, 4, 5, false, 0).u8();
                            if t.imp(|| io::write(&u, &p))?.is_ok() {
                                return Err(format!("step {}: a 5-channel image was written", s));
                            }
                            after_failure = true;
                        }
                        _ => match (t.imp(|| io::read(&p))?, last) {
                            (Ok(b), Some(l)) => same(&ms[l], &b).map_err(|m| format!("step {}: {}", s, m))?,
                            (Ok(_), None) => return Err(format!("step {}: read an image nobody wrote", s)),
                            (Err(e), Some(_)) if !after_failure => return Err(format!("step {}: read failed: {:?}", s, e)),
                            _ => {}
                        },
                    }
                }
                Ok(())
            },
        );
    });

    // layouts no file format of the library stores
    e.par("bad-layouts", "every channel count 1..=255 with and without alpha x 6 extensions: exactly gray, gray+alpha, RGB and RGBA are written to PNG, all others rejected", 255, |t, i| {
        let c = i + 1;
        for al in [false, true] {
            let good = matches!((c, al), (1, false) | (2, true) | (3, false) | (4, true));
            for ext in ["png", "bmp", "tiff", "tga", "jpg", "pam"] {
                for (w, h) in [(1usize, 1usize), (3, 2), (8, 5)] {
                    if good && ext != "png" {
                        continue;
                    }
                    let m = mix_img(w, h, c, al, i);
                    t.case(
                        || format!("write {}x{} with {} channels, alpha {} to .{}", w, h, c, al, ext),
                        |t| {
                            t.seen((c * 2 + al as usize) as u64, ext.as_bytes());
                            let u = m.u8();
                            let keep = u.clone();
                            let p = file(ext);
                            let r = t.imp(|| io::write(&u, &p))?;
                            if r.is_ok() != good {
                                return Err(if good { format!("rejected: {:?}", r.err()) } else { "an unsupported channel layout was accepted".into() });
                            }
                            if u.info() != keep.info() || u.data() != keep.data() {
                                return Err("writing modified the image".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
    e.par("short-buffers", "images claiming w x h pixels with every shorter buffer length, 12 shapes x 4 layouts: an error (or a panic of the constructor), never a panic of write", 12 * 4, |t, i| {
        let (c, al) = LAYOUTS4[i % 4];
        let (w, h) = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (5, 4), (8, 8), (16, 5), (7, 13), (17, 17)][i / 4];
        for n in 0..w * h * c {
            t.case(
                || format!("write {}x{}x{} holding {} samples", w, h, c, n),
                |t| {
                    t.seen(i as u64, &(n as u32).to_le_bytes());
                    let d: Vec<u8> = (0..n).map(|k| mix_u8(k, i)).collect();
                    let u: Image<u8> = match t.try_imp(|| Image::from_slice(w as u32, h as u32, c as u8, al, &d)) {
                        Ok(u) => u,
                        Err(_) => return Ok(()),
                    };
                    let p = file("png");
                    if t.imp(|| io::write(&u, &p))?.is_ok() {
                        return Err("a too-short buffer was written as an image".into());
                    }
                    Ok(())
                },
            );
        }
    });
    e.par("bad-paths", "unsupported or missing extensions, missing directories, directories in place of files, over-long, empty and NUL-containing names x 4 layouts: write and read both report an error", 4, |t, i| {
        let (c, al) = LAYOUTS4[i];
        let m = content(4, 3, c, al, 0);
        let base = format!("{}/p{}", dir, slot_index());
        let _ = std::fs::create_dir_all(format!("{}/d.png", base));
        let _ = std::fs::write(format!("{}/file", base), b"x");
        let mut bad: Vec<String> = ["xyz", "txt", "webp", "dds", "avif", "exr", "hdr", "mp4", "pn", "pngg", "png ", "p", "rs", "gz"].iter().map(|x| format!("{}/f.{}", base, x)).collect();
        bad.extend([format!("{}/noext", base), format!("{}/f.", base), format!("{}/.png", base), format!("{}/", base), String::new(), format!("{}/d.png", base), format!("{}/d.png/", base), format!("{}/missing/f.png", base), format!("{}/file/f.png", base), format!("{}/{}.png", base, "n".repeat(300)), format!("{}/nul\0.png", base)]);
        for p in bad {
            t.case(
                || format!("write and read {:?}, {} channels", p.replace(dir, "DIR"), c),
                |t| {
                    t.seen(c as u64, p.replace(dir, "DIR").as_bytes());
                    let u = m.u8();
                    if t.imp(|| io::write(&u, &p))?.is_ok() {
                        return Err("write reported success".into());
                    }
                    if t.imp(|| io::read(&p))?.is_ok() {
                        return Err("read reported success".into());
                    }
                    same(&m, &u)
                },
            );
        }
        for ext in ["png", "jpg", "bmp", "tiff", "gif", "ico", "tga", "ppm", "webp", "xyz"] {
            let p = format!("{}/missing-file.{}", base, ext);
            t.case(
                || format!("read the missing file missing-file.{}", ext),
                |t| if t.imp(|| io::read(&p))?.is_ok() { Err("read reported success".into()) } else { Ok(()) },
            );
        }
    });

    // torn files
    let tf: [(&str, &[usize]); 7] = [("png", &[1, 2, 3, 4]), ("bmp", &[3, 4]), ("tiff", &[1, 3, 4]), ("tga", &[1, 2, 3, 4]), ("ppm", &[3]), ("pgm", &[1]), ("pam", &[1, 3])];
    let mut tc: Vec<(&str, usize, usize, usize, usize)> = Vec::new();
    for (ext, ls) in tf {
        for &c in ls {
            for (w, h) in e.b(vec![(1, 1), (5, 4), (16, 11)], vec![(1, 1), (2, 1), (5, 4), (16, 11), (31, 30)]) {
                for k in 0..2 {
                    tc.push((ext, c, w, h, k));
                }
            }
        }
    }
    e.par("torn-files", "files of 7 formats x layouts x 3 (5) shapes x 2 contents cut at every byte: an error, or the complete original image when only the trailer after the pixel data is lost; never a panic", tc.len(), |t, i| {
        let (ext, c, w, h, k) = tc[i];
        let m = content(w, h, c, c % 2 == 0, k);
        let p = file(ext);
        if io::write(&m.u8(), &p).is_err() {
            t.case(|| format!("write {} {}x{}x{}", ext, w, h, c), |_| Err("write failed".into()));
            return;
        }
        let full = std::fs::read(&p).unwrap_or_default();
        for n in 0..full.len() {
            t.case(
                || format!("read {} of {}x{}x{} content {} cut after {} of {} bytes", ext, w, h, c, k, n, full.len()),
                |t| {
                    t.seen(i as u64, &(n as u32).to_le_bytes());
                    std::fs::write(&p, &full[..n]).map_err(|e| e.to_string())?;
                    match t.imp(|| io::read(&p))? {
                        Err(_) => Ok(()),
                        Ok(b) => same(&m, &b).map_err(|e| format!("a truncated file was read as a different image: {}", e)),
                    }
                },
            );
        }
    });
    e.par("corrupt-png", "PNG files of 4 layouts with every byte replaced by every other value: an error, or (the trailer after the pixel data) the original image; never a panic", 4, |t, i| {
        let (c, al) = LAYOUTS4[i];
        let m = content(5, 4, c, al, 1);
        let p = file("png");
        if io::write(&m.u8(), &p).is_err() {
            t.case(|| format!("write 5x4x{}", c), |_| Err("write failed".into()));
            return;
        }
        let full = std::fs::read(&p).unwrap_or_default();
        for n in 0..full.len() {
            for x in 1..=255u8 {
                t.case(
                    || format!("read PNG 5x4x{} with byte {} xor {:#x}", c, n, x),
                    |t| {
                        t.seen(i as u64 + 100, &[n as u8, x]);
                        let mut f = full.clone();
                        f[n] ^= x;
                        std::fs::write(&p, &f).map_err(|e| e.to_string())?;
                        match t.imp(|| io::read(&p))? {
                            Err(_) => Ok(()),
                            Ok(b) => same(&m, &b).map_err(|e| format!("a damaged file was read as a different image: {}", e)),
                        }
                    },
                );
            }
        }
    });
    // header fields with values the format does not have
    let dmg: Vec<(&str, usize, Vec<(usize, &[u8])>)> = vec![
        ("bmp", 3, vec![(0, b"XX"), (0, b"MB"), (14, &[13, 0, 0, 0]), (14, &[0, 0, 0, 0]), (26, &[7, 0]), (26, &[0, 0]), (28, &[7, 0]), (28, &[0, 0]), (28, &[255, 255]), (30, &[99, 0, 0, 0]), (18, &[255, 255, 255, 255])]),
        ("tga", 3, vec![(2, &[99]), (2, &[0]), (16, &[7]), (16, &[0])]),
        ("tiff", 3, vec![(0, b"XX"), (2, &[43, 0]), (2, &[0, 0]), (4, &[255, 255, 255, 255])]),
        ("ppm", 3, vec![(0, b"X6"), (0, b"P9"), (0, b"66"), (3, b"x"), (3, b"-")]),
        ("pgm", 1, vec![(0, b"X5"), (0, b"P9"), (3, b"x")]),
        ("pam", 4, vec![(0, b"X7"), (1, b"9")]),
        ("ico", 4, vec![(4, &[0, 0])]),
    ];
    e.par("damaged-headers", "7 formats with the signature, header size, plane count, depth, compression, width or version replaced by a value the format does not have, whole and under the name of another format, 9 shapes: an error, never an image", dmg.len() * 9, |t, i| {
        let (ext, c, edits) = &dmg[i / 9];
        let (w, h) = [(1usize, 1usize), (2, 1), (1, 3), (5, 4), (8, 8), (17, 3), (3, 40), (64, 33), (100, 90)][i % 9];
        let m = content(w, h, *c, c % 2 == 0, 1);
        let p = file(ext);
        if io::write(&m.u8(), &p).is_err() {
            t.case(|| format!("write {} {}x{}x{}", ext, w, h, c), |_| Err("write failed".into()));
            return;
        }
        let full = std::fs::read(&p).unwrap_or_default();
        for (at, bytes) in edits {
            t.case(
                || format!("read {} of {}x{}x{} with {:?} at byte {}", ext, w, h, c, bytes, at),
                |t| {
                    t.seen(i as u64 + 900, &[*at as u8, bytes[0]]);
                    let mut f = full.clone();
                    f[*at..*at + bytes.len()].copy_from_slice(bytes);
                    std::fs::write(&p, &f).map_err(|e| e.to_string())?;
                    match t.imp(|| io::read(&p))? {
                        Err(_) => Ok(()),
                        Ok(b) => Err(format!("read as an image of {:?}", b.info())),
                    }
                },
            );
        }
        for other in ["png", "bmp", "tiff", "ppm", "ico", "jpg", "gif"] {
            let kind = |x: &str| if matches!(x, "ppm" | "pgm" | "pam") { "pnm".to_string() } else { x.to_string() };
            if kind(other) == kind(ext) || *ext == "tga" && other != "png" {
                continue;
            }
            t.case(
                || format!("read a {} file of {}x{}x{} named .{}", ext, w, h, c, other),
                |t| {
                    let q = file(other);
                    std::fs::write(&q, &full).map_err(|e| e.to_string())?;
                    match t.imp(|| io::read(&q))? {
                        Err(_) => Ok(()),
                        // a reader that goes by content may understand it, but then correctly
                        Ok(b) => same(&m, &b).map_err(|e| format!("read as a different image: {}", e)),
                    }
                },
            );
        }
    });
    let fsh = [(1usize, 1usize), (2, 1), (1, 3), (5, 4), (8, 8), (17, 3), (3, 40), (64, 33), (200, 120)];
    e.par("foreign", "files made by an independent encoder: 8-bit PNG of 4 layouts x 5 scan-line filters, palette PNG, PGM/PPM (binary and text): exactly the stored samples; 16-bit PNG of 4 layouts and 16-bit PGM/PPM: an error or the samples to 8 bits; 9 shapes x 5 contents", fsh.len() * 5, |t, i| {
        let (w, h) = fsh[i % fsh.len()];
        for (c, al) in LAYOUTS4 {
            let m = content(w, h, c, al, i / fsh.len());
            let ct = [0u8, 4, 2, 6][c - 1];
            let mut fs: Vec<(String, &str, Vec<u8>, bool)> = Vec::new();
            for ft in 0..5 {
                fs.push((format!("8-bit PNG, filter {}", ft), "png", raw_png(w, h, 8, ct, &[], &filtered(&m, ft)), true));
            }
            let lines16: Vec<u8> = m.d.chunks(w * c).flat_map(|r| std::iter::once(0).chain(r.iter().flat_map(|&v| [v as u8, (v as u8).wrapping_mul(31)]))).collect();
            fs.push(("16-bit PNG".into(), "png", raw_png(w, h, 16, ct, &[], &lines16), false));
            if !al {
                let (b, a) = if c == 1 { ("P5", "P2") } else { ("P6", "P3") };
                let ext = if c == 1 { "pgm" } else { "ppm" };
                let d8: Vec<u8> = m.d.iter().map(|&v| v as u8).collect();
                let d16: Vec<u8> = d8.iter().flat_map(|&v| [v, v.wrapping_mul(31)]).collect();
                let txt: String = d8.iter().map(|v| format!("{}\n", v)).collect();
                fs.push((format!("{} 8 bit", b), ext, [format!("{} {} {} 255\n", b, w, h).as_bytes(), &d8].concat(), true));
                fs.push((format!("{} 8 bit", a), ext, format!("{} {} {} 255\n{}", a, w, h, txt).into_bytes(), true));
                fs.push((format!("{} 16 bit", b), ext, [format!("{} {} {} 65535\n", b, w, h).as_bytes(), &d16].concat(), false));
            }
            for (what, ext, bytes, eight) in fs {
                t.case(
                    || format!("reading a {} of {}x{}x{} content {}", what, w, h, c, i / fsh.len()),
                    |t| {
                        t.seen(27, &bytes);
                        let p = file(ext);
                        std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                        match (t.imp(|| io::read(&p))?, eight) {
                            (Ok(b), true) => same(&m, &b),
                            (Err(e), true) => Err(format!("not read: {:?}", e)),
                            (Err(_), false) => Ok(()),
                            (Ok(b), false) => img_close(&b, &m, 1.0, 0.0),
                        }
                    },
                );
            }
        }
        // palette: pixel index -> colour
        let m = content(w, h, 1, false, i / fsh.len());
        let plte: Vec<u8> = (0..256usize).flat_map(|k| [k as u8, (k * 7 + 3) as u8, (255 - k) as u8]).collect();
        let bytes = raw_png(w, h, 8, 3, &plte, &filtered(&m, 0));
        t.case(
            || format!("reading a palette PNG of {}x{} content {}", w, h, i / fsh.len()),
            |t| {
                t.seen(28, &bytes);
                let p = file("png");
                std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                let b = t.imp(|| io::read(&p))?.map_err(|e| format!("not read: {:?}", e))?;
                same(&M::gen(w, h, 3, false, |x, y, k| plte[m.at(x, y, 0) as usize * 3 + k] as f64), &b)
            },
        );
    });
    // BMP and TGA files written out here
    let jsh = [(1usize, 1usize), (2, 1), (1, 3), (3, 2), (5, 4), (8, 8), (17, 3), (3, 40), (64, 33), (33, 64), (200, 120)];
    e.par("foreign-bmp-tga", "BMP (24 bit and 8-bit palette, bottom-up and top-down) and TGA (gray, 24 and 32 bit, both origins, plain and run-length) files made by an independent encoder, 11 shapes x 5 contents: exactly the stored samples", jsh.len() * 5, |t, i| {
        let (w, h) = jsh[i % jsh.len()];
        let k = i / jsh.len();
        let mut fs: Vec<(String, &str, Vec<u8>, M)> = Vec::new();
        let bmp = |bits: u16, down: bool, pal: &[u8], rows: &dyn Fn(usize) -> Vec<u8>| {
            let mut px = Vec::new();
            for y in 0..h {
                let mut r = rows(if down { y } else { h - 1 - y });
                r.resize((r.len() + 3) / 4 * 4, 0);
                px.extend(r);
            }
            let off = 54 + pal.len();
            let mut o = b"BM".to_vec();
            o.extend(((off + px.len()) as u32).to_le_bytes());
            o.extend([0u8; 4]);
            o.extend((off as u32).to_le_bytes());
            o.extend(40u32.to_le_bytes());
            o.extend((w as i32).to_le_bytes());
            o.extend((if down { -(h as i32) } else { h as i32 }).to_le_bytes());
            o.extend(1u16.to_le_bytes());
            o.extend(bits.to_le_bytes());
            o.extend([0u8; 4]);
            o.extend((px.len() as u32).to_le_bytes());
            o.extend([0x13, 0xb, 0, 0, 0x13, 0xb, 0, 0]);
            o.extend((pal.len() as u32 / 4).to_le_bytes());
            o.extend([0u8; 4]);
            o.extend(pal);
            o.extend(px);
            o
        };
        let rgb = content(w, h, 3, false, k);
        let g = content(w, h, 1, false, k);
        let pal: Vec<u8> = (0..256usize).flat_map(|q| [q as u8, (q * 7 + 3) as u8, (255 - q) as u8, 0]).collect();
        for down in [false, true] {
            let d = if down { "top-down" } else { "bottom-up" };
            fs.push((format!("24-bit BMP {}", d), "bmp", bmp(24, down, &[], &|y| (0..w).flat_map(|x| [2, 1, 0].map(|c| rgb.at(x, y, c) as u8)).collect()), rgb.clone()));
            fs.push((
                format!("palette BMP {}", d),
                "bmp",
                bmp(8, down, &pal, &|y| (0..w).map(|x| g.at(x, y, 0) as u8).collect()),
                M::gen(w, h, 3, false, |x, y, c| pal[g.at(x, y, 0) as usize * 4 + 2 - c] as f64),
            ));
            for (c, al) in [(1usize, false), (3, false), (4, true)] {
                let m = content(w, h, c, al, k);
                for rle in [false, true] {
                    let mut o = vec![0u8, 0, if c == 1 { 3 } else { 2 } + if rle { 8 } else { 0 }, 0, 0, 0, 0, 0, 0, 0, 0, 0];
                    o.extend((w as u16).to_le_bytes());
                    o.extend((h as u16).to_le_bytes());
                    o.push(c as u8 * 8);
                    o.push(if al { 8 } else { 0 } | if down { 0x20 } else { 0 });
                    for y in 0..h {
                        let y = if down { y } else { h - 1 - y };
                        let px: Vec<Vec<u8>> = (0..w).map(|x| (0..c).map(|q| m.at(x, y, if q < 3 && c > 1 { 2 - q } else { q }) as u8).collect()).collect();
                        if !rle {
                            o.extend(px.concat());
                            continue;
                        }
                        let mut x = 0;
                        while x < w {
                            let mut n = 1;
                            while x + n < w && n < 128 && px[x + n] == px[x] {
                                n += 1;
                            }
                            // a run, or a raw packet of one pixel
                            o.push(if n > 1 { 0x80 | (n - 1) as u8 } else { 0 });
                            o.extend(&px[x]);
                            x += n;
                        }
                    }
                    fs.push((format!("TGA of {} channels {}{}", c, d, if rle { " run-length" } else { "" }), "tga", o, m.clone()));
                }
            }
        }
        for (what, ext, bytes, m) in fs {
            t.case(
                || format!("reading a {} of {}x{} content {}", what, w, h, k),
                |t| {
                    t.seen(29, &bytes);
                    let p = file(ext);
                    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                    let b = t.imp(|| io::read(&p))?.map_err(|e| format!("not read: {:?}", e))?;
                    same(&m, &b)
                },
            );
        }
    });
    let lsh = [(1usize, 1usize), (2, 1), (1, 3), (3, 2), (5, 4), (8, 8), (17, 3), (3, 40), (64, 33), (33, 64), (16, 200), (200, 16), (200, 120)];
    e.par("jpeg", "JPEG (.jpg and .jpeg) write and read of gray and RGB constants of 6 levels and gradients along x, y and the diagonal, 13 shapes wider, taller and square: dimensions, channels and no alpha exactly, samples within 6 levels (constants) or 24 (gradients)", lsh.len() * 2, |t, i| {
        let (w, h) = lsh[i % lsh.len()];
        let c = [1usize, 3][i / lsh.len()];
        let mut ms: Vec<(String, M, f64)> = Vec::new();
        for v in [0usize, 1, 64, 128, 200, 255] {
            ms.push((format!("constant {}", v), M::gen(w, h, c, false, |_, _, k| if v % 64 == 0 || v == 255 { v as f64 } else { (v + 20 * k) as f64 % 256.0 }), 6.0));
        }
        let at = |p: usize, n: usize| p as f64 / n.max(2) as f64;
        for k in 0..3 {
            // at most about 4 levels per pixel, so that nothing is lost to the quantisation
            let amp = 200f64.min(4.0 * w.min(h) as f64);
            ms.push((
                format!("gradient {}", ["x", "y", "diagonal"][k]),
                M::gen(w, h, c, false, |x, y, _| (20.0 + amp * [at(x, w), at(y, h), (at(x, w) + at(y, h)) / 2.0][k]).floor()),
                24.0,
            ));
        }
        for (what, m, tol) in ms {
            for ext in ["jpg", "jpeg"] {
                t.case(
                    || format!("JPEG (.{}) round trip of a {}x{}x{} {}", ext, w, h, c, what),
                    |t| {
                        let u = m.u8();
                        t.seen(hash_bytes((m.w * 70001 + m.h) as u64, ext.as_bytes()), u.data());
                        let p = file(ext);
                        t.imp(|| io::write(&u, &p))?.map_err(|e| format!("write failed: {:?}", e))?;
                        exact(&M::of(&u)?, &m).map_err(|e| format!("writing modified the image: {}", e))?;
                        let b = t.imp(|| io::read(&p))?.map_err(|e| format!("read failed: {:?}", e))?;
                        img_close(&b, &m, tol, 0.0)
                    },
                );
            }
        }
    });
    e.par("non-images", "every file of at most 1 byte, every 16th two-byte file (thorough: all), text, and PNG signatures followed by junk, under 8 extensions: an error", 256 + 8, |t, i| {
        let exts = ["png", "jpg", "bmp", "tiff", "gif", "ico", "tga", "ppm"];
        let mut fs: Vec<Vec<u8>> = Vec::new();
        if i < 256 {
            fs.push(vec![i as u8]);
            let mut b = i % 16;
            let st = if t.eng.thorough() { 1 } else { 16 };
            if st == 1 {
                b = 0;
            }
            while b < 256 {
                fs.push(vec![i as u8, b as u8]);
                b += st;
            }
        } else {
            fs.push(vec![]);
            fs.push(b"This is not an image, it is a line of text.\n".to_vec());
            fs.push(vec![0; 100]);
            fs.push(vec![0xff; 1000]);
            let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
            fs.push(v.clone());
            v.extend((0..200).map(|k| mix_u8(k, i)));
            fs.push(v);
            fs.push((0..300).map(|k| mix_u8(k, i + 9)).collect());
        }
        for (j, f) in fs.iter().enumerate() {
            let list: &[&str] = if i < 256 { &exts[..2] } else { &exts[i - 256..i - 255] };
            for ext in list {
                t.case(
                    || format!("read {} bytes {:?}.. as .{}", f.len(), &f[..f.len().min(8)], ext),
                    |t| {
                        t.seen((i * 1000 + j) as u64, f);
                        let p = file(ext);
                        std::fs::write(&p, f).map_err(|e| e.to_string())?;
                        if t.imp(|| io::read(&p))?.is_ok() {
                            return Err("a file that is no image was read as one".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    });

    // storage faults while writing
    let exe = std::env::current_exe().unwrap();
    let mut fc: Vec<(usize, usize, usize, usize, &str)> = Vec::new();
    for ext in ["png", "bmp", "tga"] {
        for (w, h, c) in [(1usize, 1usize, 1usize), (4, 4, 3), (9, 7, 4), (120, 90, 3), (200, 150, 4)] {
            if ext == "bmp" && c == 1 {
                continue;
            }
            fc.push((w, h, c, 1, ext));
        }
    }
    e.par("storage-faults", "PNG, BMP and TGA writes of 4-5 images in a process whose file size is limited to N bytes, N at every byte (small files) or every 1/32 of the file (large files): the write reports an error unless the file is complete", fc.len(), |t, i| {
        let (w, h, c, k, ext) = fc[i];
        let m = content(w, h, c, c % 2 == 0, k);
        let p = file(ext);
        if io::write(&m.u8(), &p).is_err() {
            t.case(|| format!("write {} {}x{}x{}", ext, w, h, c), |_| Err("write failed".into()));
            return;
        }
        let len = std::fs::metadata(&p).map(|x| x.len() as usize).unwrap_or(0);
        let mut cuts: Vec<usize> = if len <= 400 && t.eng.thorough() { (0..=len).collect() } else { (0..=32).map(|j| len * j / 32).collect() };
        if len > 8192 {
            cuts.extend([len - 8193, len - 8192]);
        }
        cuts.dedup();
        for n in cuts {
            // the encoder's last buffer (up to 8 KiB) is flushed when it is dropped
            let tail = len - n <= 8192;
            t.case(
                || format!("write {} {}x{}x{} when storage takes {} of {} bytes{}", ext, w, h, c, n, len, if n == len { "" } else if tail { " (fault in the final flush)" } else { " (fault before the final flush)" }),
                |t| {
                    t.seen(i as u64, &(n as u32).to_le_bytes());
                    let _ = std::fs::remove_file(&p);
                    let st = t.imp(|| {
                        std::process::Command::new(&exe).args(["--child-write", &n.to_string(), &w.to_string(), &h.to_string(), &c.to_string(), &k.to_string(), &p]).stdin(std::process::Stdio::null()).status()
                    })?;
                    match st.map_err(|e| e.to_string())?.code() {
                        Some(3) if n < len => Ok(()),
                        Some(3) => Err("write failed although the storage had room".into()),
                        Some(4) => Err("write panicked".into()),
                        Some(0) => match t.imp(|| io::read(&p))? {
                            Ok(b) => same(&m, &b).map_err(|e| format!("write reported success but the file holds another image: {}", e)),
                            Err(e) => Err(format!("write reported success but the file cannot be read: {:?}", e)),
                        },
                        c => Err(format!("the writing process ended with {:?}", c)),
                    }
                },
            );
        }
    });
    let _ = std::fs::remove_dir_all(dir);
    e.finish();
}
