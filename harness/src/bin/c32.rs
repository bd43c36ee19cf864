//! C32: every feature configuration computes the same results.
//! In configuration `none` the outcome of every transition is recorded; in every other configuration
//! the same transitions are executed and compared with the record.
use std::cell::RefCell;
use std::io::Write;
use vh::ops::*;
use vh::*;

fn main() {
    let cfg = std::env::var("VH_CONFIG").unwrap_or_default();
    let dir = std::path::Path::new(&std::env::var("VH_WORK").unwrap_or(".".into())).join("c32-ref");
    let e = Engine::new("C32");
    let record = cfg == "none";
    let ops: Vec<Op> = ops().into_iter().chain(more_ops()).chain(wide_ops()).chain(place_ops()).filter(|o| !o.name.starts_with("avg_checked_256")).collect();
    let mut sh: Vec<(usize, usize)> = Vec::new();
    for w in 1..=e.b(70, 140) {
        sh.push((w, 1));
        sh.push((w, 2));
        if w <= e.b(20, 70) || w % 8 < 3 {
            sh.push((w, 3));
            sh.push((1, w));
            sh.push((3, w));
        }
    }
    for s in [(4, 4), (5, 7), (8, 8), (13, 11), (16, 16), (17, 31), (40, 20), (127, 5), (128, 4), (257, 3)] {
        sh.push(s);
    }
    for s in [(100, 41), (41, 100), (513, 9), (64, 64), (2049, 2), (1, 4099)].iter().take(e.b(3, 6)) {
        sh.push(*s);
    }
    e.note("operations", ops.len().to_string());
    // large images with few layouts: one representative per function
    let nsh = sh.len();
    for s in [(300, 257), (70000, 1), (1, 70000), (1031, 67), (1101, 1003)] {
        sh.push(s);
    }
    let large = |n: usize| n > 60000;
    // the 7 usual layouts everywhere; no colour at all, and many channels, on small images
    const NL: usize = 14;
    let lays: Vec<(usize, bool)> = LAYOUTS.iter().cloned().chain([(1, true), (5, false), (6, true), (9, false), (16, true), (33, false), (255, true)]).collect();
    let odd = |(w, h): (usize, usize)| [(1, 1), (2, 1), (1, 2), (3, 2), (7, 1), (8, 1), (9, 2), (11, 1), (16, 2), (33, 1), (64, 1), (5, 7), (1, 9)].contains(&(w, h));
    let tasks: Vec<usize> = (0..sh.len() * NL).filter(|k| if k % NL >= 7 { odd(sh[k / NL]) } else { k / NL < nsh || [0, 2].contains(&(k % NL)) || (k / NL == nsh && k % NL == 3) }).collect();
    let text = "every operation of the alphabet (with the extended argument grid on up to 9 pixels and on every fifth (every) shape) on every shape (widths 1..=70 (140) x heights 1, 2, 3 and transposed, squares, long rows) x 7 channel layouts, 7 further layouts (alpha only, 5 to 255 channels) on 13 small shapes, and one representative per function (on 1101x1003: every cheap operation) on 300x257, 70000x1, 1x70000, 1031x67 and 1101x1003 images: same acceptance, dimensions and samples as the build without features";
    e.par("configurations", text, tasks.len(), |t, k| {
        let k = tasks[k];
        let (w, h) = sh[k / NL];
        let (c, al) = lays[k % NL];
        let n = w * h;
        let file = dir.join(format!("{}.bin", k));
        let buf = RefCell::new(Vec::new());
        let refs: Vec<u8> = if record { vec![] } else { std::fs::read(&file).unwrap_or_default() };
        let mut p = 0;
        let a = In::new(input(w, h, c, al, k % 3));
        let small = In::new(input(1, 1, 1, false, 0));
        for op in ops.iter() {
            if n > 1_000_000 && (op.cost > 1 || c > 1 && op.fits(&small)) {
                continue;
            }
            if large(n) && (!op.rep && (n < 1_000_000 || op.more || op.cost > 0) || op.cost == 2 || (w.max(h) == 70000 && ["rotate", "shear"].contains(&func(&op.name)))) {
                continue;
            }
            if !op.fits(&a) || (op.more && !e.thorough() && (k / NL) % 5 != k % 5 && n > 9) || (n > 600 && op.cost == 2) || (n > 140 && op.cost > 0 && (c > 3 || large(n) && c > 1) && !e.thorough()) || (k % NL > 3 && op.cost == 2 && n > 30) || (k % NL >= 7 && (op.cost == 2 || k % NL == 7 && func(&op.name).starts_with("rgb_to_grayscale") ||  c > 20 && op.cost > 0 && n > 9 || c == 255 && op.name.ends_with("of other channels"))) {
                continue;
            }
            let want = if record || p >= refs.len() { None } else { get(&refs, &mut p) };
            let mut done = false;
            t.case(
                || format!("{} on {}x{}x{}{}", op.name, w, h, c, if al { "a" } else { "" }),
                |t| {
                    t.seen(1, &[k as u8, (k >> 8) as u8]);
                    if record {
                        let o = t.imp(|| (op.f)(&a))?;
                        t.seen(2, &o.fp().to_le_bytes());
                        put(&mut buf.borrow_mut(), Some(&o));
                        done = true;
                        return Ok(());
                    }
                    let o = t.imp(|| (op.f)(&a))?;
                    t.seen(2, &o.fp().to_le_bytes());
                    match &want {
                        // the plain build panicked here: reported there
                        None => Ok(()),
                        Some(x) => same(op, x, &o),
                    }
                },
            );
            if record && !done {
                put(&mut buf.borrow_mut(), None);
            }
        }
        if record {
            let _ = std::fs::File::create(&file).and_then(|mut f| f.write_all(&buf.borrow()));
        }
    });
    e.finish();
}
