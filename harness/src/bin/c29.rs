//! C29: operations are pure: no input is modified and no history is remembered.
use vh::ops::*;
use vh::*;

fn images() -> Vec<M> {
    vec![
        input(6, 5, 3, false, 0),
        input(6, 5, 3, false, 2),
        input(6, 5, 1, false, 0),
        input(6, 5, 1, false, 2),
        input(7, 4, 4, true, 1),
        input(5, 6, 2, true, 0),
        input(33, 3, 3, false, 1),
        // all levels, for arguments that differ a little only
        M::gen(32, 8, 1, false, |x, y, _| (y * 32 + x) as f64),
        M::gen(32, 8, 3, false, |x, y, q| ((y * 32 + x) * [1, 7, 255][q] % 256) as f64),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--fresh").unwrap_or(false) {
        // one operation in a fresh process
        std::panic::set_hook(Box::new(|_| {}));
        let (o, i): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
        let inp = In::new(images()[i].clone());
        let r = (ops().into_iter().chain(more_ops()).chain(near_ops()).nth(o).unwrap().f)(&inp);
        println!("{}", r.fp());
        std::process::exit(0);
    }
    let mut e = Engine::new("C29");
    let mut ops = ops();
    let nbase = ops.len();
    ops.extend(more_ops());
    let near = ops.len();
    ops.extend(near_ops());
    let imgs = images();
    let ni = imgs.len();
    let exe = std::env::current_exe().unwrap();

    // transitions: (operation, image), with the outcome observed in a fresh process
    let mut tr: Vec<(usize, usize)> = Vec::new();
    {
        let ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        for (o, op) in ops.iter().enumerate() {
            for (i, x) in ins.iter().enumerate() {
                // the extended argument grid: on two images of the same dimensions, on a gray and an RGBA one
                if op.fits(x) && (if o < nbase { i < 7 } else if o < near { [0, 1, 2, 4].contains(&i) } else { i >= 7 }) {
                    tr.push((o, i));
                }
            }
        }
    }
    tr.sort_by_key(|x| x.0 >= nbase);
    let fresh: Vec<std::sync::atomic::AtomicU64> = tr.iter().map(|_| std::sync::atomic::AtomicU64::new(0)).collect();
    let only = e.only.take();
    e.par("fresh", "every operation of the alphabet on 7 images, each alone in a process of its own and then alone in a new thread: the outcomes agree and the inputs are untouched", tr.len(), |t, k| {
        let (o, i) = tr[k];
        t.case(
            || format!("{} on image {} in a fresh process", ops[o].name, i),
            |t| {
                let out = t.imp(|| std::process::Command::new(&exe).args(["--fresh", &o.to_string(), &i.to_string()]).output())?.map_err(|e| e.to_string())?;
                let fp: u64 = String::from_utf8_lossy(&out.stdout).trim().parse().map_err(|_| "the call panicked in a fresh process".to_string())?;
                fresh[k].store(fp, std::sync::atomic::Ordering::SeqCst);
                let inp = In::new(imgs[i].clone());
                let r = t.imp(|| std::thread::scope(|s| s.spawn(|| (ops[o].f)(&inp)).join()))?.map_err(|_| "the call panicked".to_string())?;
                t.seen(1, &fp.to_le_bytes());
                inp.untouched()?;
                if r.fp() != fp {
                    return Err(format!("the outcome {} differs from the outcome in a fresh process", r.show()));
                }
                Ok(())
            },
        );
    });

    e.only = only;
    let e = e;
    let want = |k: usize| fresh[k].load(std::sync::atomic::Ordering::SeqCst);
    let step = |t: &mut T, ins: &[In], k: usize| -> Result<(), String> {
        let (o, i) = tr[k];
        let r = t.imp(|| (ops[o].f)(&ins[i])).map_err(|m| format!("{} on image {}: {}", ops[o].name, i, m))?;
        ins[i].untouched().map_err(|m| format!("{} on image {}: {}", ops[o].name, i, m))?;
        if r.fp() != want(k) {
            return Err(format!("{} on image {} gives {}, unlike in a fresh process", ops[o].name, i, r.show()));
        }
        Ok(())
    };

    let all = tr.len();
    let n = tr.iter().filter(|x| x.0 < nbase).count();
    // the same function with every other argument of the extended grid
    e.par("arguments", "all ordered pairs of calls of the same function with any arguments of the extended grid (neighbouring values, other ranges and sizes, rejected ones) on 4 (7) images: the second gives its fresh-process outcome", all, |t, a| {
        let ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        let fa = func(&ops[tr[a].0].name);
        for b in 0..all {
            if func(&ops[tr[b].0].name) != fa || (a < n && b < n) || (ops[tr[a].0].kind != Kind::Any && tr[a].0 >= near) != (ops[tr[b].0].kind != Kind::Any && tr[b].0 >= near) {
                continue;
            }
            if ops[tr[a].0].cost == 2 && tr[a].1 != tr[b].1 && !t.eng.thorough() {
                continue;
            }
            t.case(
                || format!("{} on image {}, then {} on image {}", ops[tr[a].0].name, tr[a].1, ops[tr[b].0].name, tr[b].1),
                |t| {
                    t.seen(6, &[a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8]);
                    step(t, &ins, a)?;
                    step(t, &ins, b)
                },
            );
        }
    });
    e.par("pairs", "all ordered pairs of (operation, image) transitions over shared image objects: the second gives its fresh-process outcome and no image changes", n, |t, a| {
        let ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        for b in 0..n {
            if ops[tr[a].0].cost == 2 && ops[tr[b].0].cost == 2 && tr[a].1 != tr[b].1 && !t.eng.thorough() {
                continue;
            }
            t.case(
                || format!("{} on image {}, then {} on image {}", ops[tr[a].0].name, tr[a].1, ops[tr[b].0].name, tr[b].1),
                |t| {
                    t.seen(2, &[a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8]);
                    step(t, &ins, a)?;
                    step(t, &ins, b)
                },
            );
        }
    });
    // deeper histories over one representative per function
    let reps: Vec<usize> = (0..n).filter(|&k| ops[tr[k].0].rep && ops[tr[k].0].cost < e.b(2, 3) && (tr[k].1 == 0 || (e.thorough() && tr[k].1 == 4) || (tr[k].1 == 2 && ops[tr[k].0].kind == Kind::Gray))).collect();
    let seconds: Vec<usize> = (0..n).filter(|&k| ops[tr[k].0].rep && ops[tr[k].0].cost < e.b(2, 3) && (tr[k].1 == 1 || (e.thorough() && tr[k].1 == 4))).collect();
    e.note("triple_alphabet", format!("{} x {} x {}", reps.len(), seconds.len(), reps.len()));
    e.par("triples", "all histories a, b, c of one representative per function, a and c on one image, b on another image of the same dimensions: every step gives its fresh-process outcome", reps.len(), |t, x| {
        let ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        for &b in &seconds {
            for &c in &reps {
                t.case(
                    || format!("{}, then {} on another image, then {}", ops[tr[reps[x]].0].name, ops[tr[b].0].name, ops[tr[c].0].name),
                    |t| {
                        t.seen(3, &[x as u8, b as u8, (b >> 8) as u8, c as u8, (c >> 8) as u8]);
                        step(t, &ins, reps[x])?;
                        step(t, &ins, b)?;
                        step(t, &ins, c)
                    },
                );
            }
        }
    });
    // the same objects at the same addresses with other contents
    e.par("rewritten-in-place", "every pair of operations with the image objects rewritten in place in between: outcomes follow the contents, not the object", n, |t, a| {
        let (oa, ia) = tr[a];
        let other = match ia { 0 => 1, 1 => 0, 2 => 3, 3 => 2, _ => return };
        let mut ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        let find = |o: usize, i: usize| (0..n).find(|&k| tr[k] == (o, i));
        for ob in 0..nbase {
            if ops[ob].cost == 2 && ops[oa].cost == 2 && oa != ob {
                continue;
            }
            let Some(k) = find(ob, other) else { continue };
            t.case(
                || format!("{} on image {}, the image rewritten in place to image {}, then {}", ops[oa].name, ia, other, ops[ob].name),
                |t| {
                    t.seen(4, &[a as u8, (a >> 8) as u8, ob as u8, (ob >> 8) as u8]);
                    ins[ia].rewrite(&imgs[ia]);
                    step(t, &ins, a)?;
                    ins[ia].rewrite(&imgs[other]);
                    let r = t.imp(|| (ops[ob].f)(&ins[ia]))?;
                    ins[ia].untouched()?;
                    // the second input image depends on the dimensions only
                    if r.fp() != want(k) {
                        return Err(format!("{} gives {}, unlike in a fresh process", ops[ob].name, r.show()));
                    }
                    Ok(())
                },
            );
        }
    });
    // inputs untouched and repeatable at every size
    let mut sh: Vec<(usize, usize)> = Vec::new();
    for w in 1..=e.b(44, 100) {
        sh.push((w, 1));
        sh.push((w, 2));
        sh.push((1, w));
    }
    for s in [(3, 3), (5, 4), (16, 9), (31, 31), (64, 4), (129, 5)] {
        sh.push(s);
    }
    let big = e.b(2, 6);
    for s in [(257, 65), (64, 257), (600, 40), (1031, 17), (20000, 1), (1, 20000)].iter().take(big) {
        sh.push(*s);
    }
    for s in [(300, 257), (70000, 1), (1, 70000), (1101, 1003)] {
        sh.push(s);
    }
    e.par("sizes", "every operation on widths and heights 1..=44 (100), small squares and 2 (6) large shapes x 7 layouts, one representative per function on 300x257, 70000x1, 1x70000 and (the cheaper ones) 1101x1003: twice in a row with another image of the same size in between, same outcome, inputs byte-identical afterwards", sh.len() * 7, |t, k| {
        let (w, h) = sh[k / 7];
        let (c, al) = LAYOUTS[k % 7];
        let (a, b) = (In::new(input(w, h, c, al, 0)), In::new(input(w, h, c, al, 2)));
        let small = In::new(input(1, 1, 1, false, 0));
        for op in ops.iter().filter(|o| !o.more || w * h < 40) {
            if !op.fits(&a) || (w * h > 200 && op.cost == 2) || (w * h > 1500 && (op.cost > 0 || c > 4)) || (op.cost > 0 && k % 7 > 3 && w * h > 20)
                || (w * h > 1_000_000 && (op.cost > 0 || k % 7 > 0 && op.fits(&small)))
                || (w * h > 60000 && (!op.rep || k % 7 > 2 || (w.max(h) == 70000 && ["rotate", "shear"].contains(&func(&op.name))))) {
                continue;
            }
            t.case(
                || format!("{} twice on {}x{}x{}{} with another image in between", op.name, w, h, c, if al { "a" } else { "" }),
                |t| {
                    let x = t.imp(|| (op.f)(&a))?;
                    let _ = t.imp(|| (op.f)(&b))?;
                    let y = t.imp(|| (op.f)(&a))?;
                    t.seen(5, &x.fp().to_le_bytes());
                    a.untouched()?;
                    b.untouched()?;
                    if x.fp() != y.fp() {
                        return Err(format!("first {}, then {}", x.show(), y.show()));
                    }
                    Ok(())
                },
            );
        }
    });
    let big: Vec<usize> = (0..ops.len()).filter(|&o| ops[o].rep && ops[o].cost < 2).collect();
    let small = In::new(input(1, 1, 1, false, 0));
    e.par("after large images", "one representative per function on a 1101x1003 image, then every (operation, image) transition: each gives its fresh-process outcome", big.len(), |t, k| {
        let op = &ops[big[k]];
        let c = if op.fits(&small) { 1 } else { 3 };
        let a = In::new(input(1101, 1003, c, false, 0));
        if !op.fits(&a) {
            return;
        }
        let ins: Vec<In> = imgs.iter().map(|m| In::new(m.clone())).collect();
        t.case(
            || format!("{} on 1101x1003x{}, then everything else", op.name, c),
            |t| {
                t.seen(78, &[k as u8, (k >> 8) as u8]);
                t.imp(|| (op.f)(&a))?;
                t.beat();
                for b in 0..n {
                    step(t, &ins, b).map_err(|e| format!("then {} on image {}: {}", ops[tr[b].0].name, tr[b].1, e))?;
                }
                Ok(())
            },
        );
    });
    // counters that wrap: more calls than 16 bits count
    let many: Vec<usize> = (0..nbase).filter(|&o| ops[o].rep && ops[o].cost < 2).collect();
    e.par("many calls", "one representative per function (all but the most expensive) called 66000 times by one thread on one image of 2 pixels: every call gives the same outcome", many.len(), |t, k| {
        let op = &ops[many[k]];
        let a = [1usize, 3].iter().map(|&c| In::new(input(2, 1, c, false, 0))).find(|a| op.fits(a));
        let Some(a) = a else { return };
        t.case(
            || format!("{} 66000 times", op.name),
            |t| {
                let first = t.imp(|| (op.f)(&a))?.fp();
                t.seen(79, &[k as u8, (k >> 8) as u8]);
                let t0 = std::time::Instant::now();
                for j in 0..66u32 {
                    let bad = t.imp(|| (0..1000).find(|_| (op.f)(&a).fp() != first))?;
                    if let Some(b) = bad {
                        return Err(format!("call {} differs from the first", j * 1000 + b + 2));
                    }
                    t.beat();
                    // slow ones (pools, files): as many as the time allows, at least 2000
                    if j > 0 && t0.elapsed().as_secs() > t.eng.b(12, 120) as u64 {
                        break;
                    }
                }
                a.untouched()
            },
        );
    });
    let _ = ni;
    e.finish();
}
