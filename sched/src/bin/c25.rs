//! C25: the multithreaded build gives the sequential result under every schedule.
//! Built without features it records the sequential outcome of every transition; built with
//! `parallel` it executes the same transitions under every schedule within the bounds.
use sched::*;
use std::path::PathBuf;
use vh::ops::*;
use vh::*;
use vrt::{Outcome, Rt};

type Shape = (usize, usize, usize, bool, usize);

fn small(thorough: bool) -> Vec<Shape> {
    let mut v = vec![(1, 1, 1, false, 0), (2, 1, 3, false, 0), (1, 3, 1, false, 0), (2, 2, 1, false, 0), (2, 2, 3, false, 0), (2, 2, 4, true, 1), (3, 1, 2, true, 1), (3, 2, 3, false, 0), (2, 3, 1, false, 0)];
    if thorough {
        v.extend([(3, 3, 1, false, 0), (5, 1, 3, false, 2), (1, 6, 4, true, 1), (4, 2, 1, false, 2)]);
    }
    v
}

fn shapes(thorough: bool) -> Vec<Shape> {
    let mut v = Vec::new();
    for w in 1..=if thorough { 70 } else { 36 } {
        let (c, a) = LAYOUTS4[w % 4];
        v.push((w, 1, c, a, 0));
        v.push((w, 3, LAYOUTS4[(w + 1) % 4].0, LAYOUTS4[(w + 1) % 4].1, 1));
        v.push((1, w, 1, false, 0));
        v.push((2, w, 3, false, 2));
    }
    for s in [(5, 5), (8, 8), (7, 9), (16, 6), (9, 14)] {
        v.push((s.0, s.1, 1, false, 0));
        v.push((s.0, s.1, 3, false, 0));
        v.push((s.0, s.1, 4, true, 0));
    }
    for s in [(65, 4), (128, 3), (3, 130), (257, 2), (31, 33), (1000, 1), (1, 1000)] {
        v.push((s.0, s.1, 1, false, 0));
        v.push((s.0, s.1, 3, false, 0));
    }
    for s in [(300, 257), (70000, 1), (1, 70000)] {
        v.push((s.0, s.1, 1, false, 0));
        v.push((s.0, s.1, 3, false, 0));
    }
    if thorough {
        for s in [(64, 64), (513, 5), (5, 513), (4097, 1), (1, 4097)] {
            v.push((s.0, s.1, 1, false, 0));
            v.push((s.0, s.1, 3, false, 0));
        }
    }
    v
}

fn load(p: PathBuf) -> Vec<Option<Out>> {
    let b = std::fs::read(p).unwrap_or_default();
    let (mut p, mut v) = (0, Vec::new());
    while p < b.len() {
        v.push(get(&b, &mut p));
    }
    v
}

fn one(rt: &mut Rt, op: &Op, inp: &In, want: &Out, plan: &[(u64, u8)], tr: u8, threads: usize) -> Result<Outcome, String> {
    let mut res = None;
    let mut body = || res = Some(caught(|| (op.f)(inp)));
    cold::restore();
    let o = rt.run(plan, tr, threads, &mut [&mut body]);
    if let Some(d) = o.dead {
        return Err(d.into());
    }
    match res {
        Some(Ok(r)) => same(op, want, &r).map_err(|m| format!("unlike the sequential build: {}", m))?,
        Some(Err(m)) => return Err(m),
        None => return Err("the call produced no result".into()),
    }
    Ok(o)
}

fn main() {
    pin();
    let statics = cold::init();
    let record = cfg!(not(feature = "parallel"));
    let dir = std::path::Path::new(&std::env::var("VH_WORK").unwrap_or(".".into())).join("c25-ref");
    let e = Engine::new("C25");
    let ops: Vec<Op> = ops().into_iter().chain(more_ops()).filter(|o| !o.name.starts_with("avg_checked_256")).collect();
    let (sm, lg) = (small(e.thorough()), shapes(e.thorough()));
    let fits = |s: &Shape, o: &Op, i: &In| o.fits(i) && !(s.0 * s.1 > 60000 && (!o.rep || o.cost > 1 || (o.cost > 0 && s.2 > 1) || (s.0.max(s.1) == 70000 && ["rotate", "shear"].contains(&func(&o.name))))) && !(o.more && (s.0 * s.1 > 60 || s.0 % 5 != s.1 % 3)) && !(s.0 * s.1 > 700 && s.0 * s.1 < 60000 && o.cost > 0) && !(s.0 * s.1 > 100 && o.cost > 1);
    if record {
        for (tag, list) in [("small", &sm), ("shape", &lg)] {
            e.par(tag, "sequential outcomes recorded", list.len(), |t, k| {
                let s = list[k];
                let inp = In::new(input(s.0, s.1, s.2, s.3, s.4));
                let mut buf = Vec::new();
                t.case(
                    || format!("every operation on a {}x{}x{} image in the sequential build", s.0, s.1, s.2),
                    |t| {
                        for op in ops.iter().filter(|o| fits(&s, o, &inp)) {
                            let r = caught(|| (op.f)(&inp)).ok();
                            t.count(1, 1);
                            put(&mut buf, r.as_ref());
                        }
                        Ok(())
                    },
                );
                let _ = std::fs::write(dir.join(format!("{}{}.bin", tag, k)), &buf);
            });
        }
        e.finish();
    }

    // (image, position of the operation in the record, operation)
    let tasks: Vec<(usize, usize, usize)> = sm
        .iter()
        .enumerate()
        .flat_map(|(k, s)| {
            let inp = In::new(input(s.0, s.1, s.2, s.3, s.4));
            ops.iter().enumerate().filter(|(_, o)| fits(s, o, &inp)).map(|(i, _)| i).enumerate().map(|(pos, i)| (k, pos, i)).collect::<Vec<_>>()
        })
        .collect();
    let refs: Vec<Vec<Option<Out>>> = (0..sm.len()).map(|k| load(dir.join(format!("small{}.bin", k)))).collect();
    let mut rts: Vec<Rt> = (1..=4).map(|n| Rt::new(1, n, adopt)).collect();
    let rts = std::sync::Mutex::new(&mut rts);
    let total = std::sync::Mutex::new((Stats::default(), Stats::default(), 0u64));
    let th = e.thorough();

    e.par(
        "stealing",
        "every operation on 9 (13) images of 1..=6 (9) pixels, pools of 2, 3 (4) threads: every schedule of the joins (who runs next, what is stolen by whom) when the default run has at most 5 joins, else every schedule with up to 2 (3) departures from the default",
        tasks.len() * e.b(2, 3),
        |t, k| {
            let (img, pos, o) = tasks[k % tasks.len()];
            let n = 2 + k / tasks.len();
            let s = sm[img];
            let op = &ops[o];
            let Some(Some(want)) = refs[img].get(pos) else { return };
            let inp = In::new(input(s.0, s.1, s.2, s.3, s.4));
            let mut g = rts.lock().unwrap();
            let rt = &mut g[n - 1];
            t.case(
                || format!("{} on a {}x{}x{}{} image, pool of {} threads, every steal schedule", op.name, s.0, s.1, s.2, if s.3 { "a" } else { "" }, n),
                |t| {
                    let d = one(rt, op, &inp, want, &[], 0, n)?;
                    t.count(1, 1);
                    if d.joins == 0 {
                        return Ok(());
                    }
                    let full = d.joins <= if n == 2 { 5 } else { 3 };
                    let b = Bounds { preempt: 0, conflict: 0, free: if full { 10_000 } else if th { 3 } else { 2 }, cap: if th { 400_000 } else { 30_000 } };
                    let mut c = 0u32;
                    let mut r = Stats::default();
                    for &cold in cold::modes() {
                    cold::set(cold);
                    let v = explore(rt, &b, &mut |rt, plan, tr| {
                        let o = one(rt, op, &inp, want, plan, tr, n)?;
                        t.count(o.switches + 1, 1);
                        t.seen(1, &[o.sched.to_le_bytes().as_slice(), &(k as u32).to_le_bytes()].concat());
                        c += 1;
                        if c % 1000 == 0 {
                            t.beat();
                        }
                        Ok(o)
                    });
                    cold::set(false);
                    r.add(&v.map_err(|m| if cold { format!("{} (first call of the process)", m) } else { m })?);
                    }
                    inp.untouched()?;
                    let mut g = total.lock().unwrap();
                    g.0.add(&r);
                    g.2 += 1;
                    Ok(())
                },
            );
        },
    );

    let reps: Vec<usize> = (0..tasks.len())
        .filter(|&k| {
            let (img, _, o) = tasks[k];
            let s = sm[img];
            (ops[o].rep || th) && s.0 * s.1 <= if th { 6 } else { 4 } && (th || [1usize, 3, 5].contains(&img))
        })
        .collect();
    e.par(
        "interleavings",
        "one representative per function (all) on images of up to 4 (6) pixels, pool of 2 threads: every schedule with one preemption at any control-flow edge, up to 1 (2) steal decisions (none (1) when the default run has more than 4 joins), and up to 2 (3) preemptions at conflicting memory accesses",
        reps.len(),
        |t, k| {
            let (img, pos, o) = tasks[reps[k]];
            let s = sm[img];
            let op = &ops[o];
            let Some(Some(want)) = refs[img].get(pos) else { return };
            let inp = In::new(input(s.0, s.1, s.2, s.3, s.4));
            let mut g = rts.lock().unwrap();
            let rt = &mut g[1];
            t.case(
                || format!("{} on a {}x{}x{}{} image, pool of 2 threads, every interleaving", op.name, s.0, s.1, s.2, if s.3 { "a" } else { "" }),
                |t| {
                    let d = one(rt, op, &inp, want, &[], 0, 2)?;
                    t.count(1, 1);
                    if d.joins == 0 {
                        return Ok(());
                    }
                    let b = Bounds { preempt: 1, conflict: if th { 3 } else { 2 }, free: if d.joins > 4 { th as usize } else { 1 + th as usize }, cap: if th { 2_000_000 } else { 250_000 } };
                    let mut c = 0u32;
                    let mut r = Stats::default();
                    for &cold in cold::modes() {
                    cold::set(cold);
                    let v = explore(rt, &b, &mut |rt, plan, tr| {
                        let o = one(rt, op, &inp, want, plan, tr, 2)?;
                        t.count(o.switches + 1, 1);
                        t.seen(2, &[o.sched.to_le_bytes().as_slice(), &(k as u32).to_le_bytes()].concat());
                        c += 1;
                        if c % 1000 == 0 {
                            t.beat();
                        }
                        Ok(o)
                    });
                    cold::set(false);
                    r.add(&v.map_err(|m| if cold { format!("{} (first call of the process)", m) } else { m })?);
                    }
                    inp.untouched()?;
                    total.lock().unwrap().1.add(&r);
                    if r.capped || r.conflicts > 0 {
                        t.eng.note(&format!("{} {}x{}", op.name, s.0, s.1), format!("{:?}", r));
                    }
                    Ok(())
                },
            );
        },
    );

    e.par(
        "shapes",
        "every operation on widths and heights 1..=36 (70), squares and long rows, one representative per function on 300x257, 70000x1 and 1x70000: pools reported as 1, 2, 3, 4, 7, 8, 16, 64, 200 threads whose first or last 1-4 threads take part x 5 stealing policies (none, always by the last, always by the next, two varying ones)",
        lg.len(),
        |t, k| {
            let s = lg[k];
            let refs = load(dir.join(format!("shape{}.bin", k)));
            let inp = In::new(input(s.0, s.1, s.2, s.3, s.4));
            let mut g = rts.lock().unwrap();
            for (pos, op) in ops.iter().filter(|o| fits(&s, o, &inp)).enumerate() {
                let Some(Some(want)) = refs.get(pos) else { continue };
                let big = s.0 * s.1 > 60 && op.cost > 0;
                t.case(
                    || format!("{} on a {}x{}x{}{} image, all pool sizes and stealing policies", op.name, s.0, s.1, s.2, if s.3 { "a" } else { "" }),
                    |t| {
                        for (threads, policy, high) in [(1usize, 0u8, false), (2, 0, false), (2, 1, false), (3, 2, false), (4, 3, false), (7, 4, false), (8, 1, true), (16, 3, false), (16, 2, true), (64, 0, false), (64, 2, true), (200, 3, true), (3, 4, true), (2, 3, true)] {
                            if big && policy > 1 && !th {
                                continue;
                            }
                            let rt = &mut g[threads.min(4) - 1];
                            rt.policy = policy;
                            rt.high = high;
                            let r = one(rt, op, &inp, want, &[], 0, threads);
                            rt.policy = 0;
                            rt.high = false;
                            let o = r.map_err(|m| format!("{} (pool of {}, policy {})", m, threads, policy))?;
                            t.count(o.switches + 1, 1);
                            t.seen(3, &[o.sched.to_le_bytes().as_slice(), &(k as u32).to_le_bytes(), &(pos as u32).to_le_bytes()].concat());
                            if o.joins == 0 {
                                break;
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    let g = total.lock().unwrap();
    e.note("statics", format!("{} mutable statics in the crate: {}", statics, if statics > 0 { "every schedule also from a cold start" } else { "warm and cold starts are the same" }));
    e.note("stealing", format!("{} parallel (operation, image, pool) instances, {:?}", g.2, g.0));
    e.note("interleavings", format!("{:?}", g.1));
    drop(g);
    e.finish();
}
