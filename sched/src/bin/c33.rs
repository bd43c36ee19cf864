//! C33: concurrent callers do not interfere.
use sched::*;
use vh::ops::*;
use vh::*;
use vrt::{Outcome, Rt};

struct Call<'a> {
    op: &'a Op,
    inp: &'a In,
    want: Result<Out, String>,
}

fn one(rt: &mut Rt, calls: &[&Call], plan: &[(u64, u8)], tr: u8, threads: usize) -> Result<Outcome, String> {
    let mut res: Vec<Option<Result<Out, String>>> = calls.iter().map(|_| None).collect();
    let o = {
        let mut bodies: Vec<Box<dyn FnMut() + '_>> = calls.iter().zip(res.iter_mut()).map(|(c, r)| Box::new(move || *r = Some(caught(|| (c.op.f)(c.inp)))) as Box<dyn FnMut() + '_>).collect();
        let mut refs: Vec<&mut dyn FnMut()> = bodies.iter_mut().map(|b| &mut **b as &mut dyn FnMut()).collect();
        cold::restore();
        rt.run(plan, tr, threads, &mut refs)
    };
    if let Some(d) = o.dead {
        return Err(d.into());
    }
    for (c, r) in calls.iter().zip(&res) {
        match (r, &c.want) {
            (Some(Ok(r)), Ok(w)) => same(c.op, w, r).map_err(|m| format!("{}: {}, unlike when it runs alone", c.op.name, m))?,
            (Some(Err(m)), Ok(_)) => return Err(format!("{}: {}", c.op.name, m)),
            (None, _) => return Err(format!("{} produced no result", c.op.name)),
            _ => {}
        }
    }
    Ok(o)
}

fn main() {
    pin();
    let statics = cold::init();
    let e = Engine::new("C33");
    let th = e.thorough();
    let par = cfg!(feature = "parallel");
    let mut ops = ops();
    ops.extend(more_ops());
    // images: six of the same dimensions with other contents, one of other dimensions; colour and gray
    let fill = |c: usize, k: usize| {
        M::gen(2, 2, c, false, |x, y, q| match k {
            // every colour image has a black and a white sample
            _ if c == 3 && x + y + q == 0 => 0.0,
            _ if c == 3 && x + y + q == 4 => 255.0,
            0 | 2 => input(2, 2, c, false, k).at(x, y, q),
            3 => 150.0 + ((x * 40 + y * 20 + q * 7) % 100) as f64,
            4 => ((x * 50 + y * 30 + q * 11) % 120) as f64,
            5 => if (x + y + q) % 2 == 0 { 255.0 } else { 0.0 },
            _ => if x == 0 { 200.0 - q as f64 * 9.0 } else { 60.0 + y as f64 },
        })
    };
    let imgs: Vec<In> = [3usize, 1].iter().flat_map(|&c| [0usize, 2, 3, 4, 5, 6].iter().map(move |&k| (c, k))).map(|(c, k)| In::new(fill(c, k))).chain([In::new(input(3, 1, 3, false, 1)), In::new(input(1, 3, 1, false, 1))]).collect();
    // every operation on the colour image unless it needs a gray one
    let mut calls: Vec<Vec<Call>> = Vec::new();
    let mut constant = 0;
    for op in &ops {
        let base = if op.fits(&imgs[0]) && !matches!(caught(|| (op.f)(&imgs[0])), Ok(Out::Rejected)) { 0 } else { 6 };
        if !op.fits(&imgs[base]) {
            continue;
        }
        // a first and a second image on which the outcomes differ, one of other dimensions
        let fp = |i: usize| caught(|| (op.f)(&imgs[i])).map(|o| o.fp()).unwrap_or(0);
        let (mut a, mut b) = (base, base + 1);
        'find: for x in base..base + 6 {
            for y in base..base + 6 {
                if fp(x) != fp(y) {
                    (a, b) = (x, y);
                    break 'find;
                }
            }
        }
        if fp(a) == fp(b) {
            constant += 1;
        }
        calls.push([a, b, 12 + base / 6].into_iter().chain(base..base + 6).map(|i| Call { op, inp: &imgs[i], want: caught(|| (op.f)(&imgs[i])) }).collect());
    }
    // two different calls of the same function: images of the same dimensions on which the difference shows most
    let pick = |a: usize, b: usize| -> (usize, usize) {
        let diff = |k: usize| match (&calls[a][k].want, &calls[b][k].want) {
            (Ok(Out::Img { d: x, .. }), Ok(Out::Img { d: y, .. })) if x.len() == y.len() => x.iter().zip(y).filter(|(p, q)| (*p - *q).abs() > 1.0).count() + x.iter().zip(y).rev().take(2).filter(|(p, q)| (*p - *q).abs() > 1.0).count(),
            (Ok(x), Ok(y)) => (x.fp() != y.fp()) as usize,
            _ => 0,
        };
        let mut v: Vec<usize> = (3..9).collect();
        v.sort_by_key(|&k| usize::MAX - diff(k));
        if diff(v[0]) == 0 { (0, 1) } else { (v[0], v[1]) }
    };
    let n = calls.len();
    e.note("constant", format!("{} of {} calls have the same outcome on every image (rejections, kernels)", constant, n));
    // steps of each call, to bound the pairs by cost
    let mut rts = [Rt::new(2, if par { 2 } else { 0 }, adopt), Rt::new(3, if par { 2 } else { 0 }, adopt)];
    let mut len = vec![0u64; n];
    let mut joins = vec![0u64; n];
    let mut panics = vec![false; n];
    for i in 0..n {
        // alone: the second caller performs the cheapest call
        let cheap = n - 1;
        let r = one(&mut rts[0], &[&calls[i][0], &calls[cheap][0]], &[], 0, 2);
        match r {
            Ok(o) => {
                len[i] = o.steps;
                joins[i] = o.joins;
            }
            Err(_) => panics[i] = true,
        }
    }
    let rep: Vec<usize> = (0..n).filter(|&i| calls[i][0].op.rep && !matches!(calls[i][0].want, Ok(Out::Rejected))).collect();
    let heavy = |i: usize| len[i] > 4000;
    // (a, b, mode): 0 the same image object, 1 same dimensions and other contents, 2 other dimensions
    let mut pairs: Vec<(usize, usize, usize)> = Vec::new();
    for a in 0..n {
        for b in a..n {
            let fam = func(&calls[a][0].op.name) == func(&calls[b][0].op.name);
            let more = calls[a][0].op.more || calls[b][0].op.more;
            let both = rep.contains(&a) && rep.contains(&b);
            if par {
                // pool shared by the callers: only calls that use it
                if joins[a] > 0 && joins[b] > 0 && (both || fam) && (th || joins[a] + joins[b] < 10) {
                    pairs.push((a, b, 1));
                    if a == b {
                        pairs.push((a, b, 0));
                    }
                }
                continue;
            }
            if !cfg!(feature = "simd") && !th {
                // what differs from the vectorised build are single operations
                if fam && !more && (a == b || !(heavy(a) || heavy(b))) {
                    pairs.push((a, b, 1));
                }
                continue;
            }
            if th || both || fam {
                let h = heavy(a) || heavy(b);
                if h && !fam && !th && heavy(a) && heavy(b) {
                    continue;
                }
                if more && !th {
                    // the extended argument grid: with every call of the same function, on images of the same dimensions
                    if fam {
                        pairs.push((a, b, 1));
                    }
                    continue;
                }
                pairs.push((a, b, 1));
                if (!h && both) || th || (fam && (a == b || !h)) {
                    pairs.push((a, b, 0));
                }
                if (fam && !h) || th || a == b {
                    pairs.push((a, b, 2));
                }
            }
        }
    }
    e.note("statics", format!("{} mutable statics in the crate: {}", statics, if statics > 0 { "every schedule also from a cold start" } else { "warm and cold starts are the same" }));
    e.note("alphabet", format!("{} calls, {} representatives, {} pairs", n, rep.len(), pairs.len()));
    let rt = std::sync::Mutex::new(&mut rts);
    let total = std::sync::Mutex::new(Stats::default());
    let text = if !par && !cfg!(feature = "simd") && !th {
        "scalar build: pairs of calls of the same function with any arguments of the alphabet on images of the same dimensions, called by two threads; every schedule with one preemption at any control-flow edge, and up to 2 preemptions at conflicting memory accesses when there are any"
    } else if par {
        "pairs of multithreaded operations called by two threads sharing a pool of two workers (3 strands and more): every schedule with up to 2 (3) departures at joins, steals and completions, and every schedule with one preemption at any control-flow edge"
    } else {
        "pairs of operations called by two threads: all pairs of one representative per function and all pairs of calls of the same function with any arguments of the alphabet (all pairs), on the same image object, on two images of the same dimensions, on images of other dimensions; every schedule with one preemption at any control-flow edge, and up to 2 (3) preemptions at conflicting memory accesses when there are any (longer calls of the extended argument grid: those at conflicting accesses only)"
    };
    e.par(if par { "pool" } else { "pairs" }, text, pairs.len(), |t, k| {
        let (a, b, m) = pairs[k];
        let fam = a != b && m == 1 && func(&calls[a][0].op.name) == func(&calls[b][0].op.name);
        let (ia, ib) = if fam { pick(a, b) } else { (0, m) };
        let (x, y) = (&calls[a][ia], &calls[b][ib]);
        let mut g = rt.lock().unwrap();
        let rt = &mut g[0];
        t.case(
            || format!("{} and {} at the same time on {}", x.op.name, y.op.name, ["the same image", "images of the same dimensions", "images of different dimensions"][m]),
            |t| {
                let mut c = 0u32;
                let mut go = |rt: &mut Rt, bd: Bounds| {
                    explore(rt, &bd, &mut |rt, plan, tr| {
                        let o = one(rt, &[x, y], plan, tr, 2)?;
                        t.count(o.switches + 1, 1);
                        t.seen(1, &[o.sched.to_le_bytes().as_slice(), &(k as u32).to_le_bytes()].concat());
                        c += 1;
                        if c % 1000 == 0 {
                            t.beat();
                        }
                        Ok(o)
                    })
                };
                let cap = if th { 1_000_000 } else { 100_000 };
                let mut r = Stats::default();
                for &cold in cold::modes() {
                    cold::set(cold);
                    let mut all = || -> Result<(), String> {
                        if par {
                            r.add(&go(rt, Bounds { preempt: 0, conflict: 0, free: if th { 3 } else { 2 }, cap })?);
                            r.add(&go(rt, Bounds { preempt: 1, conflict: 0, free: th as usize, cap })?);
                        } else {
                            let wide = th || !(x.op.more || y.op.more) || len[a] + len[b] < 1200;
                            r.add(&go(rt, Bounds { preempt: wide as usize, conflict: if th { 3 } else { 2 }, free: 1, cap })?);
                        }
                        Ok(())
                    };
                    let v = all();
                    cold::set(false);
                    v.map_err(|m| if cold { format!("{} (first calls of the process)", m) } else { m })?;
                }
                x.inp.untouched()?;
                y.inp.untouched()?;
                if r.capped || r.conflicts > 0 {
                    t.eng.note(&format!("{} + {}", x.op.name, y.op.name), format!("{:?}", r));
                }
                total.lock().unwrap().add(&r);
                Ok(())
            },
        );
    });
    // three callers
    let tri: Vec<usize> = (0..n).filter(|&i| if par { joins[i] > 0 && joins[i] < 8 } else { (th || cfg!(feature = "simd")) && rep.contains(&i) } && !panics[i]).collect();
    if tri.is_empty() {
        e.note("schedules", format!("{:?}", *total.lock().unwrap()));
        e.finish();
    }
    e.par(
        "three callers",
        "three threads calling the same operation, two on one image and one on another of the same dimensions: every schedule with one preemption at any control-flow edge and every order of the calls",
        tri.len(),
        |t, k| {
            let i = tri[k];
            let mut g = rt.lock().unwrap();
            let rt = &mut g[1];
            let cs = [&calls[i][0], &calls[i][1], &calls[i][0]];
            t.case(
                || format!("three threads calling {}", cs[0].op.name),
                |t| {
                    let mut c = 0u32;
                    let f = if par { 1 } else if len[i] > 4000 && !th { 1 } else { 2 };
                    let mut r = Stats::default();
                    for &cold in cold::modes() {
                    cold::set(cold);
                    let v = explore(rt, &Bounds { preempt: (!par || th) as usize, conflict: if par { 0 } else { 2 }, free: f, cap: if th { 1_000_000 } else { 100_000 } }, &mut |rt, plan, tr| {
                        let o = one(rt, &cs, plan, tr, 2)?;
                        t.count(o.switches + 1, 1);
                        t.seen(2, &[o.sched.to_le_bytes().as_slice(), &(k as u32).to_le_bytes()].concat());
                        c += 1;
                        if c % 1000 == 0 {
                            t.beat();
                        }
                        Ok(o)
                    });
                    cold::set(false);
                    r.add(&v.map_err(|m| if cold { format!("{} (first calls of the process)", m) } else { m })?);
                    }
                    cs[0].inp.untouched()?;
                    if r.capped || r.conflicts > 0 {
                        t.eng.note(&format!("3 x {}", cs[0].op.name), format!("{:?}", r));
                    }
                    total.lock().unwrap().add(&r);
                    Ok(())
                },
            );
        },
    );
    e.note("schedules", format!("{:?}", *total.lock().unwrap()));
    e.finish();
}
