//! Enumeration of schedules: depth-first over deviations from the default schedule.
use vrt::{Kind, Outcome, Rt};

pub mod cold;

pub type Plan = Vec<(u64, u8)>;

#[derive(Clone, Copy)]
pub struct Bounds {
    /// preemptions at control-flow edges and conflicting accesses; at least one when the default
    /// schedules show conflicting accesses (these may be protected by locks)
    pub preempt: usize,
    /// preemptions in all where the further ones are at conflicting accesses only; used when the
    /// default schedules show conflicting accesses at all
    pub conflict: usize,
    /// deviations at free choices (steals, who goes on)
    pub free: usize,
    /// stop after this many schedules (reported as not exhausted)
    pub cap: usize,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub switches: u64,
    pub steals: u64,
    pub joins: u64,
    pub steps: u64,
    pub conflicts: u64,
    pub capped: bool,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.schedules += o.schedules;
        self.switches += o.switches;
        self.steals += o.steals;
        self.joins += o.joins;
        self.steps = self.steps.max(o.steps);
        self.conflicts = self.conflicts.max(o.conflicts);
        self.capped |= o.capped;
    }
}

/// Executes every schedule within the bounds; `exec` runs one and judges it.
pub fn explore(rt: &mut Rt, b: &Bounds, exec: &mut dyn FnMut(&mut Rt, &[(u64, u8)], u8) -> Result<Outcome, String>) -> Result<Stats, String> {
    let mut st = Stats::default();
    let mut stack: Vec<(Plan, usize, usize)> = vec![(vec![], 0, 0)];
    let mut hot = false;
    while let Some((plan, p, f)) = stack.pop() {
        if st.schedules as usize >= b.cap {
            st.capped = true;
            break;
        }
        let trace = if p < b.preempt || (p < b.conflict && (hot || plan.is_empty())) { 2 } else if f < b.free { 1 } else { 0 };
        let o = exec(rt, &plan, trace).map_err(|m| format!("{} [schedule {:?}]", m, plan))?;
        st.schedules += 1;
        st.switches += o.switches;
        st.steals += o.steals;
        st.joins += o.joins;
        st.steps = st.steps.max(o.steps);
        if trace == 0 {
            continue;
        }
        let last = plan.last().map(|x| x.0).unwrap_or(0);
        let conf = if trace == 2 { vrt::conflicts(&o.log) } else { Default::default() };
        if p == 0 && b.conflict > 0 && !conf.is_empty() {
            hot = true;
            st.conflicts = st.conflicts.max(conf.len() as u64);
        }
        let preempt = if hot { b.preempt.max(1) } else { b.preempt };
        let base = stack.len();
        for q in &o.log {
            if q.step <= last || q.alt == 0 {
                continue;
            }
            let (np, nf) = match q.kind {
                Kind::Free => (p, f + 1),
                Kind::Edge => (p + 1, f),
                _ if conf.contains(&(q.addr >> 3)) => (p + 1, f),
                _ => continue,
            };
            let lim = if q.kind == Kind::Load || q.kind == Kind::Store { preempt.max(b.conflict) } else { preempt };
            if np > lim || nf > b.free {
                continue;
            }
            for a in 1..=q.alt {
                let mut n = plan.clone();
                n.push((q.step, a));
                stack.push((n, np, nf));
            }
        }
        stack[base..].reverse();
    }
    Ok(st)
}

/// each process explores on one processor: handing over between strands is then cheap and exact
pub fn pin() {
    let i: usize = std::env::var("VH_SHARD").ok().and_then(|s| s.split('/').next().and_then(|a| a.parse().ok())).unwrap_or(0);
    unsafe {
        let mut old: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut old) != 0 {
            return;
        }
        let av: Vec<usize> = (0..1024).filter(|&k| libc::CPU_ISSET(k, &old)).collect();
        if av.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(av[i % av.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
