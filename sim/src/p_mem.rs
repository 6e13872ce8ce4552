//! D01: nothing is left behind. The same work is done several times over; once everything made in it has been dropped
//! and freed, no memory the library took may remain from any of the repetitions.
use crate::env::*;
use crate::geom::*;
use crate::p_build::*;
use crate::p_trace::{deform, gen_ray};
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use glam::*;
use rtbvh::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const ROUNDS: u32 = 4;

pub fn generate(_: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed, ..Default::default() };
    if r.chance(1, 2) { sc.pools.push(r.pick(&[1usize, 2, 2, 3, 4])); }
    let np = sc.pools.len();
    let big = r.chance(1, 30);
    let many = !big && r.chance(1, 50);
    let nthreads = if big { 1 } else if many { r.range(8, 24) } else { r.pick(&[1usize, 2, 2, 3]) };
    let refuse = r.chance(1, 3);
    let mut own = Vec::new();
    for _ in 0..1 + r.below(2) {
        let n = if big { r.range(200, 500) } else { r.pick(&[1, 2, 5, 20, 60, 120]) };
        let n = r.range(n, n + n / 2);
        let deep = r.chance(1, 5);
        let s = if deep { let n = r.range(60, 110); gen_deep(&mut r, n) } else { gen_scene(&mut r, n, true) };
        sc.scenes.push(s);
        let i = sc.scenes.len() - 1;
        let s = sc.scenes[i].clone();
        let mut q = gen_spec(&mut r, i, &s, 0);
        if deep { q.algo = 0; q.leaf = 1; }
        q.ctx = -1;
        sc.trees.push(q);
    }
    // triangles for the C interface
    let n = r.range(1, 60);
    let mut s = gen_scene(&mut r, n, false);
    if s.ball { s = gen_scene(&mut r, 3, false); }
    sc.scenes.push(s);
    let csc = sc.scenes.len() - 1;
    let commons = if refuse { 0 } else { r.pick(&[0usize, 1, 2, 4]) };
    sc.note = commons.to_string();
    for _ in 0..nthreads {
        let mut v = Vec::new();
        for _ in 0..if many { 1 } else { r.range(1, 4) } {
            let tree = r.below(sc.trees.len());
            let ctx = if np > 0 && r.chance(1, 3) { 0 } else { -1 };
            v.push(match r.below(20) {
                0..=6 => {
                    // every build has primitives of its own, so that a fault belongs to one build
                    if sc.scenes.len() >= 14 { continue; }
                    let n = if big { r.range(1030, 1600) } else { gen_n(&mut r).min(130) };
                    let s = gen_scene_build(&mut r, n);
                    sc.scenes.push(s);
                    let i = sc.scenes.len() - 1;
                    own.push(i);
                    let s = sc.scenes[i].clone();
                    let mut q = gen_spec(&mut r, i, &s, np);
                    if big && q.algo == 1 { q.algo = 0; }
                    Op::Build(q)
                }
                7..=8 => Op::Convert { tree, raw: r.below(8) as u8, ctx },
                9..=10 => { let n = sc.scenes[sc.trees[tree].scene].n(); Op::Refit { tree, seed: r.next(), cut: if r.chance(1, 2) { 1 + r.below(n) } else { 0 } } }
                11..=12 => Op::Trace { tree, how: r.below(8) as u8, policy: 0, seed: r.next(), rays: r.range(1, 6), ctx },
                13 => Op::Packet { tree, how: r.below(8) as u8, policy: 0, seed: r.next(), rays: r.range(1, 4), ctx },
                14..=15 => Op::Save { tree, format: r.below(2) as u8, wide: r.chance(1, 2), seed: r.next() },
                // a C program has no way to survive a panic, which is what a refused thread leads to
                _ if refuse => { let n = sc.scenes[sc.trees[tree].scene].n(); Op::Refit { tree, seed: r.next(), cut: r.below(n) } }
                _ => Op::Ffi { what: if commons > 0 { r.below(3) as u8 } else { 0 }, a: csc, b: 0, seed: r.next() },
            });
        }
        sc.threads.push(v);
    }
    // all threads of all rounds together stay within what the simulator can hold
    let nmax = own.iter().map(|i| sc.scenes[*i].n()).max().unwrap_or(1);
    let nbuilds = own.len().max(1);
    sc.threshold = if big { 1024 } else { (nmax / 12).max(1 + r.below(nmax / 2 + 2)).max(nbuilds) };
    sc.cfg = gen_cfg(&mut r, refuse);
    for set in own {
        if r.chance(if refuse { 1 } else { 2 }, 3) {
            let n = sc.scenes[set].n();
            let at = match r.below(5) { 0 => 1 + r.below(4), 1 => 1 + r.below(n + 1), 2 => 1 + r.below(3 * n + 1), 3 => 1 + r.below(8 * n + 1), _ => 1 + r.below(60 * n + 1) };
            sc.faults.push(CbFault { set, panic_at: at as u64, again: r.pick(&[0u64, 0, 1, 3, 50]), ..Default::default() });
        }
    }
    sc
}

fn trace(env: &'static Env, t: &Bvh, s: &Spec, how: u8, packet: bool, seed: u64, rays: usize) {
    let set = &env.sets[s.scene];
    let scale = env.scene(s.scene).scale();
    fn some<I: Iterator>(mut it: I, k: usize) { for _ in 0..k { if it.next().is_none() { return; } } }
    let mut r = Rng::new(seed);
    // every other time all boxes are the same, so that a ray visits all of the tree and as many nodes as can be wait
    let same = if seed & 3 < 2 { let mut c = t.clone(); let b = quiet(|| { let mut b = Aabb::empty(); for x in set.exact { b.grow_bb(x); } vec![b; set.exact.len()] }); c.refit(&b); quiet(|| drop(b)); Some(c) } else { None };
    let t = same.as_ref().unwrap_or(t);
    let m = if how & 2 != 0 { Some(Mbvh::construct(t)) } else { None };
    for _ in 0..rays {
        let k = if r.chance(1, 2) { r.below(6) } else { usize::MAX };
        let (o, d) = if set.balls.is_empty() { gen_ray(&mut r, set.tris, scale) } else { gen_ray(&mut r, set.balls, scale) };
        count(9, 1);
        if packet {
            let x = |a: f32| vec4(a, a, a, a);
            let mut p = RayPacket4::new([x(o.x), x(o.y), x(o.z)].map(|v| v).into_iter().chain([x(0.)]).collect::<Vec<_>>().try_into().unwrap(), [x(d.x), x(d.y), x(d.z), x(0.)]);
            match (&m, how & 1) {
                (None, 0) => if set.balls.is_empty() { some(t.traverse_iter_packet(&mut p, set.tris), k) } else { some(t.traverse_iter_packet(&mut p, set.balls), k) },
                (None, _) => some(t.traverse_iter_indices_packet(&mut p), k),
                (Some(m), 0) => if set.balls.is_empty() { some(m.traverse_iter_packet(&mut p, set.tris), k) } else { some(m.traverse_iter_packet(&mut p, set.balls), k) },
                (Some(m), _) => some(m.traverse_iter_indices_packet(&mut p), k),
            }
        } else {
            let mut q = Ray::new(o, d);
            match (&m, how & 1) {
                (None, 0) => if set.balls.is_empty() { some(t.traverse_iter(&mut q, set.tris), k) } else { some(t.traverse_iter(&mut q, set.balls), k) },
                (None, _) => some(t.traverse_iter_indices(&mut q), k),
                (Some(m), 0) => if set.balls.is_empty() { some(m.traverse_iter(&mut q, set.tris), k) } else { some(m.traverse_iter(&mut q, set.balls), k) },
                (Some(m), _) => some(m.traverse_iter_indices(&mut q), k),
            }
        }
    }
}
fn silent() { unsafe { (*SH).panic[0] = 0; } }
fn thread(env: &'static Env, ti: usize) {
    let base = |tree: usize| -> (&'static Bvh, Spec) { let s = env.sc.trees[tree]; (unsafe { &*BASES[tree] }, s) };
    for (oi, op) in env.sc.threads[ti].iter().enumerate() {
        match op {
            Op::Build(s) => match env.build_op(s, (ti * 100 + oi * 2 + 2) as u32) { Ok(t) => drop(t), Err(_) => { count(7, 1); silent() } },
            Op::Convert { tree, raw, ctx } => {
                let (b, _) = base(*tree);
                let raw = *raw;
                let m = env.within(*ctx, move || match raw { 1 => Mbvh::construct_from_raw(b.nodes(), b.indices()), 2 => Mbvh::from(b.clone()), 3 => { let (n, i) = b.clone().into_raw(); Mbvh::construct_from_raw(&n, &i) } _ => Mbvh::construct(b) });
                count(15, 1);
                match raw { 4 => drop(m.into_raw_indices()), 5 => drop(m.into_raw_nodes()), 6 => drop(m.into_raw()), 7 => { let c = m.clone(); drop(m); drop(c) } _ => drop(m) }
            }
            Op::Refit { tree, seed, cut } => {
                let (b, s) = base(*tree);
                let boxes = quiet(|| deform(env.scene(s.scene), *seed).aabbs());
                let mut t = b.clone();
                let k = if *cut > 0 { (*cut).min(boxes.len() - 1) } else { boxes.len() };
                let r = catch_unwind(AssertUnwindSafe(|| t.refit(&boxes[..k])));
                match r { Ok(()) => count(16, 1), Err(e) => { drop(e); count(17, 1); silent() } }
                match *seed % 4 { 0 => drop(t.into_raw_indices()), 1 => drop(t.into_raw_nodes()), 2 => drop(t.into_raw()), _ => drop(t) }
                quiet(|| drop(boxes));
            }
            Op::Trace { tree, how, seed, rays, ctx, .. } => { let (b, s) = base(*tree); let (how, seed, rays) = (*how, *seed, *rays); env.within(*ctx, move || trace(env, b, &s, how, false, seed, rays)) }
            Op::Packet { tree, how, seed, rays, ctx, .. } => { let (b, s) = base(*tree); let (how, seed, rays) = (*how, *seed, *rays); env.within(*ctx, move || trace(env, b, &s, how, true, seed, rays)) }
            Op::Save { tree, format, wide, seed } => {
                let (b, _) = base(*tree);
                if *wide { let m = Mbvh::construct(b); crate::p_serde::round_trip(b, Some(&m), *format, *seed); drop(m) } else { crate::p_serde::round_trip(b, None, *format, *seed) }
            }
            Op::Ffi { what: 0, a, seed, .. } => crate::p_ffi::cycle(env, *a, *seed),
            Op::Ffi { seed, .. } => for i in 0..4 { crate::p_ffi::shared(env, mix(*seed ^ i)) },
            _ => {}
        }
    }
}
static mut BASES: Vec<*const Bvh> = Vec::new();
pub fn run(sc: &'static Scenario) {
    let env: &'static Env = setup(sc);
    for s in &sc.trees {
        let t = match env.build_op(s, 1) { Ok(t) => t, Err(p) => viol("setup", &p) };
        quiet(|| unsafe { BASES.push(Box::into_raw(Box::new(t))) });
    }
    let est = est_steps(sc) + sc.threads.iter().flatten().map(|o| match o { Op::Trace { rays, .. } | Op::Packet { rays, .. } => 3000 * *rays as u64, Op::Ffi { .. } => 100_000, Op::Save { .. } => 100_000, Op::Convert { .. } | Op::Refit { .. } => 10_000, _ => 100 }).sum::<u64>() + 2000;
    let commons: usize = sc.note.parse().unwrap_or(0);
    let alive = unsafe { rt_alive() };
    for round in 1..=ROUNDS {
        unsafe { rt_round(round); }
        if commons > 0 { crate::p_ffi::share(env, sc.trees.len(), commons, sc.seed); }
        run_threads(env, est, est * 100 + 200_000_000, thread);
        crate::p_ffi::unshare();
        // whatever a build that panicked has left running comes to its end
        let mut patience = 200;
        while unsafe { rt_alive() } > alive && patience > 0 { std::thread::sleep(std::time::Duration::from_millis(5)); patience -= 1; }
        unsafe { rt_round(0); for c in CTL.iter_mut() { *c = CTL0; } }
        count(34, 1);
        let now = unsafe { rt_alive() };
        if now > alive { viol("left", &format!("{} threads were still there a second after everything made in round {} of the work had been dropped", now - alive, round)); }
    }
    let left = unsafe { rt_survivors(2, ROUNDS) };
    count(35, left as u64);
}
