//! C01 - C06: parallel construction.
use crate::env::*;
use crate::geom::*;
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use crate::tree::*;

pub fn gen_spec(r: &mut Rng, scene: usize, s: &Scene, pools: usize) -> Spec {
    let algo = if s.ball { r.below(2) as u8 } else { r.pick(&[0u8, 0, 1, 2, 2, 2]) };
    Spec {
        scene, algo,
        leaf: r.pick(&[0usize, 0, 0, 1, 1, 2, 3, 4, 8, 16]),
        boxes: r.pick(&[0u8, 0, 1, 1, 2]),
        ctx: if pools > 0 && r.chance(1, 3) { r.below(pools) as i32 } else { -1 },
    }
}
/// sizes: mostly small, where interleavings are dense, sometimes large enough for the shipped threshold
pub fn gen_n(r: &mut Rng) -> usize {
    match r.below(20) { 0 => r.range(1, 4), 1..=7 => r.range(5, 40), 8..=15 => r.range(40, 160), _ => if r.chance(1, 5) { r.range(500, 1100) } else { r.range(160, 500) } }
}
pub fn gen_threshold(r: &mut Rng, n: usize) -> usize {
    match r.below(6) { 0 => 1, 1 => 2, 2 => 4, 3 => 1 + r.below(n.max(2) / 2 + 1), 4 => 1 + n / 8, _ => 8 }
}

pub fn generate(prof: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed, ..Default::default() };
    let c06 = prof == "C06";
    // a share of the runs uses the shipped spawning threshold and a scene large enough to reach it
    let big = r.chance(1, 22);
    // and a few a scene well beyond any size the library could treat specially
    let huge = big && r.chance(1, 14);
    // or with numbers beyond sixteen bits: of primitives (crowds of identical ones), or of nodes as well
    let vast = huge && !c06 && r.chance(1, 5);
    let crowd = big && !huge && !c06 && r.chance(1, 50);
    // or a long history of small builds
    let long = !big && !c06 && r.chance(1, 40);
    // or more threads than anything per thread could be numbered for
    let many = !big && !long && !c06 && r.chance(1, 60);
    let npools = r.pick(&[0usize, 0, 1, 1, 2]);
    for _ in 0..npools { sc.pools.push(r.pick(&[1usize, 1, 2, 2, 3, 4, 8])); }
    let nthreads = if big { 1 } else if many { r.range(9, 50) } else if long { r.range(1, 2) } else { r.pick(&[1usize, 1, 2, 2, 3, 4, 5]) };
    let nscenes = if c06 { 0 } else { 1 + r.below(nthreads.min(3)) };
    for _ in 0..nscenes {
        let n = if vast { r.range(34_000, 36_000) } else if huge { r.range(3600, 9500) } else if big { r.range(1030, 3500) } else if long { r.range(1, 24) } else if many { r.range(1, 10) } else { let n = gen_n(&mut r); if nthreads > 3 { n.min(120) } else { n } };
        let s = if crowd { gen_crowd(&mut r, true) } else { gen_scene_build(&mut r, n) };
        sc.scenes.push(s);
    }
    for _ in 0..nthreads {
        let nops = if big || many { 1 } else if long { r.range(8, 25) } else { r.pick(&[1usize, 1, 2, 3]) };
        let mut v = Vec::new();
        for _ in 0..nops {
            let mk = |r: &mut Rng, sc: &mut Scenario| {
                let i = if c06 && sc.scenes.len() < 12 {
                    // every operation has its own primitives, so that each fault belongs to one operation
                    let n = if big { r.range(1030, 2600) } else { gen_n(r).min(200) };
                    let s = gen_scene_build(r, n);
                    sc.scenes.push(s);
                    sc.scenes.len() - 1
                } else if c06 { return None } else { r.below(sc.scenes.len()) };
                let s = sc.scenes[i].clone();
                let mut q = gen_spec(r, i, &s, npools);
                // clustering never starts threads of its own, and takes a number of rounds like the number of primitives
                // where distances are equal
                if big && q.algo == 1 && (s.n() > 1600 || r.chance(1, 2)) { q.algo = if s.ball { 0 } else { 2 }; }
                if crowd || vast { q.algo = 0; }
                if vast { q.leaf = 1; }
                if huge && q.algo == 2 && s.n() > 4200 { q.algo = 0; }
                Some(q)
            };
            let join = !c06 && !big && npools > 0 && r.chance(1, 4);
            let a = mk(&mut r, &mut sc);
            if join { let b = mk(&mut r, &mut sc); if let (Some(mut a), Some(mut b)) = (a, b) { let c = a.ctx.max(0); a.ctx = -1; b.ctx = -1; v.push(Op::Join(a, b, c)); } }
            else if let Some(a) = a { v.push(Op::Build(a)); }
        }
        sc.threads.push(v);
    }
    let nmax = sc.scenes.iter().map(|s| s.n()).max().unwrap_or(1);
    sc.threshold = if big { 1024 } else if nmax > 400 { gen_threshold(&mut r, nmax).max(4) } else { gen_threshold(&mut r, nmax) };
    let refuse = c06 && r.chance(1, 2);
    sc.cfg = gen_cfg(&mut r, refuse);
    if c06 {
        let k = sc.scenes.len();
        for set in 0..k {
            if r.chance(if refuse { 1 } else { 2 }, 3) {
                let n = sc.scenes[set].n() as u64;
                let at = match r.below(6) { 0 => 1 + r.below(4) as u64, 1 => 1 + r.below(n as usize + 1) as u64, 2 => 1 + r.below(2 * n as usize + 1) as u64, 3 => 1 + r.below(8 * n as usize + 1) as u64, 4 => 1 + r.below(60 * n as usize + 1) as u64, _ => 1 + n + r.below(n as usize * 3 + 1) as u64 };
                sc.faults.push(CbFault { set, panic_at: at, again: r.pick(&[0u64, 0, 1, 3, 50]), ..Default::default() });
            }
        }
    }
    if r.chance(1, 4) && !sc.scenes.is_empty() {
        let set = r.below(sc.scenes.len());
        if !sc.faults.iter().any(|f| f.set == set) { sc.faults.push(CbFault { set, slow_every: 1 + r.below(40) as u64, slow_ns: r.log(10, 1_000_000) as u64, ..Default::default() }); }
    }
    sc
}

pub fn specs(sc: &Scenario) -> Vec<Spec> {
    let mut v = Vec::new();
    for t in &sc.threads { for o in t { match o { Op::Build(a) => v.push(*a), Op::Join(a, b, _) => { v.push(*a); v.push(*b) } _ => {} } } }
    v.extend(sc.trees.iter().copied());
    v
}
/// steps a build is expected to take (measured; only steers the schedulers)
pub fn est_steps(sc: &Scenario) -> u64 {
    specs(sc).iter().map(|s| { let n = sc.scenes[s.scene].n() as u64; 3000 + n * match s.algo { 0 => 2500, 1 => 2500, _ => 9000 } }).sum()
}

fn judge(env: &'static Env, s: &Spec, t: &rtbvh::Bvh) {
    quiet(|| {
        let prof = env.sc.profile.as_str();
        let what = || format!("build {:?} of {} primitives", s, env.scene(s.scene).n());
        unsafe { rt_hash(t.nodes().len() as u64) };
        match env.check_structure(s, t) {
            Err(e) => viol("structure", &format!("{}: {}", what(), e)),
            Ok(leaves) => {
                count(4, leaves.len() as u64);
                unsafe { let d = depth(&leaves) as u64; let u = &mut (*SH).user; if d > u[5] { u[5] = d; } }
                if prof == "C02" || prof == "C01" { if let Err(e) = env.check_enclosure(s, t, &leaves) { viol("enclosure", &format!("{}: {}", what(), e)); } }
            }
        }
        if let Some(r) = env.refs.get(&Spec { ctx: -1, ..*s }) {
            let c = canon(t.nodes(), t.indices());
            if c != r.canon {
                let i = c.iter().zip(&r.canon).position(|(a, b)| a != b).unwrap_or(c.len().min(r.canon.len()));
                viol("differs", &format!("{} differs from the same build done serially: position {} of the canonical form is {:x?} instead of {:x?} (lengths {} and {})", what(), i, c.get(i), r.canon.get(i), c.len(), r.canon.len()));
            }
            count(6, 1);
        }
    })
}
fn finish(env: &'static Env, s: &Spec, tag: u32, r: Result<rtbvh::Bvh, String>) {
    match r {
        Ok(t) => {
            let f = unsafe { CTL[s.scene].fired };
            if f > 0 && env.sc.profile == "C06" { viol("fault", &format!("the user's panic in build {:?} was swallowed: the build returned a tree", s)); }
            judge(env, s, &t);
            drop(t);
        }
        Err(p) => {
            let c06 = env.sc.profile == "C06";
            let fired = unsafe { CTL[s.scene].fired } > 0;
            let refused = unsafe { rt_refused(tag) } > 0;
            if c06 && (fired || refused) { count(7, 1); return; }
            viol("panic", &format!("build {:?} of {} primitives panicked: {}", s, env.scene(s.scene).n(), p));
        }
    }
}
fn thread(env: &'static Env, ti: usize) {
    for (oi, op) in env.sc.threads[ti].iter().enumerate() {
        let tag = (ti * 100 + oi * 2 + 2) as u32;
        match op {
            Op::Build(s) => { let r = env.build_op(s, tag); finish(env, s, tag, r); }
            Op::Join(a, b, ctx) => {
                let (ra, rb) = env.within(*ctx, || rayon::join(|| env.build_op(a, tag), || env.build_op(b, tag + 1)));
                finish(env, a, tag, ra);
                finish(env, b, tag + 1, rb);
            }
            _ => {}
        }
    }
}
pub fn run(sc: &'static Scenario) {
    let env = setup(sc);
    let prof = sc.profile.as_str();
    let need_ref = matches!(prof, "C03" | "C04" | "C06");
    let env: &'static Env = if need_ref {
        let mut v = specs(sc);
        if prof == "C03" {
            // the library's own boxes and the caller's exact boxes must lead to the same tree
            let env2 = env.reference(&v);
            for s in v.iter_mut() { if s.boxes == 0 { s.boxes = 1 } else if s.boxes == 1 { s.boxes = 0 } s.ctx = -1; }
            let env3 = env2.reference(&v);
            for s in &v {
                if s.boxes == 2 { continue; }
                let a = &env3.ref_of(&Spec { boxes: 0, ..*s }).canon;
                let b = &env3.ref_of(&Spec { boxes: 1, ..*s }).canon;
                if a != b { viol("differs", &format!("build {:?}: computed and supplied boxes lead to different trees", s)); }
            }
            env3
        } else { env.reference(&v) }
    } else { env };
    let (est, cap) = if need_ref {
        let total: u64 = specs(sc).iter().map(|s| env.ref_of(s).steps).sum();
        (total, total * 200 + 50_000_000)
    } else { (est_steps(sc), est_steps(sc) * 100 + 150_000_000) };
    run_threads(env, est, cap, thread);
    if prof == "C04" || prof == "C06" {
        let mut tag = 0;
        let w = unsafe { rt_tag_worst(&mut tag) };
        if w > 4000 { viol("leak", &format!("a thread started by operation {} was still working when the build returned ({} more steps)", tag, if w == !0 { "endlessly".into() } else { w.to_string() })); }
        count(8, 1);
    }
    if prof == "C06" {
        // later builds in the same process, faults gone
        unsafe { rt_set_cap(rt_steps() + cap); }
        for s in specs(sc) {
            let mut q = s;
            if q.ctx >= 0 { q.ctx = -1; }
            unsafe { CTL[q.scene] = CTL0; }
            match env.build_op(&q, 1) {
                Ok(t) => { judge(env, &q, &t); drop(t) }
                Err(p) => viol("fault", &format!("a build after the faults had stopped panicked: {:?}: {}", q, p)),
            }
            if s.ctx >= 0 { match env.build_op(&s, 1) { Ok(t) => { judge(env, &s, &t); drop(t) } Err(p) => viol("fault", &format!("a build in a used pool after the faults had stopped panicked: {:?}: {}", s, p)) } }
        }
    }
}
