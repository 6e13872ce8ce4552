//! Oracles over finished trees. Everything here judges what the public accessors show, nothing else.
use crate::geom::*;
use glam::*;
use rtbvh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Exact, Spatial }

/// A leaf as reached from the root.
pub struct Leaf { pub first: u32, pub count: u32, pub path: Vec<u32> }

/// C01: references in range, no node twice, leaf ranges disjoint, every primitive reachable.
pub fn structure(nodes: &[BvhNode], idx: &[u32], n: usize, kind: Kind) -> Result<Vec<Leaf>, String> {
    if nodes.is_empty() { return Err("the tree has no nodes".into()); }
    let mut seen = vec![false; nodes.len()];
    let mut used = vec![false; idx.len()];
    let mut cnt = vec![0u32; n];
    let mut leaves = Vec::new();
    let mut stack: Vec<(u32, Vec<u32>)> = vec![(0, vec![])];
    let mut refs = 0usize;
    while let Some((i, path)) = stack.pop() {
        if i as usize >= nodes.len() { return Err(format!("node reference {} outside the {} stored nodes", i, nodes.len())); }
        if seen[i as usize] { return Err(format!("node {} is reached twice", i)); }
        seen[i as usize] = true;
        let nd = &nodes[i as usize];
        let mut p = path;
        p.push(i);
        if nd.is_leaf() {
            let c = nd.get_count_unchecked() as usize;
            if c == 0 { if n > 0 && nodes.len() == 1 { return Err("the only leaf is empty".into()); } leaves.push(Leaf { first: 0, count: 0, path: p }); continue; }
            let f = match nd.get_left_first() { Some(f) => f as usize, None => return Err(format!("leaf {} has no first index", i)) };
            if f + c > idx.len() { return Err(format!("leaf {} covers {}..{} of {} stored indices", i, f, f + c, idx.len())); }
            for k in f..f + c {
                if used[k] { return Err(format!("index slot {} belongs to two leaves", k)); }
                used[k] = true;
                let id = idx[k] as usize;
                if id >= n { return Err(format!("leaf {} references primitive {} of {}", i, id, n)); }
                cnt[id] += 1;
                refs += 1;
            }
            leaves.push(Leaf { first: f as u32, count: c as u32, path: p });
        } else {
            match nd.get_left_first() {
                None => return Err(format!("node {} is neither a leaf nor has children", i)),
                Some(l) => { stack.push((l, p.clone())); stack.push((l.wrapping_add(1), p)); }
            }
        }
    }
    for (i, c) in cnt.iter().enumerate() {
        if *c == 0 { return Err(format!("primitive {} of {} is in no leaf", i, n)); }
        if kind == Kind::Exact && *c != 1 { return Err(format!("primitive {} of {} is in {} leaves", i, n, c)); }
    }
    if kind == Kind::Spatial && refs * 4 > n * 7 { return Err(format!("{} references for {} primitives", refs, n)); }
    Ok(leaves)
}

fn contains(b: &Aabb, c: &Aabb) -> bool { (0..3).all(|k| b.min[k] <= c.min[k] && b.max[k] >= c.max[k]) }
pub fn show(b: &Aabb) -> String { format!("[{} {} {} .. {} {} {}]", b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z) }

/// C02, exact form: every box on the path to a leaf contains the whole box of each primitive in it.
pub fn enclosure_exact(nodes: &[BvhNode], idx: &[u32], leaves: &[Leaf], boxes: &[Aabb]) -> Result<(), String> {
    for l in leaves {
        for k in l.first..l.first + l.count {
            let id = idx[k as usize] as usize;
            for (d, nd) in l.path.iter().enumerate() {
                if !contains(&nodes[*nd as usize].bounds, &boxes[id]) {
                    return Err(format!("box {} of node {} (depth {} of {}) does not contain box {} of primitive {}", show(&nodes[*nd as usize].bounds), nd, d, l.path.len() - 1, show(&boxes[id]), id));
                }
            }
        }
    }
    Ok(())
}

type P = DVec3;
/// clips a convex polygon to coordinate `ax` <= `v` (sgn 1) or >= v (sgn -1)
fn clip(p: &[P], ax: usize, v: f64, sgn: f64) -> Vec<P> {
    let mut out = Vec::with_capacity(p.len() + 1);
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let (da, db) = ((v - a[ax]) * sgn, (v - b[ax]) * sgn);
        if da >= 0.0 { out.push(a); }
        if (da >= 0.0) != (db >= 0.0) { let t = da / (da - db); out.push(a + (b - a) * t); }
    }
    out
}
fn extent(p: &[P]) -> f64 {
    let mut m = 0.0f64;
    for a in p { for b in p { m = m.max((*a - *b).abs().max_element()); } }
    m
}
/// parts of polygon `p` outside box (lo, hi)
fn subtract(p: Vec<P>, lo: P, hi: P, out: &mut Vec<Vec<P>>) {
    let mut rest = p;
    for ax in 0..3 {
        for (v, sgn) in [(lo[ax], -1.0), (hi[ax], 1.0)] {
            // outside part of this plane
            let o = clip(&rest, ax, v, -sgn);
            if o.len() >= 1 && o.iter().any(|q| (v - q[ax]) * sgn < 0.0) { out.push(o); }
            rest = clip(&rest, ax, v, sgn);
            if rest.is_empty() { return; }
        }
    }
}
/// C02 for clipped references: the boxes on the paths to the leaves that hold a primitive together cover it.
/// The triangle is cut against each path's common box in double precision; nothing may be left over.
pub fn enclosure_spatial(nodes: &[BvhNode], idx: &[u32], leaves: &[Leaf], s: &Scene, slack: f64) -> Result<u64, String> {
    let n = s.n();
    let mut by: Vec<Vec<usize>> = vec![Vec::new(); n];
    let mut commons = Vec::with_capacity(leaves.len());
    for (li, l) in leaves.iter().enumerate() {
        let mut lo = DVec3::splat(-1e300);
        let mut hi = DVec3::splat(1e300);
        for nd in &l.path { let b = &nodes[*nd as usize].bounds; lo = lo.max(b.min.as_dvec3()); hi = hi.min(b.max.as_dvec3()); }
        commons.push((lo - DVec3::splat(slack), hi + DVec3::splat(slack)));
        for k in l.first..l.first + l.count { by[idx[k as usize] as usize].push(li); }
    }
    let mut pieces = 0;
    for i in 0..n {
        let v = s.tri(i);
        let mut left: Vec<Vec<P>> = vec![v.iter().map(|q| q.as_dvec3()).collect()];
        for li in &by[i] {
            let mut next = Vec::new();
            for p in left { subtract(p, commons[*li].0, commons[*li].1, &mut next); }
            left = next;
            // a leftover thinner than rounding is no hole
            left.retain(|p| extent(p) > slack * 0.01);
            pieces += 1 + left.len() as u64;
            if left.is_empty() { break; }
        }
        if let Some(p) = left.first() {
            let c = p.iter().fold(DVec3::ZERO, |a, b| a + *b) / p.len() as f64;
            return Err(format!("point ({}, {}, {}) of triangle {} is outside the boxes on every path to a leaf that references it ({} leaves, uncovered piece of extent {:e})", c.x, c.y, c.z, i, by[i].len(), extent(p)));
        }
    }
    Ok(pieces)
}

/// C03: the tree up to numbering. Boxes bit for bit in depth-first order, primitives per leaf sorted.
pub fn canon(nodes: &[BvhNode], idx: &[u32]) -> Vec<u32> {
    let mut out = Vec::new();
    if nodes.is_empty() { return out; }
    let mut stack = vec![0u32];
    let mut guard = 0;
    while let Some(i) = stack.pop() {
        guard += 1;
        if guard > nodes.len() + 1 { out.push(0xdead); return out; }
        let nd = match nodes.get(i as usize) { Some(n) => n, None => { out.push(0xbad0); continue; } };
        for k in 0..3 { out.push(nd.bounds.min[k].to_bits()); out.push(nd.bounds.max[k].to_bits()); }
        if nd.is_leaf() {
            let c = nd.get_count_unchecked() as usize;
            let f = nd.get_left_first().unwrap_or(0) as usize;
            out.push(0x1000_0000 | c as u32);
            let mut v: Vec<u32> = (f..f + c).map(|k| idx.get(k).copied().unwrap_or(!0)).collect();
            v.sort();
            out.extend(v);
        } else {
            out.push(0x2000_0000);
            match nd.get_left_first() { Some(l) => { stack.push(l + 1); stack.push(l); } None => out.push(0xbad1) }
        }
    }
    out
}
pub fn depth(leaves: &[Leaf]) -> usize { leaves.iter().map(|l| l.path.len() - 1).max().unwrap_or(0) }

/// Slots of a four-wide tree in the order a traversal meets them.
pub struct Slot { pub lo: Vec3, pub hi: Vec3, pub child: i32, pub count: i32, pub boxes: Vec<(Vec3, Vec3)> }
/// Leaves reachable in a four-wide tree; every leaf with all slot boxes above it (its own last).
pub fn mbvh_leaves(m: &[MbvhNode], nidx: usize) -> Result<Vec<Slot>, String> {
    let mut out = Vec::new();
    if m.is_empty() { return Ok(out); }
    let mut seen = vec![false; m.len()];
    let mut stack: Vec<(i32, Vec<(Vec3, Vec3)>)> = vec![(0, vec![])];
    while let Some((i, boxes)) = stack.pop() {
        if i < 0 || i as usize >= m.len() { return Err(format!("four-wide node reference {} outside the {} stored", i, m.len())); }
        if seen[i as usize] { return Err(format!("four-wide node {} is reached twice", i)); }
        seen[i as usize] = true;
        let nd = &m[i as usize];
        let (ax, ay, az) = nd.min_points();
        let (bx, by, bz) = nd.max_points();
        for k in 0..4 {
            let (lo, hi) = (vec3(ax[k], ay[k], az[k]), vec3(bx[k], by[k], bz[k]));
            let (c, cnt) = (nd.children[k], nd.counts[k]);
            // what a traversal would do with this slot
            if cnt > 0 {
                if c < 0 || c as usize + cnt as usize > nidx { return Err(format!("slot {} of four-wide node {} covers {}..{} of {} indices", k, i, c, c as i64 + cnt as i64, nidx)); }
                let mut b = boxes.clone();
                b.push((lo, hi));
                out.push(Slot { lo, hi, child: c, count: cnt, boxes: b });
            } else if cnt < 0 && c >= 0 {
                let mut b = boxes.clone();
                b.push((lo, hi));
                stack.push((c, b));
            }
        }
    }
    Ok(out)
}
/// M01: same leaves, each once, and every slot box above a leaf encloses the leaf's binary box.
pub fn mbvh_matches(m: &Mbvh, nodes: &[BvhNode], idx: &[u32]) -> Result<usize, String> {
    mbvh_matches_raw(m.quad_nodes(), m.indices(), nodes, idx)
}
pub fn mbvh_matches_raw(quad: &[MbvhNode], midx: &[u32], nodes: &[BvhNode], idx: &[u32]) -> Result<usize, String> { mbvh_matches_opt(quad, midx, nodes, idx) }
/// also right for the mixture of boxes an interrupted refit leaves: they just share less
pub fn mbvh_matches_opt(quad: &[MbvhNode], midx: &[u32], nodes: &[BvhNode], idx: &[u32]) -> Result<usize, String> {
    if midx != idx { return Err("the four-wide tree does not have the index array of its binary tree".into()); }
    let slots = mbvh_leaves(quad, midx.len())?;
    // what a walk down the binary tree lets through to a leaf: the part all boxes above it share
    let mut want: Vec<(u32, u32, Aabb)> = Vec::new();
    if !nodes.is_empty() {
        let mut st = vec![(0u32, nodes[0].bounds)];
        while let Some((i, up)) = st.pop() {
            let nd = &nodes[i as usize];
            let mut b = nd.bounds;
            for k in 0..3 { b.min[k] = b.min[k].max(up.min[k]); b.max[k] = b.max[k].min(up.max[k]); }
            if nd.is_leaf() { if nd.get_count_unchecked() > 0 { want.push((nd.get_left_first().unwrap(), nd.get_count_unchecked() as u32, b)); } }
            else if let Some(l) = nd.get_left_first() { st.push((l, b)); st.push((l + 1, b)); }
        }
    }
    want.sort_by_key(|w| w.0);
    let mut got: Vec<&Slot> = slots.iter().collect();
    got.sort_by_key(|s| s.child);
    for w in &want { let k = got.iter().filter(|s| s.child == w.0 as i32).count(); if k != 1 { return Err(format!("leaf {}+{} of the binary tree occurs {} times in the four-wide tree", w.0, w.1, k)); } }
    if got.len() != want.len() { return Err(format!("the four-wide tree has {} leaves, its binary tree {}", got.len(), want.len())); }
    for (w, s) in want.iter().zip(&got) {
        if s.child != w.0 as i32 || s.count != w.1 as i32 { return Err(format!("four-wide leaf {}+{} stands for binary leaf {}+{}", s.child, s.count, w.0, w.1)); }
        for (d, (lo, hi)) in s.boxes.iter().enumerate() {
            if (0..3).any(|k| w.2.min[k] > w.2.max[k]) { continue; }
            if !(lo.cmple(w.2.min).all() && hi.cmpge(w.2.max).all()) { return Err(format!("slot box {:?}..{:?} at depth {} does not enclose box {} of leaf {}+{}", lo, hi, d, show(&w.2), w.0, w.1)); }
        }
    }
    Ok(want.len())
}
