//! Mesh shapes and the plain triangle-list reading of a mesh.
use crate::core::*;
use crate::oracle::*;
use crate::w_geo::{pt, rp};
use cgar::mesh::basic_types::Mesh;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[macro_export]
macro_rules! gm {
    ($(fn $n:ident<T, N>($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {$(
        #[allow(dead_code)]
        pub fn $n<T: $crate::oracle::Sc, const N: usize>($($a: $t),*) $(-> $r)?
        where
            T: From<cgar::numeric::cgar_rational::CgarRational>,
            cgar::geometry::point::Point<T, N>: cgar::geometry::point::PointOps<T, N, Vector = cgar::geometry::vector::Vector<T, N>>,
            cgar::geometry::vector::Vector<T, N>: cgar::geometry::vector::VectorOps<T, N>,
            for<'a> &'a T: std::ops::Add<&'a T, Output = T>
                + std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    )*};
}

/// the same for space only
#[macro_export]
macro_rules! g3 {
    ($(fn $n:ident<T>($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {$(
        #[allow(dead_code)]
        pub fn $n<T: $crate::oracle::Sc>($($a: $t),*) $(-> $r)?
        where
            T: From<cgar::numeric::cgar_rational::CgarRational>,
            for<'a> &'a T: std::ops::Add<&'a T, Output = T>
                + std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    )*};
}

pub type Tri = [usize; 3];
pub fn cyc(t: Tri) -> Tri {
    let k = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}
pub fn rev(t: Tri) -> Tri {
    [t[0], t[2], t[1]]
}

// ---------------------------------------------------------------- shapes
#[derive(Clone, Debug)]
pub struct Shape<const N: usize> {
    pub name: String,
    pub pos: Vec<V<N>>,
    pub tris: Vec<Tri>,
}
fn v3(x: i64, y: i64, z: i64) -> V3 {
    V::i([x, y, z])
}
fn grid_tris(w: usize, h: usize, r: &mut Rng) -> Vec<Tri> {
    let mut t = vec![];
    let id = |x: usize, y: usize| y * (w + 1) + x;
    for y in 0..h {
        for x in 0..w {
            let (a, b, c, d) = (id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1));
            if r.bool() {
                t.push([a, b, c]);
                t.push([a, c, d]);
            } else {
                t.push([a, b, d]);
                t.push([b, c, d]);
            }
        }
    }
    t
}
fn on_circle(i: usize, k: usize, rad: f64) -> (i64, i64) {
    let a = i as f64 / k as f64 * std::f64::consts::TAU;
    ((rad * a.cos()).round() as i64, (rad * a.sin()).round() as i64)
}
/// a flat shape with many triangles or one vertex of many
fn flat_big(r: &mut Rng) -> Shape<2> {
    if r.bool() {
        let k = 9 + r.below(24);
        let n = if r.bool() { k } else { 7 + r.below(k - 8) };
        let pos = std::iter::once(V::i([1, 2])).chain((0..k).map(|i| { let (x, y) = on_circle(i, k, 1000.0); V::i([x, y]) })).collect();
        let tris = (0..n).map(|i| [0, 1 + i, 1 + (i + 1) % k]).collect();
        return Shape { name: format!("fan{}of{}", n, k), pos, tris };
    }
    let (w, h) = if r.bool() { (20 + r.below(21), 1) } else { (5 + r.below(5), 5 + r.below(5)) };
    let mut pos = vec![];
    for y in 0..=h {
        for x in 0..=w {
            pos.push(V::i([x as i64 * 16 + r.int(-3, 3), y as i64 * 16 + r.int(-3, 3)]));
        }
    }
    Shape { name: format!("grid{}x{}~", w, h), pos, tris: grid_tris(w, h, r) }
}
/// a closed shape with many triangles or two vertices of many
fn solid_big(r: &mut Rng) -> Shape<3> {
    if r.bool() {
        let k = 9 + r.below(24);
        let mut pos: Vec<V3> = (0..k).map(|i| { let (x, y) = on_circle(i, k, 1000.0); v3(x, y, 0) }).collect();
        pos.push(v3(3, -2, 400));
        pos.push(v3(-1, 4, -300));
        let tris = (0..k).flat_map(|i| [[i, (i + 1) % k, k], [(i + 1) % k, i, k + 1]]).collect();
        return Shape { name: format!("bipyramid{}", k), pos, tris };
    }
    let mut s = octa();
    for _ in 0..2 {
        let mut mid: HashMap<(usize, usize), usize> = HashMap::new();
        let mut tris = vec![];
        for t in std::mem::take(&mut s.tris) {
            let m: [usize; 3] = std::array::from_fn(|k| {
                let (a, b) = (t[k], t[(k + 1) % 3]);
                *mid.entry((a.min(b), a.max(b))).or_insert_with(|| {
                    s.pos.push((&s.pos[a] + &s.pos[b]).scale(&R::from((1, 2))));
                    s.pos.len() - 1
                })
            });
            tris.extend([[t[0], m[0], m[2]], [m[0], t[1], m[1]], [m[2], m[1], t[2]], m]);
        }
        s.tris = tris;
    }
    for p in s.pos.iter_mut() {
        let f: Vec<f64> = p.0.iter().map(|x| x.to_f64()).collect();
        let l = (f[0] * f[0] + f[1] * f[1] + f[2] * f[2]).sqrt();
        *p = v3((f[0] / l * 500.0).round() as i64, (f[1] / l * 500.0).round() as i64, (f[2] / l * 500.0).round() as i64);
    }
    s.name = "ball".into();
    s
}
/// flat shapes, counter-clockwise
pub fn flat(r: &mut Rng) -> Shape<2> {
    if r.chance(1, 30) {
        return flat_big(r);
    }
    match r.below(5) {
        0 => Shape { name: "triangle".into(), pos: vec![V::i([0, 0]), V::i([16, 0]), V::i([4, 12])], tris: vec![[0, 1, 2]] },
        1 | 2 => {
            let (w, h) = (1 + r.below(4), 1 + r.below(4));
            let jitter = r.bool();
            let mut pos = vec![];
            for y in 0..=h {
                for x in 0..=w {
                    let (jx, jy) = if jitter { (r.int(-3, 3), r.int(-3, 3)) } else { (0, 0) };
                    pos.push(V::i([x as i64 * 16 + jx, y as i64 * 16 + jy]));
                }
            }
            let tris = grid_tris(w, h, r);
            Shape { name: format!("grid{}x{}{}", w, h, if jitter { "~" } else { "" }), pos, tris }
        }
        3 => {
            // fan around an inner vertex
            let ring = [(16, 0), (12, 12), (0, 16), (-12, 12), (-16, 0), (-12, -12), (0, -16), (12, -12)];
            let pos: Vec<V2> = std::iter::once(V::i([1, 2])).chain(ring.iter().map(|&(x, y)| V::i([x, y]))).collect();
            let k = 8;
            let open = r.bool();
            let n = if open { 2 + r.below(5) } else { k };
            let tris = (0..n).map(|i| [0, 1 + i, 1 + (i + 1) % k]).collect();
            Shape { name: format!("fan{}{}", n, if open { "-open" } else { "" }), pos, tris }
        }
        _ => {
            // annulus
            let o = [(20, 0), (0, 20), (-20, 0), (0, -20)];
            let i = [(6, 0), (0, 6), (-6, 0), (0, -6)];
            let pos: Vec<V2> = o.iter().chain(i.iter()).map(|&(x, y)| V::i([x, y])).collect();
            let mut tris = vec![];
            for k in 0..4 {
                let n = (k + 1) % 4;
                tris.push([k, n, 4 + k]);
                tris.push([n, 4 + n, 4 + k]);
            }
            Shape { name: "annulus".into(), pos, tris }
        }
    }
}
pub fn tetra() -> Shape<3> {
    Shape { name: "tetra".into(), pos: vec![v3(0, 0, 0), v3(16, 0, 0), v3(0, 16, 0), v3(0, 0, 16)], tris: vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]] }
}
pub fn cube(lo: [i64; 3], hi: [i64; 3]) -> Shape<3> {
    let mut pos = vec![];
    for k in 0..8 {
        pos.push(v3(if k & 1 > 0 { hi[0] } else { lo[0] }, if k & 2 > 0 { hi[1] } else { lo[1] }, if k & 4 > 0 { hi[2] } else { lo[2] }));
    }
    let q = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
    let tris = q.iter().flat_map(|f| [[f[0], f[1], f[2]], [f[0], f[2], f[3]]]).collect();
    Shape { name: "cube".into(), pos, tris }
}
pub fn octa() -> Shape<3> {
    let pos = vec![v3(16, 0, 0), v3(-16, 0, 0), v3(0, 16, 0), v3(0, -16, 0), v3(0, 0, 16), v3(0, 0, -16)];
    let mut tris = vec![];
    for &(a, b) in &[(0, 2), (2, 1), (1, 3), (3, 0)] {
        tris.push([a, b, 4]);
        tris.push([b, a, 5]);
    }
    Shape { name: "octa".into(), pos, tris }
}
/// vertices put over faces, again and again: irregular valences, convex-ish closed surface
pub fn stacked(r: &mut Rng, n: usize) -> Shape<3> {
    let mut s = if r.bool() { tetra() } else { octa() };
    for p in s.pos.iter_mut() {
        *p = p.scale(&ri(16));
    }
    for _ in 0..n {
        let k = r.below(s.tris.len());
        let t = s.tris.swap_remove(k);
        let [a, b, c] = t.map(|i| s.pos[i].clone());
        let nn = normal(&[a.clone(), b.clone(), c.clone()]);
        let g = (&(&a + &b) + &c).scale(&R::from((1, 3)));
        // a small lift along the dominant axis of the outward normal
        let ax = (0..3).max_by(|&i, &j| nn.0[i].clone().abs().partial_cmp(&nn.0[j].clone().abs()).unwrap()).unwrap();
        let mut p = V::i([0, 0, 0]);
        for i in 0..3 {
            p.0[i] = ri(R::from(g.0[i].clone().floor_ref()).to_f64() as i64);
        }
        p.0[ax] += ri(sgn(&nn.0[ax]) as i64 * r.int(2, 9));
        if s.pos.contains(&p) {
            s.tris.push(t);
            continue;
        }
        let w = s.pos.len();
        s.pos.push(p);
        for i in 0..3 {
            s.tris.push([t[i], t[(i + 1) % 3], w]);
        }
    }
    s.name = format!("stacked{}", n);
    s
}
pub fn torus(r: &mut Rng) -> Shape<3> {
    // square ring: m sections of a quadrilateral profile
    let m = 3 + r.below(4);
    let cs = [(100, 0), (62, 78), (-22, 97), (-90, 43), (-90, -43), (-22, -97), (62, -78)];
    let ang: Vec<(i64, i64)> = match m {
        3 => vec![(100, 0), (-50, 86), (-50, -86)],
        4 => vec![(100, 0), (0, 100), (-100, 0), (0, -100)],
        5 => vec![(100, 0), (30, 95), (-80, 58), (-80, -58), (30, -95)],
        6 => vec![(100, 0), (50, 86), (-50, 86), (-100, 0), (-50, -86), (50, -86)],
        _ => cs.to_vec(),
    };
    let m = ang.len();
    let prof = [(3, 1), (5, 1), (5, -1), (3, -1)];
    let mut pos = vec![];
    for &(c, s) in &ang {
        for &(rad, z) in &prof {
            pos.push(v3(c * rad, s * rad, z * 60));
        }
    }
    let mut tris = vec![];
    let id = |i: usize, j: usize| (i % m) * 4 + j % 4;
    for i in 0..m {
        for j in 0..4 {
            let (a, b, c, d) = (id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
            if r.bool() {
                tris.push([a, b, c]);
                tris.push([a, c, d]);
            } else {
                tris.push([a, b, d]);
                tris.push([b, c, d]);
            }
        }
    }
    let mut s = Shape { name: format!("torus{}", m), pos, tris };
    if sgn(&volume6(&s.pos, &s.tris)) < 0 {
        for t in s.tris.iter_mut() {
            *t = rev(*t);
        }
    }
    s
}
pub fn volume6(pos: &[V3], tris: &[Tri]) -> R {
    let mut s = R::new();
    for t in tris {
        s += cross3(&pos[t[0]], &pos[t[1]]).dot(&pos[t[2]]);
    }
    s
}
/// open and closed surfaces in space; closed ones are oriented outward
pub fn solid(r: &mut Rng) -> Shape<3> {
    if r.chance(1, 30) {
        return solid_big(r);
    }
    match r.below(7) {
        0 => tetra(),
        1 => cube([0, 0, 0], [16, 16, 16]),
        2 => octa(),
        3 => torus(r),
        4 | 5 => {
            let n = 1 + r.below(12);
            stacked(r, n)
        }
        _ => {
            // two separate pieces
            let n = r.below(4);
            let a = stacked(r, n);
            let mut b = if r.bool() { octa() } else { cube([0, 0, 0], [16, 16, 16]) };
            let k = a.pos.len();
            for p in b.pos.iter_mut() {
                *p = &*p + &v3(2000, 3, 5);
            }
            let mut s = a;
            s.pos.extend(b.pos);
            s.tris.extend(b.tris.iter().map(|t| t.map(|i| i + k)));
            s.name = format!("{}+{}", s.name, b.name);
            s
        }
    }
}
pub fn surface(r: &mut Rng) -> Shape<3> {
    match r.below(6) {
        0 | 1 => solid(r),
        2 | 3 => {
            let f = flat(r);
            let bump = r.bool();
            let pos = f.pos.iter().map(|p| V([p.0[0].clone(), p.0[1].clone(), if bump { ri(r.int(-4, 4)) } else { R::new() }])).collect();
            Shape { name: format!("{}{}", f.name, if bump { "^" } else { "" }), pos, tris: f.tris }
        }
        4 => {
            // closed surface with holes
            let mut s = solid(r);
            let k = 1 + r.below(3.min(s.tris.len() - 1));
            for _ in 0..k {
                let i = r.below(s.tris.len());
                s.tris.remove(i);
            }
            s.name = format!("{}-{}", s.name, k);
            s
        }
        _ => {
            // open tube
            let mut s = torus(r);
            s.tris.retain(|t| !t.iter().all(|&i| i < 8) );
            s.name = format!("{}-tube", s.name);
            s
        }
    }
}
/// the same surface with other vertex numbers, triangle order and starting corners
pub fn scramble<const N: usize>(r: &mut Rng, s: &Shape<N>) -> Shape<N> {
    let n = s.pos.len();
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    let mut pos = s.pos.clone();
    for i in 0..n {
        pos[p[i]] = s.pos[i].clone();
    }
    let mut tris: Vec<Tri> = s
        .tris
        .iter()
        .map(|t| {
            let k = r.below(3);
            let t = t.map(|i| p[i]);
            [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
        })
        .collect();
    r.shuffle(&mut tris);
    Shape { name: s.name.clone(), pos, tris }
}
gm! {
fn make<T, N>(s: &Shape<N>) -> Mesh<T, N> {
    let mut m = Mesh::<T, N>::new();
    for p in &s.pos {
        m.add_vertex(pt(p));
    }
    for t in &s.tris {
        m.add_triangle(t[0], t[1], t[2]);
    }
    m
}
}

// ---------------------------------------------------------------- reading a mesh
pub type Soup = BTreeMap<usize, Tri>;
pub fn live<T: Sc, const N: usize>(m: &Mesh<T, N>) -> Result<Soup, String> {
    let mut s = Soup::new();
    for (i, f) in m.faces.iter().enumerate() {
        if f.removed {
            continue;
        }
        let mut v = [0; 3];
        let mut h = f.half_edge;
        for k in 0..3 {
            let Some(e) = m.half_edges.get(h) else { return Err(format!("face {} uses half-edge {}", i, h)) };
            v[k] = e.vertex;
            h = e.next;
        }
        if h != f.half_edge {
            return Err(format!("face {} is not a closed cycle of three half-edges", i));
        }
        s.insert(i, cyc(v));
    }
    Ok(s)
}
pub fn bag(s: &Soup) -> Vec<Tri> {
    let mut v: Vec<Tri> = s.values().copied().collect();
    v.sort();
    v
}
pub fn dir_edges(s: &Soup) -> HashMap<(usize, usize), usize> {
    let mut d = HashMap::new();
    for (f, t) in s {
        for k in 0..3 {
            d.insert((t[k], t[(k + 1) % 3]), *f);
        }
    }
    d
}
/// everything the public tables of a valid half-edge mesh satisfy
pub fn validity<T: Sc, const N: usize>(m: &Mesh<T, N>) -> Result<Soup, String> {
    let nh = m.half_edges.len();
    let soup = live(m)?;
    for (f, t) in &soup {
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            return Err(format!("face {} repeats a vertex: {:?}", f, t));
        }
        for &v in t {
            if v >= m.vertices.len() || m.vertices[v].removed {
                return Err(format!("face {} {:?} uses vertex {} which is gone", f, t, v));
            }
        }
    }
    let mut dir: HashMap<(usize, usize), usize> = HashMap::new();
    let mut live_n = 0;
    for (i, h) in m.half_edges.iter().enumerate() {
        if h.removed {
            continue;
        }
        live_n += 1;
        for (n, x) in [("next", h.next), ("prev", h.prev), ("twin", h.twin)] {
            if x >= nh || m.half_edges[x].removed {
                return Err(format!("half-edge {}: {} = {} is gone", i, n, x));
            }
        }
        if m.half_edges[h.twin].twin != i || h.twin == i {
            return Err(format!("half-edge {}: twin {} is not mutual", i, h.twin));
        }
        if m.half_edges[h.next].prev != i || m.half_edges[h.prev].next != i {
            return Err(format!("half-edge {}: next/prev not mutual", i));
        }
        if m.half_edges[h.next].face != h.face {
            return Err(format!("half-edge {}: next lies on another face", i));
        }
        let src = m.half_edges[h.twin].vertex;
        if m.half_edges[h.prev].vertex != src {
            return Err(format!("half-edge {}: prev ends at {} but twin at {}", i, m.half_edges[h.prev].vertex, src));
        }
        if let Some(f) = h.face {
            if f >= m.faces.len() || m.faces[f].removed {
                return Err(format!("half-edge {} lies on face {} which is gone", i, f));
            }
            let (a, b) = (m.half_edges[h.next].next, m.faces[f].half_edge);
            if ![i, h.next, a].contains(&b) {
                return Err(format!("half-edge {} not in the cycle of its face {}", i, f));
            }
        } else if m.half_edges[h.twin].face.is_none() {
            return Err(format!("edge of half-edge {} has no face", i));
        }
        if dir.insert((src, h.vertex), i).is_some() {
            return Err(format!("two half-edges run {} -> {}", src, h.vertex));
        }
        if m.edge_map.get(&(src, h.vertex)) != Some(&i) {
            return Err(format!("edge lookup of ({}, {}) gives {:?}, not {}", src, h.vertex, m.edge_map.get(&(src, h.vertex)), i));
        }
    }
    if m.edge_map.len() != live_n {
        return Err(format!("edge lookup has {} entries for {} half-edges", m.edge_map.len(), live_n));
    }
    for (f, t) in &soup {
        for k in 0..3 {
            let e = (t[k], t[(k + 1) % 3]);
            match dir.get(&e) {
                Some(&h) if m.half_edges[h].face == Some(*f) => {}
                _ => return Err(format!("face {} side {:?} has no half-edge of its own", f, e)),
            }
        }
    }
    let mut touched = BTreeSet::new();
    for t in soup.values() {
        touched.extend(t.iter().copied());
    }
    for (i, v) in m.vertices.iter().enumerate() {
        match v.half_edge {
            Some(h) => {
                if v.removed {
                    continue;
                }
                if h >= nh || m.half_edges[h].removed {
                    return Err(format!("vertex {} points to half-edge {} which is gone", i, h));
                }
                if m.half_edges[m.half_edges[h].twin].vertex != i {
                    return Err(format!("vertex {} points to half-edge {} which does not leave it", i, h));
                }
            }
            None => {
                if touched.contains(&i) {
                    return Err(format!("vertex {} has faces but no half-edge", i));
                }
            }
        }
    }
    Ok(soup)
}
/// all observable tables, for "nothing changed"
pub fn tables<T: Sc, const N: usize>(m: &Mesh<T, N>) -> String {
    let mut s = String::new();
    use std::fmt::Write;
    for h in &m.half_edges {
        if h.removed {
            s.push('x');
        } else {
            let _ = write!(s, "{},{},{},{},{:?};", h.vertex, h.next, h.prev, h.twin, h.face);
        }
    }
    for f in &m.faces {
        let _ = write!(s, "{}{};", if f.removed { 'x' } else { ' ' }, if f.removed { 0 } else { f.half_edge });
    }
    for v in &m.vertices {
        let _ = write!(s, "{}{:?}{};", v.removed, v.half_edge, rp(&v.position).s());
    }
    let mut e: Vec<_> = m.edge_map.iter().collect();
    e.sort();
    let _ = write!(s, "{:?}", e);
    s
}
/// number of fans of triangles around each vertex
pub fn fans(s: &Soup) -> HashMap<usize, usize> {
    let mut out = HashMap::new();
    let mut link: HashMap<usize, Vec<(usize, usize)>> = HashMap::new();
    for t in s.values() {
        for k in 0..3 {
            link.entry(t[k]).or_default().push((t[(k + 1) % 3], t[(k + 2) % 3]));
        }
    }
    for (v, es) in link {
        let mut comp: Vec<usize> = (0..es.len()).collect();
        loop {
            let mut ch = false;
            for i in 0..es.len() {
                for j in 0..es.len() {
                    if es[i].1 == es[j].0 && comp[i] != comp[j] {
                        let k = comp[i].min(comp[j]);
                        comp[i] = k;
                        comp[j] = k;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        comp.sort();
        comp.dedup();
        out.insert(v, comp.len());
    }
    out
}
pub fn manifold(s: &Soup) -> bool {
    fans(s).values().all(|&k| k == 1)
}
/// vertices, edges, faces, border loops, components
pub fn euler(s: &Soup) -> (i64, usize, usize) {
    let d = dir_edges(s);
    let mut vs = BTreeSet::new();
    let mut es = BTreeSet::new();
    for &(a, b) in d.keys() {
        vs.insert(a);
        vs.insert(b);
        es.insert((a.min(b), a.max(b)));
    }
    // components by vertices
    let ids: Vec<usize> = vs.iter().copied().collect();
    let mut par: HashMap<usize, usize> = ids.iter().map(|&i| (i, i)).collect();
    fn find(p: &mut HashMap<usize, usize>, x: usize) -> usize {
        let q = p[&x];
        if q == x {
            return x;
        }
        let r = find(p, q);
        p.insert(x, r);
        r
    }
    for &(a, b) in &es {
        let (x, y) = (find(&mut par, a), find(&mut par, b));
        par.insert(x, y);
    }
    let comps: BTreeSet<usize> = ids.iter().map(|&i| find(&mut par, i)).collect();
    // border loops
    let mut nx: HashMap<usize, usize> = HashMap::new();
    for &(a, b) in d.keys() {
        if !d.contains_key(&(b, a)) {
            nx.insert(b, a);
        }
    }
    let mut seen = BTreeSet::new();
    let mut loops = 0;
    let mut starts: Vec<usize> = nx.keys().copied().collect();
    starts.sort();
    for st in starts {
        if !seen.insert(st) {
            continue;
        }
        loops += 1;
        let mut c = nx[&st];
        while c != st && seen.insert(c) {
            match nx.get(&c) {
                Some(&n) => c = n,
                None => break,
            }
        }
    }
    (vs.len() as i64 - es.len() as i64 + s.len() as i64, comps.len(), loops)
}
pub fn tri_pts<T: Sc, const N: usize>(m: &Mesh<T, N>, t: &Tri) -> [V<N>; 3] {
    t.map(|i| rp(&m.vertices[i].position))
}
