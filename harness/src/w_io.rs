//! P22 mesh files.
use crate::core::*;
use crate::g3;
use crate::oracle::*;
use crate::w_geo::rp;
use crate::w_mesh::*;
use crate::w_ray::{begin, body};
use crate::zoo::*;
use cgar::io::{obj, off, stl};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::path::{Path, PathBuf};

/// a directory of its own, gone with the value
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("cgarv-io-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const FORMATS: [&str; 3] = ["obj", "off", "stl"];
type Tri64 = [[u64; 3]; 3];
fn bits(x: f64) -> u64 { if x == 0.0 { 0 } else { x.to_bits() } }
fn turn(t: Tri64) -> Tri64 {
    let k = (0..3).min_by_key(|&k| t[k]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}
fn f64s<T: Sc>(m: &Mesh<T, 3>, s: &Soup) -> Vec<[[f64; 3]; 3]> {
    s.values().map(|t| t.map(|v| { let p = rp(&m.vertices[v].position); std::array::from_fn(|i| p.0[i].to_f64()) })).collect()
}
fn sorted(v: &[[[f64; 3]; 3]]) -> Vec<Tri64> {
    let mut w: Vec<Tri64> = v.iter().map(|t| turn(t.map(|p| p.map(bits)))).collect();
    w.sort();
    w
}
/// every triangle has a partner within rounding
fn alike(a: &[[[f64; 3]; 3]], b: &[[[f64; 3]; 3]]) -> bool {
    if a.len() != b.len() { return false; }
    let near = |x: f64, y: f64| (x - y).abs() <= 1e-12 * (x.abs() + y.abs());
    let mut used = vec![false; b.len()];
    a.iter().all(|t| {
        let hit = (0..b.len()).find(|&i| !used[i] && (0..3).any(|k| (0..3).all(|j| (0..3).all(|x| near(t[j][x], b[i][(j + k) % 3][x])))));
        if let Some(i) = hit { used[i] = true; }
        hit.is_some()
    })
}
/// what the file says, read plainly
fn plain(fmt: &str, text: &str) -> Result<Vec<[[f64; 3]; 3]>, String> {
    let num = |s: Option<&str>| -> Result<f64, String> { s.ok_or("a number is missing".to_string())?.parse::<f64>().map_err(|e| e.to_string()) };
    let mut v: Vec<[f64; 3]> = vec![];
    let mut t = vec![];
    match fmt {
        "obj" => {
            let mut f = vec![];
            for l in text.lines() {
                let mut w = l.split_whitespace();
                match w.next() {
                    Some("v") => v.push([num(w.next())?, num(w.next())?, num(w.next())?]),
                    Some("f") => f.push([num(w.next())?, num(w.next())?, num(w.next())?]),
                    _ => {}
                }
            }
            for x in f { t.push(x.map(|i| v.get((i as usize).wrapping_sub(1)).copied())); }
        }
        "off" => {
            let mut w = text.split_whitespace();
            if w.next() != Some("OFF") { return Err("no header".into()); }
            let (n, k, _) = (num(w.next())?, num(w.next())?, num(w.next())?);
            for _ in 0..n as usize { v.push([num(w.next())?, num(w.next())?, num(w.next())?]); }
            for _ in 0..k as usize {
                if num(w.next())? != 3.0 { return Err("not a triangle".into()); }
                t.push([num(w.next())?, num(w.next())?, num(w.next())?].map(|i| v.get(i as usize).copied()));
            }
            if w.next().is_some() { return Err("more than announced".into()); }
        }
        _ => {
            let mut w = text.split_whitespace();
            if w.next() != Some("solid") { return Err("no header".into()); }
            let mut it = w.skip_while(|x| *x != "facet" && *x != "endsolid");
            loop {
                match it.next() {
                    Some("facet") => {
                        if it.next() != Some("normal") { return Err("no normal".into()); }
                        let n = [num(it.next())?, num(it.next())?, num(it.next())?];
                        if it.next() != Some("outer") || it.next() != Some("loop") { return Err("no loop".into()); }
                        let mut q = [[0.0; 3]; 3];
                        for p in q.iter_mut() {
                            if it.next() != Some("vertex") { return Err("no vertex".into()); }
                            *p = [num(it.next())?, num(it.next())?, num(it.next())?];
                        }
                        if it.next() != Some("endloop") || it.next() != Some("endfacet") { return Err("facet not closed".into()); }
                        let e = |a: usize, b: usize| -> V3 { V(std::array::from_fn(|i| rf(q[b][i]) - rf(q[a][i]))) };
                        let g = cross3(&e(0, 1), &e(0, 2));
                        let nn: V3 = V(n.map(rf));
                        // overflow and underflow aside, the normal is on the side of the triangle
                        if g.n2().to_f64() > 1e-6 && g.n2().to_f64() < 1e12 && sgn(&g.dot(&nn)) <= 0 { return Err("normal on the wrong side".into()); }
                        t.push(q.map(Some));
                    }
                    Some("endsolid") => break,
                    x => return Err(format!("unexpected {:?}", x)),
                }
            }
        }
    }
    t.into_iter().map(|x| match x { [Some(a), Some(b), Some(c)] => Ok([a, b, c]), _ => Err("index out of range".to_string()) }).collect()
}
g3! {
fn read<T>(fmt: &str, path: &Path) -> std::io::Result<Mesh<T, 3>> {
    match fmt { "obj" => obj::read_obj(path), "off" => off::read_off(path), _ => stl::read_stl(path) }
}
fn write<T>(fmt: &str, m: &Mesh<T, 3>, path: &Path) -> std::io::Result<()> {
    match fmt { "obj" => obj::write_obj(m, path), "off" => off::write_off(m, path), _ => stl::write_stl(m, path) }
}
fn back<T>(c: &mut Case, fmt: &str, path: &Path, want: &[[[f64; 3]; 3]], topo: (i64, usize, usize), info: &str) {
    let m = match read::<T>(fmt, path) { Ok(m) => m, Err(e) => { c.fail("own-file-refused", || format!("{} {} as {}: {}", info, fmt, T::NAME, e)); return; } };
    let s = match validity(&m) { Ok(s) => s, Err(e) => { c.fail("read-invalid", || format!("{} {} as {}: {}", info, fmt, T::NAME, e)); return; } };
    c.ev(&format!("read-{}", fmt));
    let got = f64s(&m, &s);
    c.evn("triangle-compared", got.len() as u64);
    c.check(sorted(&got) == sorted(want), "read-triangles", || format!("{} {} as {}: {:?} instead of {:?}", info, fmt, T::NAME, got, want));
    if fmt != "stl" {
        let (e, bow) = (euler(&s), !manifold(&s));
        c.check(e.0 == topo.0 && e.1 == topo.1 && (bow || e.2 == topo.2), "read-connectivity", || format!("{} {} as {}: (characteristic, parts, borders) {:?} instead of {:?}", info, fmt, T::NAME, euler(&s), topo));
    }
}
fn roundtrip<T>(c: &mut Case, s: &Shape<3>) {
    let Hist { m, log, .. } = begin::<T, 3>(c, s, 8, true);
    let Ok(soup) = validity(&m) else { return };
    let have = f64s(&m, &soup);
    let topo = euler(&soup);
    let d = Scratch::new();
    let info = format!("{} {} [{}]", T::NAME, s.name, log.join(" "));
    c.nontrivial(hash_str(&format!("{}{:?}", info, have)));
    if soup.is_empty() { c.ev("empty"); }
    if m.faces.iter().any(|f| f.removed) { c.ev("with-removed"); }
    for fmt in FORMATS {
        let path = d.0.join(format!("m.{}", fmt));
        // writing replaces what was there
        if c.rng.bool() { std::fs::write(&path, "x".repeat(100_000)).unwrap(); }
        if let Err(e) = write::<T>(fmt, &m, &path) { c.fail("write-error", || format!("{} {}: {}", info, fmt, e)); return; }
        let text = match std::fs::read_to_string(&path) { Ok(t) => t, Err(e) => { c.fail("not-text", || format!("{} {}: {}", info, fmt, e)); return; } };
        c.ev(&format!("written-{}", fmt));
        let said = match plain(fmt, &text) { Ok(t) => t, Err(e) => { c.fail("malformed-output", || format!("{} {}: {}", info, fmt, e)); return; } };
        let ok = if T::EXACT { alike(&said, &have) } else { sorted(&said) == sorted(&have) };
        if !c.check(ok, "written-triangles", || format!("{} {}: {:?} instead of {:?}", info, fmt, said, have)) { return; }
        match c.rng.below(3) {
            0 => back::<CgarF64>(c, fmt, &path, &said, topo, &info),
            1 => back::<CgarRational>(c, fmt, &path, &said, topo, &info),
            _ => back::<LazyExact>(c, fmt, &path, &said, topo, &info),
        }
    }
    c.sample("mesh", || format!("{}: {} triangles", info, soup.len()));
}
fn damaged<T>(c: &mut Case, fmt: &str, path: &Path, must: Option<&'static str>, what: &str) {
    let r = read::<T>(fmt, path);
    match r {
        Err(_) => c.ev("refused"),
        Ok(m) => {
            c.ev("accepted");
            if let Some(why) = must { c.fail("accepted-malformed", || format!("{} as {}: {} accepted with {} faces", what, T::NAME, why, m.faces.len())); }
            match validity(&m) {
                Ok(s) => {
                    for t in s.values() {
                        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] { c.fail("read-invalid", || format!("{} as {}: triangle {:?}", what, T::NAME, t)); }
                    }
                }
                Err(e) => { c.fail("read-invalid", || format!("{} as {}: {}", what, T::NAME, e)); }
            }
        }
    }
}
}
fn scaled(r: &mut Rng, s: Shape<3>) -> Shape<3> {
    let k = match r.below(6) {
        0 => R::from((1, 3)),
        1 => rf(r.f(0.1, 10.0)),
        2 => rf(1e-5 * r.f(1.0, 9.0)),
        3 => rf(1e12 * r.f(1.0, 9.0)),
        _ => R::from(1),
    };
    let o: V3 = if r.chance(1, 4) { V(std::array::from_fn(|_| rf(r.f(-1e3, 1e3)))) } else { V3::zero() };
    Shape { name: format!("{}*{}", s.name, k.to_f64()), pos: s.pos.iter().map(|p| &p.scale(&k) + &o).collect(), tris: s.tris }
}
fn any(c: &mut Case) -> Shape<3> {
    if c.rng.bool() { body(&mut c.rng) } else { surface(&mut c.rng) }
}
fn w_round(c: &mut Case) {
    let s = any(c);
    let s = scaled(&mut c.rng, s);
    match c.rng.below(4) {
        0 => roundtrip::<CgarRational>(c, &s),
        1 => roundtrip::<LazyExact>(c, &s),
        _ => roundtrip::<CgarF64>(c, &s),
    }
}
/// a file of another program: same content, other layout
fn foreign(r: &mut Rng, fmt: &str, s: &Shape<3>) -> String {
    let n = |r: &mut Rng, x: &R| {
        let x = x.to_f64();
        match r.below(4) { 0 => format!("{}", x), 1 => format!("{:e}", x), 2 => format!("{:?}", x), _ => if x >= 0.0 { format!("+{}", x) } else { format!("{:E}", x) } }
    };
    let sp = |r: &mut Rng| *r.pick(&[" ", "  ", "\t", " \t "]);
    let nl = if r.chance(1, 3) { "\r\n" } else { "\n" };
    let mut o = String::new();
    let lead = |r: &mut Rng| if r.chance(1, 5) { "  " } else { "" };
    match fmt {
        "obj" => {
            let style = r.below(5);
            let extra = |r: &mut Rng, o: &mut String| { if r.chance(1, 4) { o.push_str(*r.pick(&["# v 1 2", "vn 0 0 1", "vt 0.5 0.5", "g part", "usemtl none", "s off", "", "o f"])); o.push_str(nl); } };
            for p in &s.pos {
                extra(r, &mut o);
                let w = if r.chance(1, 6) { " 1.0" } else { "" };
                let q: Vec<String> = (0..3).map(|i| n(r, &p.0[i])).collect();
                o.push_str(&format!("{}v{}{}{}{}{}{}{}{}", lead(r), sp(r), q[0], sp(r), q[1], sp(r), q[2], w, nl));
            }
            for t in &s.tris {
                extra(r, &mut o);
                let f = |i: usize| match style { 0 => format!("{}/1", i + 1), 1 => format!("{}/1/1", i + 1), 2 => format!("{}//1", i + 1), _ => format!("{}", i + 1) };
                o.push_str(&format!("f{}{}{}{}{}{}{}", sp(r), f(t[0]), sp(r), f(t[1]), sp(r), f(t[2]), nl));
            }
        }
        "off" => {
            let note = |r: &mut Rng, o: &mut String| { if r.chance(1, 5) { o.push_str(*r.pick(&["# 3 0 1 2", "", "   "])); o.push_str(nl); } };
            note(r, &mut o);
            o.push_str("OFF");
            o.push_str(if r.bool() { nl } else { " " });
            o.push_str(&format!("{} {} {}{}{}", s.pos.len(), s.tris.len(), r.below(50), if r.chance(1, 4) { " # counts" } else { "" }, nl));
            for p in &s.pos {
                note(r, &mut o);
                let q: Vec<String> = (0..3).map(|i| n(r, &p.0[i])).collect();
                o.push_str(&format!("{}{}{}{}{}{}{}", lead(r), q[0], sp(r), q[1], sp(r), q[2], nl));
            }
            for t in &s.tris {
                note(r, &mut o);
                o.push_str(&format!("3{}{}{}{}{}{}{}", sp(r), t[0], sp(r), t[1], sp(r), t[2], nl));
            }
        }
        _ => {
            let name = *r.pick(&["", " part one", " facet"]);
            o.push_str(&format!("solid{}{}", name, nl));
            for t in &s.tris {
                o.push_str(&format!("{}facet normal 0 0 0{}", lead(r), nl));
                o.push_str(&format!("outer loop{}", nl));
                for i in t {
                    let q: Vec<String> = (0..3).map(|x| n(r, &s.pos[*i].0[x])).collect();
                    o.push_str(&format!("\tvertex{}{} {}{}{}{}", sp(r), q[0], q[1], sp(r), q[2], nl));
                }
                o.push_str(&format!("endloop{}endfacet{}", nl, nl));
            }
            o.push_str(&format!("endsolid{}{}", name, if r.bool() { nl } else { "" }));
        }
    }
    o
}
fn w_foreign(c: &mut Case) {
    let s = any(c);
    let s = scaled(&mut c.rng, s);
    let want: Vec<[[f64; 3]; 3]> = s.tris.iter().map(|t| t.map(|i| std::array::from_fn(|x| s.pos[i].0[x].to_f64()))).collect();
    let soup: Soup = s.tris.iter().copied().enumerate().collect();
    let topo = euler(&soup);
    let d = Scratch::new();
    let fmt = *c.rng.pick(&FORMATS);
    let text = foreign(&mut c.rng, fmt, &s);
    c.nontrivial(hash_str(&text));
    let path = d.0.join("m");
    std::fs::write(&path, &text).unwrap();
    c.ev("foreign");
    let info = format!("{} written {:?}", s.name, text);
    match c.rng.below(3) {
        0 => back::<CgarF64>(c, fmt, &path, &want, topo, &info),
        1 => back::<CgarRational>(c, fmt, &path, &want, topo, &info),
        _ => back::<LazyExact>(c, fmt, &path, &want, topo, &info),
    }
}
/// damage a file; says why it has to be refused, when it has to be
fn damage(r: &mut Rng, fmt: &str, text: &str, nv: usize) -> (Vec<u8>, Option<&'static str>, String) {
    let lines: Vec<&str> = text.lines().collect();
    let join = |l: Vec<String>| { let mut t = l.join("\n"); t.push('\n'); t.into_bytes() };
    let own = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let bytes = text.as_bytes().to_vec();
    // lines by role
    let vert: Vec<usize> = (0..lines.len()).filter(|&i| match fmt { "obj" => lines[i].starts_with("v "), "off" => i >= 2 && i < 2 + nv, _ => lines[i].trim().starts_with("vertex") }).collect();
    let face: Vec<usize> = (0..lines.len()).filter(|&i| match fmt { "obj" => lines[i].starts_with("f "), "off" => i >= 2 + nv, _ => false }).collect();
    let token = |l: &str, k: usize, by: &str| { let mut w: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect(); if k < w.len() { w[k] = by.into(); } w.join(" ") };
    let drop = |l: &str, k: usize| { let mut w: Vec<&str> = l.split_whitespace().collect(); if k < w.len() { w.remove(k); } w.join(" ") };
    // first coordinate or index on a line
    let (v0, f0) = match fmt { "obj" => (1, 1), "off" => (0, 1), _ => (1, 0) };
    match r.below(14) {
        0 => { let k = r.below(bytes.len() + 1); (bytes[..k].to_vec(), None, format!("cut at byte {}", k)) }
        1 => { let k = r.below(lines.len() + 1); (join(own(&lines[..k])), if fmt == "off" && k < lines.len() { Some("missing lines") } else { None }, format!("cut at line {}", k)) }
        2 if !vert.is_empty() => {
            let (i, k) = (*r.pick(&vert), r.below(3));
            let by = *r.pick(&["x", "1,5", "1.2.3", "--1", "0x10", "1e", "\u{221e}", "'", "NULL", "1/2"]);
            let mut l = own(&lines);
            l[i] = token(&l[i], v0 + k, by);
            (join(l), Some("unreadable coordinate"), format!("line {} coordinate {} = {:?}", i, k, by))
        }
        3 if !vert.is_empty() => {
            let (i, k) = (*r.pick(&vert), r.below(3));
            let by = *r.pick(&["nan", "NaN", "inf", "-inf", "infinity", "1e999", "-1e400"]);
            let mut l = own(&lines);
            l[i] = token(&l[i], v0 + k, by);
            (join(l), Some("coordinate that is no number"), format!("line {} coordinate {} = {:?}", i, k, by))
        }
        4 if !vert.is_empty() => {
            let (i, k) = (*r.pick(&vert), r.below(3));
            let mut l = own(&lines);
            l[i] = drop(&l[i], v0 + k);
            (join(l), if fmt == "off" { None } else { Some("missing coordinate") }, format!("line {} without coordinate {}", i, k))
        }
        5 | 6 if !face.is_empty() => {
            let (i, k) = (*r.pick(&face), r.below(3));
            let big = format!("{}", if fmt == "obj" { nv + 1 } else { nv } + if r.bool() { 0 } else { r.below(1000) });
            let by: &str = *r.pick(&["x", "1.5", "-", "4294967296", "18446744073709551615", "99999999999999999999999", "", &big, if fmt == "obj" { "0" } else { "x1" }]);
            let mut l = own(&lines);
            l[i] = if by.is_empty() { drop(&l[i], f0 + k) } else { token(&l[i], f0 + k, by) };
            let must = if by.is_empty() && fmt == "off" { None } else { Some("bad index") };
            (join(l), must, format!("line {} index {} = {:?}", i, k, by))
        }
        7 if !face.is_empty() => {
            let (i, k) = (*r.pick(&face), r.below(3));
            let mut l = own(&lines);
            let w: Vec<&str> = lines[i].split_whitespace().collect();
            let by = w[f0 + (k + 1) % 3].to_string();
            l[i] = token(&l[i], f0 + k, &by);
            (join(l), Some("a corner twice"), format!("line {} index {} = {}", i, k, by))
        }
        8 if !face.is_empty() => {
            // any other vertex: may or may not fit
            let (i, k) = (*r.pick(&face), r.below(3));
            let mut l = own(&lines);
            let by = format!("{}", r.below(nv) + if fmt == "obj" { 1 } else { 0 });
            l[i] = token(&l[i], f0 + k, &by);
            (join(l), None, format!("line {} index {} = {}", i, k, by))
        }
        9 => {
            let mut l = own(&lines);
            let i = r.below(l.len());
            match r.below(3) {
                0 => { let x = l[i].clone(); l.insert(i, x); }
                1 => { l.remove(i); }
                _ => { let j = r.below(l.len()); l.swap(i, j); }
            }
            (join(l), None, format!("line {} doubled, gone or swapped", i))
        }
        10 => {
            let mut b = bytes.clone();
            for _ in 0..1 + r.below(4) { let i = r.below(b.len()); b[i] = r.below(256) as u8; }
            (b, None, "bytes replaced".into())
        }
        11 => {
            let n = r.below(400);
            let b = match r.below(4) { 0 => vec![], 1 => vec![0u8; n], 2 => (0..n).map(|_| r.below(256) as u8).collect(), _ => b"\n\n \n".to_vec() };
            let must = if fmt == "off" { Some("not a file of this kind") } else { None };
            (b, must, "other content".into())
        }
        12 if fmt == "off" => {
            let mut l = own(&lines);
            let by = *r.pick(&["18446744073709551615", "999999999999", "-1", "x", "1.5"]);
            match r.below(3) {
                0 => { l[1] = token(&l[1], 0, by); }
                1 => { l[1] = token(&l[1], 1, by); }
                _ => {
                    if face.is_empty() { l[0] = "COFF".into(); } else { let i = *r.pick(&face); l[i] = token(&l[i], 0, by); }
                }
            }
            (join(l), Some("impossible count"), format!("counts {}", by))
        }
        12 if fmt == "stl" && !vert.is_empty() => {
            let mut l = own(&lines);
            let i = *r.pick(&vert);
            if r.bool() { l.remove(i); } else { let x = l[i].clone(); l.insert(i, x); }
            (join(l), Some("a facet without three corners"), format!("line {} doubled or gone", i))
        }
        _ => {
            // two places at once
            let mut b = bytes.clone();
            for _ in 0..2 {
                if b.len() < 2 { break; }
                let i = r.below(b.len() - 1);
                let j = i + 1 + r.below((b.len() - i - 1).min(40));
                if r.bool() { b.splice(i..j, []); } else { let x = b[i..j].to_vec(); b.splice(i..i, x); }
            }
            (b, None, "pieces cut or doubled".into())
        }
    }
}
fn w_damage(c: &mut Case) {
    let s = any(c);
    let d = Scratch::new();
    let fmt = *c.rng.pick(&FORMATS);
    let path = d.0.join("m");
    let m: Mesh<CgarF64, 3> = make(&s);
    write::<CgarF64>(fmt, &m, &path).unwrap();
    let text = std::fs::read_to_string(&path).unwrap();
    let (b, must, what) = damage(&mut c.rng, fmt, &text, s.pos.len());
    if b == text.as_bytes() { return; }
    c.nontrivial(hash_str(&format!("{:?}", b)));
    c.ev("damaged");
    if must.is_some() { c.ev("hopeless"); }
    std::fs::write(&path, &b).unwrap();
    let what = format!("{} {}: {}", s.name, fmt, what);
    c.sample("damage", || what.clone());
    match c.rng.below(3) {
        0 => damaged::<CgarF64>(c, fmt, &path, must, &what),
        1 => damaged::<CgarRational>(c, fmt, &path, must, &what),
        _ => damaged::<LazyExact>(c, fmt, &path, must, &what),
    }
    // no file at all, and no place to write
    if c.rng.chance(1, 20) {
        c.ev("no-file");
        let none = d.0.join("none");
        c.check(read::<CgarF64>(fmt, &none).is_err() && read::<CgarF64>(fmt, &d.0).is_err(), "read-nothing", || format!("{}: a missing file or a directory is read", fmt));
        c.check(write::<CgarF64>(fmt, &m, &d.0).is_err() && write::<CgarF64>(fmt, &m, &none.join("x")).is_err(), "write-nowhere", || format!("{}: writing to a directory succeeds", fmt));
    }
}
pub const P22: Prop = Prop {
    id: "P22", schedules: false,
    rule: "meshes after edits are written to every format; the file is read by an independent reader and by the library into every number type, and compared triangle by triangle; files in other layouts; files with cuts, foreign tokens, impossible numbers, counts and indices, and random bytes. Non-trivial: distinct meshes and distinct files",
    assumptions: &["files live in a scratch directory of the check", "exact coordinates are written as the nearest double"],
    workloads: &[
        Workload { name: "round", f: w_round, quick: 24_000, thorough: 400_000 },
        Workload { name: "foreign", f: w_foreign, quick: 24_000, thorough: 400_000 },
        Workload { name: "damage", f: w_damage, quick: 160_000, thorough: 2_000_000 },
    ],
    min_events: &[("written-obj", 500), ("written-off", 500), ("written-stl", 500), ("read-obj", 500), ("read-off", 500), ("read-stl", 500), ("with-removed", 100), ("foreign", 500), ("damaged", 2000), ("hopeless", 1000), ("refused", 1000), ("accepted", 500), ("no-file", 50)],
};
