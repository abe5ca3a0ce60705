//! Meshes against planes (C08) and meshes against meshes (C27), placed by the first contact, and how meshes are built (C23).
use crate::kit::*;
use super::scenes::*;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $scene:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: |cx| { let s = $scene(cx); exact(cx, s) }, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    const L: &str = "contact at a time in [-2,3] (before 0: it starts behind the plane) of a step of length 1, approach with a speed in [1/8,8], sliding by [-8,8], both bodies moving; the other vertices 1/4 to 4 higher; seven turned frames, the collider with an offset";
    add!("C08", "c08_vertex", |cx: &mut Cx| land(cx, Low::Vertex, false), false, &["hit", "too late", "deep"], "a tetrahedron lands on a vertex", L);
    add!("C08", "c08_edge", |cx: &mut Cx| land(cx, Low::Edge, false), false, &["hit", "too late", "deep"], "a tetrahedron lands on an edge", L);
    add!("C08", "c08_face", |cx: &mut Cx| land(cx, Low::Face, false), false, &["hit", "too late", "deep"], "a tetrahedron lands on a face", L);
    add!("C08", "c08_crate", |cx: &mut Cx| land(cx, Low::Square, false), false, &["hit", "too late", "deep"], "a cuboid lands on a face of four vertices", L);
    add!("C08", "c08_flat", |cx: &mut Cx| land(cx, Low::Flat, false), false, &["hit", "too late", "deep"], "a triangle that lies in the plane of contact", L);
    add!("C08", "c08_turned", |cx: &mut Cx| { let l = [Low::Vertex, Low::Edge, Low::Face][cx.int("low", 3)]; land(cx, l, true) }, false, &["hit", "too late", "deep"], "a tetrahedron turned by the rotation of its entity", "as the others, the body turned by [1/4,5/2] about one of three axes, the other vertices 1 or 2 higher");
    v.push(Harness { prop: "C08", name: "c08_units", run: |cx| other_units(cx, |cx| { let low = [Low::Vertex, Low::Face][cx.int("low", 2)]; let s = land(cx, low, false); exact(cx, s) }), thorough: false, reach: &["hit","too late","deep"], about: "a mesh lands on a plane", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c08_vertex, c08_face" });
    v.push(Harness { prop: "C08", name: "c08_leaves", run: leaves, thorough: false, reach: &["leaves"], about: "a mesh that moves away from the plane or along it, above it, on it or in it, is not reported", bounds: "height of the lowest vertex in [-2,2] (along: [1/64,2]), speed away in [1/64,8], sliding by [-8,8], seven turned frames" });
    const P: &str = "contact at a time in [1/16,3/2] of a step of length 1, both meshes moving, three turned frames; approach along the normal with a speed in [1/8,2] at one of two places, aslant with speed 2 and sliding by [-1,1], or straight with speed 2 at a place anywhere at least 1 away from the edges";
    const Q: &str = "contact at a time in [1/16,3/2] of a step of length 1, both meshes moving, three turned frames, two places; approach along the normal with a speed in [1/8,2], or with speed 2 and sliding by -1 or 1/2";
    add!("C27", "c27_triangles", |cx: &mut Cx| poke(cx, false, false, false), false, &["hit", "too late"], "a corner of a triangle meets the inside of a triangle", P);
    add!("C27", "c27_triangles_swapped", |cx: &mut Cx| poke(cx, false, false, true), false, &["hit", "too late"], "the inside of a triangle is met by a corner of a triangle", P);
    add!("C27", "c27_solids", |cx: &mut Cx| poke(cx, true, true, false), false, &["hit", "too late"], "a corner of a tetrahedron meets a face of a tent", Q);
    add!("C27", "c27_solids_all", |cx: &mut Cx| poke(cx, true, false, false), true, &["hit", "too late"], "a corner of a tetrahedron meets a face of a tent", P);
    add!("C27", "c27_solids_swapped", |cx: &mut Cx| poke(cx, true, true, true), false, &["hit", "too late"], "a face of a tent is met by a corner of a tetrahedron", Q);
    v.push(Harness { prop: "C27", name: "c27_units", run: |cx| other_units(cx, |cx| { let kind = cx.int("kind", 2) == 1; let s = poke(cx, kind, true, false); exact(cx, s) }), thorough: false, reach: &["hit","too late"], about: "a corner meets a face", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c27_solids and for triangles" });
    add!("C27", "c27_solids_all_swapped", |cx: &mut Cx| poke(cx, true, false, true), true, &["hit", "too late"], "a face of a tent is met by a corner of a tetrahedron", P);
    v.push(Harness { prop: "C27", name: "c27_miss", run: beside, thorough: false, reach: &["miss"], about: "a corner of a triangle passes beside a triangle", bounds: "passing the plane of the face at a time in [1/16,15/16], 1/64 to 1 beyond one of its edges, speed 2, or exactly in line with an edge and 1/2 to 6 beyond its end, speed 1/2, both meshes moving, both orders, three turned frames" });
    v.push(Harness { prop: "C27", name: "c27_away", run: away, thorough: false, reach: &["miss"], about: "a corner of a triangle moves away from the face of another or along it", bounds: "at a distance in [1/64,2] at the start, speed away in [0,4], both meshes moving, both orders, three turned frames" });
}

#[derive(Clone, Copy, PartialEq)]
pub enum Low { Vertex, Edge, Face, Square, Flat }

/// Lists faces by the numbers of their vertices.
fn hull(p: &[Vec3], faces: &[&[usize]]) -> Vec<Vec<Vec3>> { faces.iter().map(|f| f.iter().map(|&i| p[i]).collect()).collect() }
fn tetra(p: &[Vec3]) -> Vec<Vec<Vec3>> { hull(p, &[&[0, 1, 2], &[0, 1, 3], &[1, 2, 3], &[2, 0, 3]]) }
pub fn cuboid(p: &[Vec3]) -> Vec<Vec<Vec3>> { hull(p, &[&[0, 1, 2, 3], &[4, 5, 6, 7], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7]]) }

/// A mesh and the middle of its lowest vertices, in coordinates along the frame (the first points down, to the plane).
fn shape(cx: &mut Cx, low: Low, few: bool) -> (Vec<(F, F, F)>, (F, F)) {
    let h = |cx: &mut Cx, name: &str, k: f64| if few { num(-k) } else { -cx.real(name, 0.25, 4.0) };
    let p = |x: F, y: f64, z: f64| (x, num(y), num(z));
    let o = zero();
    match low {
        Low::Vertex => { let (a, b) = (h(cx, "h1", 1.0), h(cx, "h2", 2.0)); (vec![p(o, 0.5, 0.25), p(a, 1.5, 0.0), p(b, -1.0, 1.0), p(num(-2.0), 0.0, -1.5)], (num(0.5), num(0.25))) }
        Low::Edge => { let (a, b) = (h(cx, "h1", 1.0), h(cx, "h2", 2.0)); (vec![p(a, 0.5, 1.25), p(o, 1.5, 0.0), p(b, -1.0, 1.0), p(o, 0.5, -1.5)], (num(1.0), num(-0.75))) }
        Low::Face => { let a = h(cx, "h1", 1.0); (vec![p(o, 0.5, 1.0), p(o, 1.75, 0.0), p(a, -1.0, 1.0), p(o, 0.75, -1.75)], (num(1.0), num(-0.25))) }
        Low::Square => { let a = h(cx, "h1", 1.0); let c = [(1.5, 1.0), (-0.5, 1.0), (-0.5, -2.0), (1.5, -2.0)]; ((0..8).map(|i| p(if i < 4 { a } else { o }, c[i % 4].0, c[i % 4].1)).collect(), (num(0.5), num(-0.5))) }
        Low::Flat => (vec![p(o, 0.5, 1.0), p(o, 1.75, 0.0), p(o, 0.75, -1.75)], (num(1.0), num(-0.25))),
    }
}
fn shape_faces(low: Low, p: &[Vec3]) -> Vec<Vec<Vec3>> { match low { Low::Square => cuboid(p), Low::Flat => vec![p.to_vec()], _ => tetra(p) } }

pub fn land(cx: &mut Cx, low: Low, turn: bool) -> Scene {
    let f = if turn { frame_of(0) } else { frame(cx, "n") };
    let t = cx.real("t", -2.0, 3.0);
    let (p, mid) = shape(cx, low, turn);
    let rel = if turn { inframe(&f, num(2.0), num(0.5), num(-1.0)) } else { let (a, b) = (cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0)); inframe(&f, a, b, num(0.5)) };
    let offset = inframe(&f, num(0.5), num(-2.0), num(1.0));
    let (rot, turn) = if turn { let n = frame_of([6, 2, 5][cx.int("axis", 3)])[0]; let w = cx.real("turn", 0.25, 2.5); (mul(&n, w), Some((n, (w * num(0.5)).sin_cos()))) } else { (Vec3::zeros(), None) };
    let out = |v: &Vec3| match turn { Some((n, (s, c))) => turned(v, &n, s, c), None => *v };
    let base = inframe(&f, num(3.5), num(-1.0), num(2.0));
    let corners: Vec<Vec3> = p.iter().map(|c| add(&base, &inframe(&f, c.0, c.1, c.2))).collect();
    let n = out(&f[0]);
    let rel = out(&rel);
    let o = v3(0.5, -1.0, 0.25);
    let x = add(&o, &out(&add(&add(&offset, &base), &inframe(&f, zero(), mid.0, mid.1))));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    let mut m = Solid::new(before(&o, &va, t), va, shape_faces(low, &corners));
    m.offset = offset; m.rot = rot; m.inertia = Mat3::zeros();
    let cb = sub(&add(&x, &out(&inframe(&f, zero(), num(-3.0), num(1.5)))), &aside());
    let w = Wall { vel: vb, offset: aside(), ..Wall::new(before(&cb, &vb, t), mul(&n, num(-1.0))) };
    Scene { a: Box::new(m), b: Box::new(w), t, dt: one(), x, n, ca: o, cb, va, vb, deep: true }
}
fn leaves(cx: &mut Cx) {
    let f = frame(cx, "n");
    let low = [Low::Vertex, Low::Edge, Low::Face][cx.int("low", 3)];
    let (p, _) = shape(cx, low, true);
    let along = cx.int("along", 2) == 1;
    let h = cx.real("h", if along { 0.015625 } else { -2.0 }, 2.0);
    let speed = if along { zero() } else { cx.real("speed", 0.015625, 8.0) };
    let slip = cx.real("slip", -8.0, 8.0);
    let corners: Vec<Vec3> = p.iter().map(|c| inframe(&f, c.0, c.1, c.2)).collect();
    let mut m = Solid::new(inframe(&f, -h, one(), num(-0.5)), inframe(&f, -speed, slip, one()), shape_faces(low, &corners));
    m.inertia = Mat3::zeros();
    let w = Wall::new(inframe(&f, zero(), num(-3.0), num(1.5)), mul(&f[0], num(-1.0)));
    let mut s = awake(1);
    let a = if cx.int("order", 2) == 0 { let a = m.put(&mut s); w.put(&mut s); a } else { w.put(&mut s); m.put(&mut s) };
    go(&mut s, one());
    cx.reached("leaves");
    cx.check("a mesh that does not come closer is not reported", boolean(s.collision_records.is_empty()));
    cx.check("free motion", veq(&ent(&s, a).position, &add(&m.pos, &m.vel)).and(veq(&ent(&s, a).velocity, &m.vel)));
}

/// The face: the triangle, or the front of the tent, with the frame's first vector as the normal into it, around `o`.
const TRI: [(f64, f64); 3] = [(-4.0, -4.0), (8.0, -4.0), (-4.0, 8.0)];
fn tent(f: &[Vec3; 3], solid: bool) -> Vec<Vec<Vec3>> {
    let p = |a: f64, i: usize| inframe(f, num(a), num(TRI[i].0), num(TRI[i].1));
    if !solid { return vec![(0..3).map(|i| p(0.0, i)).collect()]; }
    let q: Vec<Vec3> = (0..6).map(|i| p(if i < 3 { 0.0 } else { 8.0 }, i % 3)).collect();
    hull(&q, &[&[0, 1, 2], &[3, 4, 5], &[0, 1, 4, 3], &[1, 2, 5, 4], &[2, 0, 3, 5]])
}
/// The corner: the apex of a triangle or of a tetrahedron that points along the normal.
fn spike(f: &[Vec3; 3], solid: bool) -> Vec<Vec<Vec3>> {
    let p = |a: f64, b: f64, c: f64| inframe(f, num(a), num(b), num(c));
    let q = [p(-2.0, 1.0, 0.5), p(0.0, 0.0, 0.0), p(-2.5, -0.75, 0.25), p(-3.0, 0.25, -1.0)];
    if solid { tetra(&q) } else { vec![q[..3].to_vec()] }
}
pub fn poke(cx: &mut Cx, solid: bool, few: bool, swap: bool) -> Scene {
    let spiky = solid;
    let f = frame_few(cx, "n");
    let t = cx.real("t", 0.0625, 1.5);
    let way = cx.int("way", if few { 2 } else { 3 });
    let (u, w) = match way { 2 => (cx.real("u", -3.0, 1.0), cx.real("w", -3.0, 1.0)), _ => [(num(-1.0), num(-0.5)), (num(3.5), num(-3.0))][cx.int("place", 2)] };
    let rel = match way { 0 => { let s = cx.real("speed", 0.125, 2.0); mul(&f[0], s) } 1 => { let s = if few { [num(-1.0), num(0.5)][cx.int("slip", 2)] } else { cx.real("slip", -1.0, 1.0) }; inframe(&f, num(2.0), s, num(0.5)) } _ => mul(&f[0], num(2.0)) };
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    let x = v3(0.5, -1.0, 0.25);
    let off = v3(0.5, 0.25, -1.0);
    let (oa, ob) = (sub(&x, &off), sub(&x, &inframe(&f, zero(), u, w)));
    let mut a = Solid::new(before(&oa, &va, t), va, spike(&f, spiky));
    let mut b = Solid::new(before(&ob, &vb, t), vb, tent(&f, solid));
    a.offset = off; a.inertia = Mat3::zeros(); b.inertia = Mat3::zeros();
    if swap { Scene { a: Box::new(b), b: Box::new(a), t, dt: one(), x, n: mul(&f[0], num(-1.0)), ca: ob, cb: oa, va: vb, vb: va, deep: false } }
    else { Scene { a: Box::new(a), b: Box::new(b), t, dt: one(), x, n: f[0], ca: oa, cb: ob, va, vb, deep: false } }
}
fn none(cx: &mut Cx, a: Solid, b: Solid) {
    let mut s = awake(1);
    let (ha, hb) = if cx.int("order", 2) == 0 { let x = a.put(&mut s); (x, b.put(&mut s)) } else { let x = b.put(&mut s); (a.put(&mut s), x) };
    go(&mut s, one());
    cx.reached("miss");
    cx.check("meshes that stay apart do not collide", boolean(s.collision_records.is_empty()));
    cx.check("free motion of the first", veq(&ent(&s, ha).position, &add(&a.pos, &a.vel)).and(veq(&ent(&s, ha).velocity, &a.vel)));
    cx.check("free motion of the second", veq(&ent(&s, hb).position, &add(&b.pos, &b.vel)).and(veq(&ent(&s, hb).velocity, &b.vel)));
}
fn beside(cx: &mut Cx) {
    // exactly in line with an edge and beyond its end, or beside it
    let line = cx.int("line", 2) == 1;
    let f = if line { frame_of(0) } else { frame_few(cx, "n") };
    let t = cx.real("t", 0.0625, 0.9375);
    let gap = if line { cx.real("gap", 0.5, 4.0) } else { cx.real("gap", 0.015625, 1.0) };
    let (u, w) = if line {
        let (k, d, g) = (cx.int("edge", 3), cx.int("end", 2) == 1, gap);
        let (p, q) = (TRI[k], TRI[(k + 1) % 3]);
        let (p, q) = if d { (q, p) } else { (p, q) };
        (num(q.0) + g * num((q.0 - p.0) / 8.0), num(q.1) + g * num((q.1 - p.1) / 8.0))
    } else { match cx.int("edge", 3) { 0 => (num(1.0), num(-4.0) - gap), 1 => (num(-4.0) - gap, num(0.5)), _ => (num(2.0) + gap, num(2.0)) } };
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&f[0], num(if line { 0.5 } else { 2.0 })));
    let x = v3(0.5, -1.0, 0.25);
    let ob = sub(&x, &inframe(&f, zero(), u, w));
    let (mut a, mut b) = (Solid::new(before(&x, &va, t), va, spike(&f, false)), Solid::new(before(&ob, &vb, t), vb, tent(&f, false)));
    a.inertia = Mat3::zeros(); b.inertia = Mat3::zeros();
    none(cx, a, b);
}
fn away(cx: &mut Cx) {
    let f = frame_few(cx, "n");
    let (h, speed) = (cx.real("h", 0.015625, 2.0), cx.real("speed", 0.0, 4.0));
    let (u, w) = [(num(-1.0), num(-0.5)), (num(3.5), num(-3.0))][cx.int("place", 2)];
    let vb = v3(0.25, -0.5, 1.0);
    let va = sub(&vb, &mul(&f[0], speed));
    let (mut a, mut b) = (Solid::new(inframe(&f, -h, u, w), va, spike(&f, false)), Solid::new(Vec3::zeros(), vb, tent(&f, false)));
    a.inertia = Mat3::zeros(); b.inertia = Mat3::zeros();
    none(cx, a, b);
}

pub fn register_build(v: &mut Vec<Harness>) {
    macro_rules! add { ($n:expr, $run:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: "C23", name: $n, run: $run, thorough: false, reach: $reach, about: $about, bounds: $b }); } }
    add!("c23_convex", convex, &["accepted"], "a convex outline of three to six corners is accepted and counted, from any corner and either way around", "corners on three turned planes, moved outward by a symbolic factor in [1,5/4] each, any first corner, both windings");
    add!("c23_few", few, &["refused"], "fewer than three points are refused", "0, 1 or 2 points anywhere in [-4,4]");
    add!("c23_bent", bent, &["refused"], "an outline with one corner off the plane is refused", "four or five corners, any one of them off by [1/16,4] to either side, three turned planes, both windings");
    add!("c23_concave", concave, &["refused"], "a coplanar outline with a dent is refused", "four or five corners with the dent anywhere inside, any first corner, both windings, three turned planes");
    add!("c23_crossed", crossed, &["refused"], "a coplanar outline that crosses itself is refused", "a bow tie and a five-pointed star, sizes in [1/4,4], any first corner, both windings, three turned planes");
    add!("c23_shared", shared, &["counted"], "corners and edges that faces share are stored once", "two polygons of three or four corners that share a side or a corner, any first corners and windings, symbolic sizes");
    add!("c23_changed", changed, &["hit"], "a mesh that was updated to another one with as many corners, edges and faces is met like one that was added as that", "four corners of which one is moved, or two triangles that share the other diagonal; a sphere or a plane that meets a corner, an edge or a face after [1/16,15/16], both ways");
    add!("c23_near", near, &["counted"], "corners that lie close to each other are different corners", "two triangles that share a side and whose third corners are [1/4096,1] apart in any of six directions or a triangle with a short side, any first corner, both windings");
    add!("c23_solids", solids, &["counted"], "tetrahedra, cuboids and prisms have the right numbers of corners and edges", "symbolic sizes in [1/4,4], two of the faces with any first corner and winding");
    add!("c23_readback", readback, &["counted"], "a mesh that went through the system has the same numbers", "a prism of symbolic size, added or updated into another");
    v.push(Harness { prop: "C23", name: "c23_collides", run: |cx| { let s = windings(cx); exact(cx, s) }, thorough: false, reach: &["hit", "too late"], about: "a sphere meets a closed mesh in the same way whatever the windings and first corners of its faces", bounds: "contact at a time in [1/16,3/2] with a face, an edge or a corner, straight approach with speed 2, any face given from any corner and either way around" });
}
/// The points in another order: from `start` on, backwards if `back`.
fn reorder<T: Clone>(p: &[T], start: usize, back: bool) -> Vec<T> { let n = p.len(); (0..n).map(|i| p[if back { start + n - i } else { start + i } % n].clone()).collect() }
fn any_order(cx: &mut Cx, name: &str, p: &[Vec3]) -> Vec<Vec3> { let s = cx.int(&format!("{}.start", name), p.len()); let b = cx.int(&format!("{}.back", name), 2) == 1; reorder(p, s, b) }
fn outline(k: usize) -> Vec<(f64, f64)> {
    match k { 3 => vec![(3.0, 0.0), (-1.0, 2.0), (-2.0, -3.0)], 4 => vec![(3.0, 0.0), (0.5, 3.0), (-2.0, 0.5), (0.0, -3.0)], 5 => vec![(3.0, 0.0), (1.0, 3.0), (-2.0, 2.0), (-3.0, -1.0), (0.0, -3.0)],
        _ => vec![(4.0, 0.0), (2.0, 3.0), (-2.0, 3.0), (-4.0, 0.0), (-2.0, -3.0), (2.0, -3.0)] }
}
fn at(f: &[Vec3; 3], h: F, y: F, z: F) -> Vec3 { add(&v3(0.5, -1.0, 0.25), &inframe(f, h, y, z)) }
fn accepted(m: &mut MeshCollider, p: &Vec<Vec3>) -> bool { !panics(|| { m.add_face(p); }) }
fn counts(cx: &mut Cx, m: &MeshCollider, v: usize, e: usize, f: usize) {
    cx.check("number of corners", boolean(m.vertex_count() == v));
    cx.check("number of edges", boolean(m.edge_count() == e));
    cx.check("number of faces", boolean(m.face_count() == f));
}
fn refused(cx: &mut Cx, p: &Vec<Vec3>) {
    let mut m = MeshCollider::new();
    cx.check("the outline is refused", boolean(!accepted(&mut m, p)));
    cx.reached("refused");
    counts(cx, &m, 0, 0, 0);
}
fn convex(cx: &mut Cx) {
    let f = frame_few(cx, "n");
    let k = 3 + cx.int("corners", 4);
    let moved = cx.int("moved", k);
    let by = cx.real("by", 1.0, 1.25);
    let p: Vec<Vec3> = outline(k).iter().enumerate().map(|(i, c)| { let q = if i == moved { by } else { one() }; at(&f, zero(), num(c.0) * q, num(c.1) * q) }).collect();
    let p = any_order(cx, "face", &p);
    let mut m = MeshCollider::new();
    cx.check("the outline is accepted", boolean(accepted(&mut m, &p)));
    cx.reached("accepted");
    counts(cx, &m, k, k, 1);
    cx.check("the mesh is valid", boolean(m.is_valid()));
}
fn few(cx: &mut Cx) {
    let k = cx.int("corners", 3);
    let p: Vec<Vec3> = (0..k).map(|i| vec(cx, &format!("p{}", i), -4.0, 4.0)).collect();
    refused(cx, &p);
}
fn bent(cx: &mut Cx) {
    let f = frame_few(cx, "n");
    let k = 4 + cx.int("corners", 2);
    let off = cx.int("off", k);
    let h = cx.real("h", 0.0625, 4.0);
    let h = if cx.int("side", 2) == 1 { -h } else { h };
    let p: Vec<Vec3> = outline(k).iter().enumerate().map(|(i, c)| at(&f, if i == off { h } else { zero() }, num(c.0), num(c.1))).collect();
    let b = cx.int("back", 2) == 1;
    refused(cx, &reorder(&p, 0, b));
}
fn concave(cx: &mut Cx) {
    let f = frame_few(cx, "n");
    let k = cx.int("corners", 2);
    // the dent moves along a line inside the triangle that its neighbours make with the far side
    let d = cx.real("dent", 0.125, 1.0);
    let mut c: Vec<(F, F)> = if k == 0 { vec![(num(3.0), num(-2.0)), (num(0.0), num(3.0)), (num(-3.0), num(-2.0))] } else { vec![(num(3.0), num(-2.0)), (num(3.0), num(3.0)), (num(-3.0), num(3.0)), (num(-3.0), num(-2.0))] };
    let side = cx.real("side", -0.5, 0.5);
    c.push((side, num(-2.0) + d));
    let p: Vec<Vec3> = c.iter().map(|c| at(&f, zero(), c.0, c.1)).collect();
    let p = any_order(cx, "face", &p);
    refused(cx, &p);
}
fn crossed(cx: &mut Cx) {
    let f = frame_few(cx, "n");
    let k = cx.real("size", 0.25, 4.0);
    let c: Vec<(f64, f64)> = if cx.int("star", 2) == 1 { let o = outline(5); (0..5).map(|i| o[(2 * i) % 5]).collect() } else { vec![(1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] };
    let p: Vec<Vec3> = c.iter().map(|c| at(&f, zero(), num(c.0) * k, num(c.1) * k)).collect();
    let p = any_order(cx, "face", &p);
    refused(cx, &p);
}
/// Two worlds, in one of which the mesh has become what it is by an update.
fn changed(cx: &mut Cx) {
    let t = cx.real("t", 0.0625, 0.9375);
    let z = cx.real("z", 0.125, 1.0);
    let p = [v3(0.0, 0.0, 0.0), v3(4.0, 0.0, 0.0), v3(4.0, 4.0, 0.0), v3(0.0, 4.0, 0.0)];
    let how = cx.int("how", 3);
    // a ridge along one of the diagonals, in the order in which both meshes store the corners
    let top = |k: usize, h: F| { let mut q = p; q[k] = Vec3::new(q[k].x, q[k].y, q[k].z + h); q };
    let build = |q: &[Vec3; 4], other: bool| {
        let mut m = MeshCollider::new();
        if other { m.add_face(&vec![q[0], q[1], q[2]]); m.add_face(&vec![q[3], q[1], q[2]]); }
        else { m.add_face(&vec![q[0], q[1], q[2]]); m.add_face(&vec![q[0], q[2], q[3]]); }
        m
    };
    // what it becomes, and what it was
    let (now, old) = match how {
        0 => (build(&top(2, z), false), build(&top(2, num(-1.0)), false)),
        1 => (build(&top(2, z), true), build(&top(2, z), false)),
        _ => (build(&top(2, z), false), build(&top(2, z), true)),
    };
    let again = match how { 0 => build(&top(2, z), false), 1 => build(&top(2, z), true), _ => build(&top(2, z), false) };
    let plane = cx.int("plane", 2) == 1;
    // over the edge of two faces, over the diagonal, over the third face, over the last corner
    let (x, y) = [(2.0, 0.0), (3.0, 1.0), (1.0, 1.0), (4.0, 4.0), (1.0, 3.0), (3.5, 3.0), (-0.3, 2.0)][cx.int("over", 7)];
    let run = |update: bool, now: MeshCollider, old: MeshCollider| {
        let mut s = awake(1);
        let mut e = Entity::new(); e.own_mass = inf(); e.position = v3(0.5, -1.0, 0.25);
        let h = s.add_entity(e).unwrap();
        let c = if update {
            let c = s.add_collider(ColliderWrapper::Mesh(old)).unwrap();
            s.link_collider(c, Some(h)).unwrap();
            s.update_collider(c, ColliderWrapper::Mesh(now)).unwrap();
            c
        } else {
            let c = s.add_collider(ColliderWrapper::Mesh(now)).unwrap();
            s.link_collider(c, Some(h)).unwrap();
            c
        };
        let _ = c;
        let v = v3(0.0, 0.0, -4.0);
        if plane {
            // it comes down on the highest corner
            let mut b = Wall::new(add(&v3(0.5, -1.0, 0.25), &sub(&Vec3::new(zero(), zero(), z), &mul(&v, t))), v3(0.0, 0.0, -1.0));
            b.vel = v; 
            b.put(&mut s);
        } else {
            let at = add(&v3(0.5 + x, -1.0 + y, 0.25), &sub(&v3(0.0, 0.0, if x < 0.0 { 0.4 } else { 0.5 }), &mul(&v, t)));
            Ball::new(num(0.5), at, v).put(&mut s);
        }
        s.step(one());
        s
    };
    let (s, w) = (run(true, now, old), run(false, again, MeshCollider::new()));
    let n = w.collision_records.len();
    cx.check("as many collisions", boolean(s.collision_records.len() == n));
    if n > 0 {
        cx.reached("hit");
        if s.collision_records.len() != n { return; }
        let (a, b) = (rec(&s, 0), rec(&w, 0));
        cx.check("at the same time", eq(a.time, b.time));
        cx.check("at the same place", veq(&a.position, &b.position).and(veq(&a.normal, &b.normal)));
    }
}
fn near(cx: &mut Cx) {
    let d = cx.real("d", 1.0 / 4096.0, 1.0);
    let k = cx.int("way", 6);
    let dir = mul(&axis(k % 3), if k < 3 { one() } else { num(-1.0) });
    let o = v3(0.5, -1.0, 2.0);
    let p = |x: f64, y: f64, z: f64| add(&o, &v3(x, y, z));
    let around = |points: Vec<Vec3>, turn: usize, back: bool| { let n = points.len(); let mut r: Vec<Vec3> = (0..n).map(|i| points[(i + turn) % n]).collect(); if back { r.reverse(); } r };
    let (turn, back) = (cx.int("turn", 3), cx.int("back", 2) == 1);
    let mut m = MeshCollider::new();
    let want = if cx.int("short", 2) == 0 {
        m.add_face(&vec![p(0.0, 0.0, 0.0), p(2.0, 0.0, 0.5), p(0.25, 2.0, 0.0)]);
        m.add_face(&around(vec![p(0.0, 0.0, 0.0), p(2.0, 0.0, 0.5), add(&p(0.25, 2.0, 0.0), &mul(&dir, d))], turn, back));
        (4, 5, 2)
    } else {
        // the side between the second and the third corner is short
        m.add_face(&around(vec![p(0.0, 0.0, 0.0), p(2.0, 1.0, -2.0), add(&p(2.0, 1.0, -2.0), &mul(&dir, d))], turn, back));
        (3, 3, 1)
    };
    cx.check("every corner and every edge is stored once", boolean((m.vertex_count(), m.edge_count(), m.face_count()) == want));
    cx.reached("counted");
}
fn shared(cx: &mut Cx) {
    let f = frame_of(5);
    let (a, b) = (cx.real("a", 0.25, 4.0), cx.real("b", 0.25, 4.0));
    let p = |y: F, z: F| at(&f, zero(), y, z);
    let q = |x: F, y: F, z: F| at(&f, x, y, z);
    let square = vec![p(zero(), zero()), p(a, zero()), p(a, b), p(zero(), b)];
    let (other, v, e) = match cx.int("other", 4) {
        0 => (vec![p(a, zero()), p(a + b, zero()), p(a, b)], 5, 6),
        1 => (vec![q(zero(), a, zero()), q(zero(), a, b), q(b, a, b), q(b, a, zero())], 6, 7),
        2 => (vec![p(a, b), p(a + a, b), p(a + b, b + b)], 6, 7),
        _ => (vec![q(a, zero(), zero()), q(a, a, zero()), q(a, zero(), b)], 7, 7),
    };
    let mut m = MeshCollider::new();
    let one = any_order(cx, "first", &square);
    let two = any_order(cx, "second", &other);
    let ok = if cx.int("order", 2) == 0 { accepted(&mut m, &one) && accepted(&mut m, &two) } else { accepted(&mut m, &two) && accepted(&mut m, &one) };
    cx.check("the outline is accepted", boolean(ok));
    cx.reached("counted");
    counts(cx, &m, v, e, 2);
}
fn prism(a: F, b: F, c: F) -> Vec<Vec<Vec3>> {
    let f = frame_of(5);
    let q: Vec<Vec3> = (0..6).map(|i| at(&f, if i < 3 { zero() } else { c }, [zero(), a, zero()][i % 3], [zero(), zero(), b][i % 3])).collect();
    hull(&q, &[&[0, 1, 2], &[3, 4, 5], &[0, 1, 4, 3], &[1, 2, 5, 4], &[2, 0, 3, 5]])
}
fn solids(cx: &mut Cx) {
    let (a, b, c) = (cx.real("a", 0.25, 4.0), cx.real("b", 0.25, 4.0), cx.real("c", 0.25, 4.0));
    let o = zero();
    let (faces, v, e) = match cx.int("solid", 3) {
        0 => (tetra(&[Vec3::new(a, o, o), Vec3::new(o, b, o), Vec3::new(o, o, c), Vec3::new(-a, -b, -c)]), 4, 6),
        1 => { let q: Vec<Vec3> = (0..8).map(|i| Vec3::new([o, a, a, o][i % 4], [o, o, b, b][i % 4], if i < 4 { o } else { c })).collect(); (cuboid(&q), 8, 12) }
        _ => (prism(a, b, c), 6, 9),
    };
    let n = faces.len();
    let k = cx.int("which", n);
    let mut m = MeshCollider::new();
    for (i, p) in faces.iter().enumerate() {
        let p = if i == k { any_order(cx, "one", p) } else if i == (k + 2) % n { any_order(cx, "other", p) } else { p.clone() };
        cx.check("the outline is accepted", boolean(accepted(&mut m, &p)));
    }
    cx.reached("counted");
    counts(cx, &m, v, e, n);
}
fn readback(cx: &mut Cx) {
    let (a, b, c) = (cx.real("a", 0.25, 4.0), cx.real("b", 0.25, 4.0), cx.real("c", 0.25, 4.0));
    let mut s = PhysicsSystem::new();
    let m = Solid::new(Vec3::zeros(), Vec3::zeros(), prism(a, b, c));
    let h = if cx.int("update", 2) == 1 {
        let h = s.add_collider(ColliderWrapper::Mesh(Solid::new(Vec3::zeros(), Vec3::zeros(), vec![vec![axis(0), axis(1), axis(2)]]).collider())).unwrap();
        cx.check("the update is accepted", boolean(s.update_collider(h, ColliderWrapper::Mesh(m.collider())).is_ok()));
        h
    } else { s.add_collider(ColliderWrapper::Mesh(m.collider())).unwrap() };
    cx.reached("counted");
    if let Some(ColliderWrapper::Mesh(m)) = s.get_collider(h) { counts(cx, &m, 6, 9, 5); } else { cx.check("the mesh is there", boolean(false)); }
}
fn windings(cx: &mut Cx) -> Scene {
    use super::touch::*;
    let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)];
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let c = contact(cx, Kind::Solid, at, Way::Few);
    let r = num(0.5);
    let mut list = faces(Kind::Solid, &f);
    let k = cx.int("which", list.len());
    list[k] = any_order(cx, "face", &list[k]);
    let out = |v: &Vec3| inframe(&f, v.x, v.y, v.z);
    let n = out(&c.n);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let o = sub(&x, &out(&c.place));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&n, num(2.0)));
    let mut m = Solid::new(before(&o, &vb, t), vb, list);
    m.inertia = Mat3::zeros();
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(m), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false }
}
