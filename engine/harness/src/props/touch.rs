//! Spheres that touch a mesh (C07) or an aligned box (C09), placed by the first contact.
use crate::kit::*;
use super::scenes::*;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $scene:expr, $t:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: |cx| { let s = $scene(cx); exact(cx, s) }, thorough: $t, reach: &["hit", "too late"], about: $about, bounds: $b }); } }
    macro_rules! miss { ($p:expr, $n:expr, $run:expr, $t:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: &["miss"], about: $about, bounds: $b }); } }
    const S: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach with a speed in [1/8,8] straight along the normal, radius in [1/8,2], three turned frames, both bodies moving";
    const M: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach with speed 2, sliding along by [-2,2] in one of two directions, radius 1/4, three places, three turned frames";
    const L: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach with speed 2, sliding along by [-2,2] in one of two directions, radius 1/4, one place, one turned frame";
    const N: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach with speed 2, sliding along by -1 or 1/2 in one of two directions, radius 1/4, four normals, one turned frame";
    const P: &str = "contact at a time in [1/16,3/2] of a step of length 1, straight approach with speed 2, radius 1/2, three places, three turned frames";
    const W: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach with speed 2, sliding along in one of three ways, radius 1/4, the place anywhere but within 1 of the edges and ends, three turned frames";
    const R: &str = "contact at a time in [1/16,3/2] of a step of length 1, straight approach with speed 2, the body turned by [1/4,5/2] about one of three axes, offset of the collider";
    add!("C07", "c07_face", |cx: &mut Cx| touch(cx, Kind::Tri, At::Face, Way::Straight), false, "a sphere falls straight onto the inside of a triangle", S);
    add!("C07", "c07_edge", |cx: &mut Cx| touch(cx, Kind::Tri, At::Edge, Way::Straight), false, "a sphere meets an edge of a triangle, from one of three directions", S);
    add!("C07", "c07_corner", |cx: &mut Cx| touch(cx, Kind::Tri, At::Corner, Way::Straight), false, "a sphere meets a corner of a triangle, from one of three directions", S);
    add!("C07", "c07_face_slip", |cx: &mut Cx| touch(cx, Kind::Tri, At::Face, Way::Slip), false, "the inside of a triangle met aslant", M);
    add!("C07", "c07_edge_slip", |cx: &mut Cx| touch(cx, Kind::Tri, At::Edge, Way::Slip), true, "an edge of a triangle met aslant", M);
    add!("C07", "c07_corner_slip", |cx: &mut Cx| touch(cx, Kind::Tri, At::Corner, Way::Slip), true, "a corner of a triangle met aslant", M);
    add!("C07", "c07_edge_few", |cx: &mut Cx| touch(cx, Kind::Tri, At::Edge, Way::Few), false, "an edge of a triangle met aslant", L);
    add!("C07", "c07_corner_few", |cx: &mut Cx| touch(cx, Kind::Tri, At::Corner, Way::Few), false, "a corner of a triangle met aslant", N);
    v.push(Harness { prop: "C07", name: "c07_units", run: |cx| other_units(cx, |cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let kind = [Kind::Tri, Kind::Solid][cx.int("kind", 2)]; let s = touch(cx, kind, at, Way::Once); exact(cx, s) }), thorough: false, reach: &["hit","too late"], about: "a sphere and a triangle or a closed mesh", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c07_face, c07_edge, c07_corner at one place" });
    add!("C07", "c07_solid_face", |cx: &mut Cx| touch(cx, Kind::Solid, At::Face, Way::Straight), false, "a sphere meets a face of a closed mesh (a tent: two triangles, three rectangles)", S);
    add!("C07", "c07_solid_edge", |cx: &mut Cx| touch(cx, Kind::Solid, At::Edge, Way::Straight), true, "an edge of a closed mesh", S);
    add!("C07", "c07_solid_edge_few", |cx: &mut Cx| touch(cx, Kind::Solid, At::Edge, Way::Plain), false, "an edge of a closed mesh", P);
    add!("C07", "c07_solid_corner", |cx: &mut Cx| touch(cx, Kind::Solid, At::Corner, Way::Straight), false, "a corner of a closed mesh", S);
    add!("C07", "c07_face_wide", |cx: &mut Cx| touch(cx, Kind::Tri, At::Face, Way::Wide), false, "the inside of a triangle met anywhere, aslant in one of three ways", W);
    add!("C07", "c07_edge_wide", |cx: &mut Cx| touch(cx, Kind::Tri, At::Edge, Way::Wide), false, "an edge of a triangle met anywhere, aslant in one of three ways", W);
    add!("C07", "c07_turned", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Tri, at, Way::Turned) }, false, "a triangle turned by the rotation of its entity and moved by the position of the collider", R);
    add!("C07", "c07_plate", |cx: &mut Cx| plate(cx), false, "a sphere meets a polygon of four to six corners, inside near each corner or at the middle of each side, the collider with an offset", "contact at a time in [1/16,3/2] of a step of length 1, straight approach with a speed in [1/8,8], radius 1/2, regular and stretched outlines, one turned frame");
    add!("C07", "c07_rim", |cx: &mut Cx| rim(cx), false, "a sphere meets an edge or a corner of a small triangle from nearly above", "contact at a time in [1/16,3/2] of a step of length 1, straight approach with a speed in [1/8,8] aslant to the face by 1/16, 1/4 or 1/8, radius 3/16, triangle with sides of 3, 3/8, 12 or 3/32, one turned frame");
    miss!("C07", "c07_miss", |cx| passby(cx, Kind::Tri), false, "a sphere that passes a triangle by, beyond a face, an edge or a corner", "closest approach at a time in [-1,2] with a gap in [1/64,2], radius 1/2, speed 2 along one of two directions, both ways");
    add!("C09", "c09_face", |cx: &mut Cx| touch(cx, Kind::Box, At::Face, Way::Straight), false, "a sphere meets a face of a box", S);
    add!("C09", "c09_edge", |cx: &mut Cx| touch(cx, Kind::Box, At::Edge, Way::Straight), false, "a sphere meets an edge of a box, from one of three directions", S);
    add!("C09", "c09_corner", |cx: &mut Cx| touch(cx, Kind::Box, At::Corner, Way::Straight), false, "a sphere meets a corner of a box, from one of three directions", S);
    add!("C09", "c09_face_slip", |cx: &mut Cx| touch(cx, Kind::Box, At::Face, Way::Slip), false, "a face of a box met aslant", M);
    add!("C09", "c09_sides", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Box, at, Way::Plain) }, false, "a sphere meets a box from every side", P);
    add!("C09", "c09_edge_few", |cx: &mut Cx| touch(cx, Kind::Box, At::Edge, Way::Few), false, "an edge of a box met aslant", L);
    add!("C09", "c09_corner_few", |cx: &mut Cx| touch(cx, Kind::Box, At::Corner, Way::Few), false, "a corner of a box met aslant", N);
    v.push(Harness { prop: "C09", name: "c09_units", run: |cx| other_units(cx, |cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let s = touch(cx, Kind::Box, at, Way::Once); exact(cx, s) }), thorough: false, reach: &["hit","too late"], about: "a sphere and a box", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c09_sides at one place" });
    add!("C09", "c09_edge_slip", |cx: &mut Cx| touch(cx, Kind::Box, At::Edge, Way::Slip), true, "an edge of a box met aslant", M);
    add!("C09", "c09_corner_slip", |cx: &mut Cx| touch(cx, Kind::Box, At::Corner, Way::Slip), true, "a corner of a box met aslant", M);
    add!("C09", "c09_face_wide", |cx: &mut Cx| touch(cx, Kind::Box, At::Face, Way::Wide), false, "a face of a box met anywhere, aslant in one of three ways", W);
    add!("C09", "c09_edge_wide", |cx: &mut Cx| touch(cx, Kind::Box, At::Edge, Way::Wide), false, "an edge of a box met anywhere, aslant in one of three ways", W);
    add!("C09", "c09_turned", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Box, at, Way::Turned) }, false, "a box turned by the rotation of its entity and moved by its own position", R);
    add!("C09", "c09_spin", |cx: &mut Cx| spin(cx), false, "a sphere meets the middle of a face of a box that spins about the line the sphere comes along, after a turn about another axis", "contact at a time in [1/16,3/2] of a step of length 1, approach with a speed in [1/8,8], the box turned by [1/4,5/2] about one of three axes and spinning by [1/4,5/2], offset of the collider, three faces");
    miss!("C09", "c09_miss", |cx| passby(cx, Kind::Box), false, "a sphere that passes a box by, beyond a face, an edge or a corner", "closest approach at a time in [-1,2] with a gap in [1/64,2], radius 1/2, speed 2 along one of two directions, both ways");
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Tri, Solid, Box }
#[derive(Clone, Copy, PartialEq)]
pub enum At { Face, Edge, Corner }
#[derive(Clone, Copy, PartialEq)]
pub enum Way { Straight, Slip, Few, Plain, Once, Fast, Wide, Turned }

/// The corners of the triangle in the plane of the last two coordinates.
const TRI: [(f64, f64); 3] = [(-4.0, -4.0), (8.0, -4.0), (-4.0, 8.0)];
/// The box: from 0 to 8, -4 to 8 and -4 to 6. The tent: the triangle with its right angle up front, deep along the first coordinate.
const LO: [f64; 3] = [0.0, -4.0, -4.0];
const HI: [f64; 3] = [8.0, 8.0, 6.0];
fn fv(a: (i64, i64, i64, i64)) -> Vec3 { Vec3::new(frac(a.0, a.3), frac(a.1, a.3), frac(a.2, a.3)) }

/// A contact in the coordinates of the body: the place, the normal (into the body) and two directions along the contact.
pub struct Contact { pub place: Vec3, pub n: Vec3, pub along: [Vec3; 2] }
/// `Wide`: the place is symbolic.
pub fn contact(cx: &mut Cx, kind: Kind, at: At, way: Way) -> Contact {
    let (wide, few) = (way == Way::Wide, way == Way::Few || way == Way::Fast || way == Way::Once);
    let (mut n, place);
    let k;
    match at {
        At::Face => {
            // the front face; of a lone triangle also the back
            let (u, w) = if wide { (cx.real("u", -3.0, 1.0), cx.real("w", -3.0, 1.0)) } else { [(num(-1.0), num(-0.5)), (num(2.0), num(-3.75)), (num(-3.9375), num(-3.9375))][cx.int("place", 3)] };
            place = Vec3::new(zero(), u, w);
            n = axis(0);
            if kind == Kind::Tri && cx.int("side", 2) == 1 { n = v3(-1.0, 0.0, 0.0); }
            k = (1, 2);
        }
        At::Edge => {
            // the edge along the second coordinate
            let u = if wide { cx.real("u", -3.0, 5.0) } else { [num(-3.5), num(2.0), num(7.75)][if few { 1 } else { cx.int("place", 3) }] };
            place = Vec3::new(zero(), u, num(-4.0));
            n = fv([(4, 0, 3, 5), (0, 0, 1, 1), (-3, 0, 4, 5), (5, 0, 12, 13)][cx.int("from", if kind == Kind::Tri { 3 } else { 1 }) + if kind == Kind::Tri { 0 } else { 3 * cx.int("steep", 2) }]);
            k = (1, 0);
        }
        At::Corner => {
            // the corner at the right angle
            place = v3(0.0, -4.0, -4.0);
            n = fv([(2, 1, 2, 3), (3, 2, 6, 7), (-2, 2, 1, 3), (0, 3, 4, 5)][cx.int("from", if kind == Kind::Tri { 4 } else { 2 })]);
            k = (0, 0);
        }
    }
    let along = match at { At::Face => [axis(k.0), axis(k.1)], At::Edge => [axis(1), cross(&axis(1), &n)], At::Corner => [cross(&n, &axis(0)), cross(&n, &axis(1))] };
    Contact { place, n, along }
}
/// Looks at the body from another side: its coordinates in another order and perhaps reversed.
fn seen(v: &Vec3, k: (usize, bool)) -> Vec3 { let s = if k.1 { num(-1.0) } else { one() }; along(k.0, v[0] * s, v[1] * s, v[2] * s) }
pub fn faces(kind: Kind, f: &[Vec3; 3]) -> Vec<Vec<Vec3>> {
    let p = |a: f64, i: usize| inframe(f, num(a), num(TRI[i].0), num(TRI[i].1));
    match kind {
        Kind::Tri => vec![(0..3).map(|i| p(0.0, i)).collect()],
        _ => {
            let mut v = vec![(0..3).map(|i| p(0.0, i)).collect::<Vec<_>>(), (0..3).map(|i| p(8.0, i)).collect()];
            for i in 0..3 { let j = (i + 1) % 3; v.push(vec![p(0.0, i), p(0.0, j), p(8.0, j), p(8.0, i)]); }
            v
        }
    }
}
/// The body with its local origin at `o`.
pub fn body(kind: Kind, f: &[Vec3; 3], o: Vec3, vel: Vec3, rot: Vec3, offset: Vec3) -> Box<dyn Put> { body_from(kind, f, o, vel, rot, offset, (0, false)) }
fn body_from(kind: Kind, f: &[Vec3; 3], o: Vec3, vel: Vec3, rot: Vec3, offset: Vec3, from: (usize, bool)) -> Box<dyn Put> {
    match kind {
        Kind::Box => { let (lo, hi) = (seen(&v3(LO[0], LO[1], LO[2]), from), seen(&v3(HI[0], HI[1], HI[2]), from)); let (lo, hi) = if from.1 { (hi, lo) } else { (lo, hi) }; let mut b = Crate::new(o, vel, lo, hi); b.rot = rot; b.offset = offset; Box::new(b) }
        _ => { let mut m = Solid::new(o, vel, faces(kind, f)); m.rot = rot; m.offset = offset; m.inertia = Mat3::zeros(); Box::new(m) }
    }
}
/// A frame for the geometry of a mesh; a box is aligned with the axes, in any order of corners.
pub fn pose(cx: &mut Cx, kind: Kind) -> [Vec3; 3] { if kind == Kind::Box { frame_of(0) } else { frame_few(cx, "n") } }
pub fn touch(cx: &mut Cx, kind: Kind, at: At, way: Way) -> Scene {
    let from = if kind == Kind::Box && way == Way::Plain { let k = cx.int("seen", 6); (k % 3, k > 2) } else if kind == Kind::Box && way == Way::Turned { [(0, false), (1, true), (2, true)][cx.int("seen", 3)] } else { (0, false) };
    let f = if (way == Way::Few || way == Way::Fast || way == Way::Once) && kind != Kind::Box { frame_of(5) } else if way == Way::Turned { frame_of(0) } else { pose(cx, kind) };
    let t = cx.real("t", 0.0625, 1.5);
    let c = contact(cx, kind, at, way);
    let r = match way { Way::Straight => cx.real("r1", 0.125, 2.0), Way::Slip | Way::Few | Way::Wide => num(0.25), Way::Turned | Way::Plain | Way::Once => num(0.5), Way::Fast => num(0.0625) };
    let speed = match way { Way::Straight => cx.real("speed", 0.125, 8.0), Way::Fast => cx.real("speed", 8.0, 256.0), _ => num(2.0) };
    let mut rel = mul(&c.n, speed);
    if way == Way::Slip || way == Way::Few { rel = add(&rel, &{ let k = cx.int("way", 2); let by = if way == Way::Few && at == At::Corner { [num(-1.0), num(0.5)][cx.int("slip", 2)] } else { cx.real("slip", -2.0, 2.0) }; mul(&c.along[k], by) }); }
    if way == Way::Wide { let k = [(0.5, -0.25), (-1.0, 0.0), (0.25, 1.0)][cx.int("way", 3)]; rel = add(&rel, &add(&mul(&c.along[0], num(k.0)), &mul(&c.along[1], num(k.1)))); }
    let (rot, offset, turn) = if way == Way::Turned { let n = frame_of([6, 2, 5][cx.int("axis", 3)])[0]; let w = cx.real("turn", 0.25, 2.5); (mul(&n, w), v3(0.5, -2.0, 1.0), Some((n, (w * num(0.5)).sin_cos()))) } else { (Vec3::zeros(), Vec3::zeros(), None) };
    let out = |v: &Vec3| { let v = seen(v, from); let v = inframe(&f, v.x, v.y, v.z); match turn { Some((n, (s, c))) => turned(&v, &n, s, c), None => v } };
    let n = out(&c.n);
    let rel = out(&rel);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let o = sub(&x, &out(&add(&c.place, &offset)));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    let mut ball = Ball::new(r, before(&c1, &va, t), va);
    ball.mass = one();
    Scene { a: Box::new(ball), b: body_from(kind, &f, before(&o, &vb, t), vb, rot, seen(&offset, from), from), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false }
}
/// A sphere that passes by: at its closest it is `gap` off the place of contact.
fn passby(cx: &mut Cx, kind: Kind) {
    let f = pose(cx, kind);
    let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)];
    let c = contact(cx, kind, at, Way::Plain);
    let t = cx.real("t", -1.0, 2.0);
    let (r, gap, speed) = (num(0.5), cx.real("gap", 0.015625, 2.0), num(2.0));
    let back = cx.int("back", 2) == 1;
    let rel = mul(&c.along[cx.int("along", 2)], if back { -speed } else { speed });
    let out = |v: &Vec3| inframe(&f, v.x, v.y, v.z);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &out(&mul(&c.n, r + gap)));
    let o = sub(&x, &out(&c.place));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &out(&rel));
    let mut s = awake(1);
    let (pa, pb) = (before(&c1, &va, t), before(&o, &vb, t));
    let a = Ball::new(r, pa, va).put(&mut s);
    let b = body(kind, &f, pb, vb, Vec3::zeros(), Vec3::zeros()).put(&mut s);
    go(&mut s, one());
    cx.reached("miss");
    cx.check("bodies that stay apart do not collide", boolean(s.collision_records.is_empty()));
    cx.check("free motion of the first", veq(&ent(&s, a).position, &add(&pa, &va)).and(veq(&ent(&s, a).velocity, &va)));
    cx.check("free motion of the second", veq(&ent(&s, b).position, &add(&pb, &vb)).and(veq(&ent(&s, b).velocity, &vb)));
}
/// A sphere meets a polygon of more than three corners.
fn plate(cx: &mut Cx) -> Scene {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let k = 4 + cx.int("corners", 3);
    let p: Vec<(f64, f64)> = match k { 4 => vec![(3.0, 0.0), (0.5, 3.0), (-2.0, 0.5), (0.0, -3.0)], 5 => vec![(3.0, 0.0), (1.0, 3.0), (-2.0, 2.0), (-3.0, -1.0), (0.0, -3.0)], _ => vec![(4.0, 0.0), (2.0, 3.0), (-2.0, 3.0), (-4.0, 0.0), (-2.0, -3.0), (2.0, -3.0)] };
    let i = cx.int("which", k);
    let (a, b) = (p[i], p[(i + 1) % k]);
    let r = num(0.5);
    let speed = cx.real("speed", 0.125, 8.0);
    // at the inside near a corner from either side, or at the middle of a side from outside
    let (place, n) = match cx.int("feature", 3) {
        0 => ((a.0 * 0.75, a.1 * 0.75), f[0]),
        1 => ((a.0 * 0.75, a.1 * 0.75), mul(&f[0], num(-1.0))),
        _ => {
            let (u, w) = (b.0 - a.0, b.1 - a.1);
            // straight against the side, within the plane of the polygon and a little from above: 3/5 along the normal
            let l = (num(u * u + w * w)).sqrt();
            let out = inframe(&f, zero(), num(-w) / l, num(u) / l);
            (((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0), add(&mul(&f[0], frac(3, 5)), &mul(&out, frac(4, 5))))
        }
    };
    let corners: Vec<Vec3> = p.iter().map(|c| inframe(&f, zero(), num(c.0), num(c.1))).collect();
    let start = cx.int("start", 2) * (k - 1);
    let corners: Vec<Vec3> = (0..k).map(|j| corners[(start + j) % k]).collect();
    let offset = v3(0.5, -2.0, 1.0);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let o = sub(&x, &add(&offset, &inframe(&f, zero(), num(place.0), num(place.1))));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&n, speed));
    let mut m = Solid::new(before(&o, &vb, t), vb, vec![corners]);
    m.offset = offset; m.inertia = Mat3::zeros();
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(m), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false }
}
/// A sphere meets an edge or a corner of a triangle almost as if it was the face.
fn rim(cx: &mut Cx) -> Scene {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let r = num(0.1875);
    let speed = cx.real("speed", 0.125, 8.0);
    let (c, s, h, size) = [(1023, 64, 1025, num(0.25)), (63, 16, 65, num(0.03125)), (255, 32, 257, one()), (255, 32, 257, num(0.0078125))][cx.int("slope", 4)];
    let feature = cx.int("corner", 4);
    let (place, n) = if feature == 0 { ((num(0.0), num(-4.0)), inframe(&f, frac(c, h), zero(), frac(s, h))) } else { ((num(-4.0), num(-4.0)), inframe(&f, frac(c, h), frac(3 * s, 5 * h), frac(4 * s, 5 * h))) };
    let mut corners: Vec<Vec3> = TRI.iter().map(|c| inframe(&f, zero(), num(c.0) * size, num(c.1) * size)).collect();
    // the corner may be any of the three that the face is given by
    if feature > 1 { corners.rotate_left(feature - 1); }
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let o = sub(&x, &inframe(&f, zero(), place.0 * size, place.1 * size));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&n, speed));
    let mut m = Solid::new(before(&o, &vb, t), vb, vec![corners]);
    m.inertia = Mat3::zeros();
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(m), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false }
}
/// A sphere meets the middle of a face of a box that spins about the line along which the sphere comes.
fn spin(cx: &mut Cx) -> Scene {
    let t = cx.real("t", 0.0625, 1.5);
    let (r, speed) = (num(0.5), cx.real("speed", 0.125, 8.0));
    let m = frame_of([6, 2, 5][cx.int("axis", 3)])[0];
    let (u, w) = (cx.real("turn", 0.25, 2.5), cx.real("w", 0.25, 2.5));
    let (sn, cn) = (u * num(0.5)).sin_cos();
    let k = cx.int("face", 3);
    let out = |v: &Vec3| turned(v, &m, sn, cn);
    let n = out(&axis(k));
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let o = add(&x, &mul(&n, num(0.75)));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&n, speed));
    let offset = along(k, num(0.25), num(0.5), num(-0.25));
    let mut b = Crate::new(before(&o, &vb, t), vb, along(k, num(-1.0), num(-2.0), num(-1.5)), along(k, num(2.0), num(1.0), num(1.0)));
    b.rot = mul(&m, u); b.spin = mul(&n, w); b.offset = offset;
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(b), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false }
}
