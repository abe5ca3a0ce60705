//! Several bodies: records in time order (C20), no passing through (C22), no influence without touch (C26).
use crate::kit::*;
use super::meshes::{land, poke, Low};
use super::scenes::*;
use super::touch::{touch, At, Kind, Way};

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    add!("C20", "c20_two", |cx| two(cx, false), false, &["none", "one", "two", "limit"], "two collisions of separate pairs, in any order of the bodies", "contacts at times in [1/16,3/2] at least 1/16 apart, steps of length in [1/4,2], iteration limit 0 to 3, the second pair a sphere with a sphere, a triangle or a box, three orders of the bodies");
    add!("C20", "c20_two_all", |cx| two(cx, true), true, &["none", "one", "two", "limit"], "two collisions of separate pairs, in any order of the bodies", "contacts at times in [1/16,3/2] at least 1/16 apart, steps of length in [1/4,2], iteration limit 0 to 3, the second pair a sphere with a sphere, a triangle or a box, six orders of the bodies, two turned frames");
    add!("C20", "c20_chain", chain, false, &["one", "two", "limit"], "a ball hits a ball that then hits a third", "first contact at a time in [1/16,3/2], the second [1/16,3/2] later, speed in [1/4,8], steps of length in [1/4,2], iteration limit 1 to 3, six orders of the bodies");
    add!("C20", "c20_walls", walls, false, &["none", "some", "limit"], "a ball goes back and forth between two walls", "first contact at a time in [1/16,3/2], the others [1/4,1] apart, speed in [1/4,8], iteration limit 1 to 5, three orders of the bodies; or both walls on one body, the others [1/8,1] apart, limit 3 or 7");
    add!("C20", "c20_parts", parts, false, &["first", "second", "none"], "bodies of several colliders: the earliest pair of colliders counts", "three colliders each, two pairs of which meet, contacts at times in [1/16,3/2] at least 1/16 apart, linked in three orders, both orders of the bodies, two turned frames");
    add!("C20", "c20_gravity", falling, false, &["hit", "none"], "a ball that gravity makes faster hits the floor", "contact at a time in [1/16,3/2], gravity in [1/8,8], speed in [1/8,8], radius in [1/8,2], steps of length in [1/4,2], seven turned frames");
    add!("C20", "c20_cleared", cleared, false, &["judged"], "the next step starts a new list", "a hit at a time in [1/16,15/16], then one or two steps of length in [1/8,1] without any, or a step back from far apart");
    add!("C20", "c20_ties", ties, false, &["none", "all", "limit"], "collisions at one and the same moment: of three separate pairs, or of a ball in the corner of planes", "contact at a time in [1/16,3/2], a step of length in [1/4,2], iteration limit 1 to 5, three orders of the bodies, restitution one or zero, two turned frames");
    macro_rules! room { ($p:expr, $n:expr, $g:expr, $f:expr, $reach:expr, $about:expr, $b:expr) => { add!($p, $n, |cx| room(cx, $g, $f), false, $reach, $about, concat!($b, "; speeds 2 and 4 towards the walls; restitution 0, 1/2 or 1; two turned frames, both orders of the bodies")); } }
    macro_rules! apart { ($n:expr, $scene:expr, $t:expr, $about:expr, $b:expr) => { add!("C22", $n, |cx| { let s = $scene(cx); apart(cx, s) }, $t, &["bounced", "no hit"], $about, concat!($b, "; restitution in [0,1], up to three collisions")); } }
    apart!("c22_spheres", |cx: &mut Cx| sphere_sphere(cx, FIXED), false, "two spheres", "contact at a time in [0,3] of a step of length 1, radii in [1/8,2], approach in [1/8,8], sliding in [-8,8]^2, seven turned frames");
    apart!("c22_plane", |cx: &mut Cx| sphere_plane(cx, FIXED), false, "a sphere and a plane", "contact at a time in [0,3] of a step of length 1, radius in [1/8,2], approach in [1/8,8], sliding in [-8,8]^2, seven turned frames");
    apart!("c22_mesh", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Tri, at, Way::Once) }, false, "a sphere and a triangle", "contact with face, edge or corner at a time in [1/16,3/2], straight approach");
    apart!("c22_mesh_more", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Tri, at, Way::Plain) }, true, "a sphere and a triangle", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, three places, three turned frames");
    apart!("c22_solid", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Solid, at, Way::Once) }, false, "a sphere and a closed mesh", "contact with face, edge or corner at a time in [1/16,3/2], straight approach");
    apart!("c22_solid_more", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Solid, at, Way::Plain) }, true, "a sphere and a closed mesh", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, three places, three turned frames");
    apart!("c22_box", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Box, at, Way::Plain) }, false, "a sphere and a box", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, three places");
    apart!("c22_fast", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let kind = [Kind::Tri, Kind::Solid, Kind::Box][cx.int("kind", 3)]; touch(cx, kind, at, Way::Fast) }, false, "a small fast sphere and a triangle, a closed mesh or a box", "contact with face, edge or corner at a time in [1/16,3/2], straight approach with a speed in [8,256], radius 1/16");
    apart!("c22_fast_spheres", |cx: &mut Cx| fast(cx), false, "two small fast spheres, or one and a plane", "contact at a time in [1/16,3/2], approach with a speed in [8,256], radii 1/16");
    apart!("c22_land", |cx: &mut Cx| { let low = [Low::Vertex, Low::Edge, Low::Face, Low::Square][cx.int("low", 4)]; land(cx, low, false) }, false, "a mesh and a plane", "landing on a vertex, an edge or a face at a time in [0,3], approach in [1/8,8], sliding in [-8,8], seven turned frames");
    apart!("c22_poke", |cx: &mut Cx| poke(cx, false, false, false), false, "two triangles, corner into face", "contact at a time in [1/16,3/2], three turned frames");
    add!("C22", "c22_corner", corner, false, &["all", "limit"], "a ball flies into the corner of three planes", "contacts at times in [1/16,3/2], restitution 1, 1/2 or 0, iteration limit 3 to 5, two turned frames");
    room!("C22", "c22_room_ball", Guest::Ball, First::Hits, &["one", "more"], "a ball hits two walls of one mesh in a step", "contact with the first wall at 1/4 or 5/8, with the other at a time in [1/16,3/2], at least 1/64 apart");
    room!("C22", "c22_room_cube", Guest::Cube, First::Hits, &["one", "more"], "a cube (a mesh) lands flat on two walls of one mesh in a step", "contact with the first wall at 1/4 or 5/8, with the other at a time in [1/16,3/2], at least 1/64 apart");
    add!("C22", "c22_room_star", |cx| room(cx, Guest::Star, First::Hits), true, &["one", "more"], "an octahedron (a mesh) hits two walls of one mesh with its corners in a step", concat!("contact with the first wall at 1/4 or 5/8, with the other at a time in [1/16,3/2], at least 1/64 apart", "; speeds 2 and 4 towards the walls; restitution 0, 1/2 or 1; two turned frames, both orders of the bodies"));
    room!("C07", "c07_slide", Guest::Ball, First::Slides, &["none", "one"], "a ball that slides along one wall of a mesh hits the other one", "contact at a time in [1/16,3/2]");
    room!("C07", "c07_leave", Guest::Ball, First::Leaves, &["none", "one"], "a ball that begins on one wall of a mesh and leaves it hits the other one", "contact at a time in [1/16,3/2]");
    room!("C27", "c27_slide", Guest::Cube, First::Slides, &["none", "one"], "a cube (a mesh) that slides along one wall of a mesh hits the others", "contact at a time in [1/16,3/2]");
    room!("C27", "c27_leave", Guest::Cube, First::Leaves, &["none", "one"], "a cube (a mesh) that begins on one wall of a mesh and leaves it hits the others", "contact at a time in [1/16,3/2]");
    room!("C27", "c27_star", Guest::Star, First::Leaves, &["none", "one"], "an octahedron (a mesh) that begins on one wall of a mesh with a corner and leaves it hits the others", "contact at a time in [1/16,3/2]");
    room!("C02", "c02_flat", Guest::Cube, First::Hits, &["one", "more"], "a cube (a mesh) that lands flat on walls of a mesh bounces off", "contact with the first wall at 1/4 or 5/8, with the other at a time in [1/16,3/2], at least 1/64 apart");
    add!("C22", "c22_pile", pile, false, &["all", "limit"], "a ball hits a ball in front of a wall", "first contact at a time in [1/16,1], distance from the wall 1/4 to 1, speed in [1/2,4], restitution 1 or 0, iteration limit 2 to 5");
    add!("C26", "c26_far", |cx| alone(cx, By::Far), false, &["hit", "no hit"], "a body that passes at a distance changes nothing for a pair that meets", "the pair (two spheres, a sphere and a triangle, a box or a plane) meets at a time in [1/16,3/2], bystander (sphere, triangle, box) 20 away, or at 1/2 or 5/4, bystander 20 to 40 away, with one of three velocities, added before, between or after");
    add!("C26", "c26_linkless", |cx| alone(cx, By::Unlinked), false, &["hit", "no hit"], "colliders that are linked to nothing change nothing, wherever they are", "the same pairs; a sphere, plane, triangle, box or point collider in the way, never linked or no longer linked");
    add!("C26", "c26_null", |cx| alone(cx, By::Null), false, &["hit", "no hit"], "point colliders collide with nothing", "the same pairs; a body with a point collider of mass in [1/8,8] in the way with any velocity in [-4,4]^3");
    add!("C26", "c26_bare", |cx| alone(cx, By::Bare), false, &["hit", "no hit"], "entities without colliders collide with nothing", "the same pairs; an entity without colliders in the way, mass in [1/8,8] or infinite, any velocity in [-4,4]^3");
    add!("C26", "c26_two", two_alone, false, &["judged"], "two pairs that meet do not influence each other", "as c20_two with limit 3: every body moves as it does without the other pair");
    add!("C26", "c26_chain", free_third, false, &["judged"], "a collision changes only the two bodies that meet", "two spheres meet at a time in [1/16,15/16]; a third and a fourth far away, with one of two velocities and along one direction with a speed in [-2,2], keep them, and spin, and move freely");
    add!("C20", "c20_units", |cx| other_units(cx, |cx| match cx.int("scene", 2) { 0 => chain(cx), _ => walls(cx) }), false, &["none", "one", "two", "limit", "some"], "several collisions in a step", "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c20_chain, c20_walls");
    add!("C20", "c20_units_two", |cx| other_units(cx, |cx| two(cx, false)), true, &["none", "one", "two", "limit"], "two collisions of separate pairs", "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c20_two");
    add!("C22", "c22_units", |cx| other_units(cx, |cx| { let s = match cx.int("scene", 3) { 0 => sphere_sphere(cx, FIXED), 1 => sphere_plane(cx, FIXED), _ => { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let kind = [Kind::Tri, Kind::Box][cx.int("kind", 2)]; touch(cx, kind, at, Way::Once) } }; apart(cx, s) }), false, &["bounced", "no hit"], "two bodies", "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c22_spheres, c22_plane, c22_mesh, c22_box");
    add!("C26", "c26_units", |cx| other_units(cx, two_alone), false, &["judged"], "two pairs that meet do not influence each other", "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c26_two");
}

const ORDERS: [[usize; 4]; 6] = [[0, 1, 2, 3], [2, 3, 0, 1], [0, 2, 1, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]];
/// Puts bodies in one of the orders; the handles come in the given order.
fn put_all(s: &mut PhysicsSystem, list: &[&dyn Put], order: &[usize]) -> Vec<EntityHandle> {
    let mut h: Vec<Option<EntityHandle>> = vec![None; list.len()];
    for &i in order { if i < list.len() { h[i] = Some(list[i].put(s)); } }
    h.into_iter().map(|x| x.unwrap()).collect()
}
/// A pair that meets head-on at `t`, around `o`, in the first direction of the frame. After it, they have swapped velocities.
fn lane(kind: usize, f: &[Vec3; 3], o: Vec3, t: F, speed: F) -> Scene {
    let r = num(0.5);
    let vb = inframe(f, num(-0.5), zero(), zero());
    let va = add(&vb, &mul(&f[0], speed));
    let x = add(&o, &mul(&f[0], r));
    let a = Ball::new(r, before(&o, &va, t), va);
    let (cb, b): (Vec3, Box<dyn Put>) = match kind {
        0 => { let cb = add(&x, &mul(&f[0], r)); (cb, Box::new(Ball::new(r, before(&cb, &vb, t), vb))) }
        1 => { let corner = |p: f64, q: f64| inframe(f, zero(), num(p), num(q)); let mut m = Solid::new(before(&x, &vb, t), vb, vec![vec![corner(-1.0, -1.0), corner(3.0, -1.0), corner(-1.0, 3.0)]]); m.inertia = Mat3::zeros(); (x, Box::new(m)) }
        _ => (x, Box::new(Crate::new(before(&x, &vb, t), vb, v3(0.0, -1.0, -1.0), v3(2.0, 1.0, 1.0)))),
    };
    Scene { a: Box::new(a), b, t, dt: one(), x, n: f[0], ca: o, cb, va, vb, deep: false }
}
fn lanes(cx: &mut Cx, all: bool) -> (Scene, Scene) {
    let k = cx.int("kind", 3);
    let f = if k == 2 { frame_of(0) } else { frame_of(if all { [0, 5][cx.int("n", 2)] } else { 5 }) };
    let (t1, t2) = (cx.real("t1", 0.0625, 1.5), cx.real("t2", 0.0625, 1.5));
    if cx.int("first", 2) == 0 { cx.assume(le(t1 + num(0.0625), t2)); } else { cx.assume(le(t2 + num(0.0625), t1)); }
    let a = lane(0, &f, v3(0.5, -1.0, 0.25), t1, num(2.0));
    let b = lane(k, &f, add(&v3(0.5, -1.0, 0.25), &mul(&f[1], num(100.0))), t2, num(3.0));
    (a, b)
}
fn record(cx: &mut Cx, s: &PhysicsSystem, i: usize, t: F, x: &Vec3, n: &Vec3, a: EntityHandle, b: EntityHandle, dt: F) {
    let r = rec(s, i);
    let forth = r.first_entity == a && r.second_entity == b;
    cx.check("the record names the two that meet", boolean(forth || r.first_entity == b && r.second_entity == a));
    cx.check("the record has the time of the contact", eq(r.time, t));
    cx.check("the time lies in the step", ge(r.time, zero()).and(le(r.time, dt)));
    if i > 0 { cx.check("the records are in order", le(rec(s, i - 1).time, r.time)); }
    cx.check("the record has the place of the contact", veq(&r.position, x));
    cx.check("the normal points off the first", veq(&r.normal, &mul(n, if forth { one() } else { num(-1.0) })));
    cx.check("the two exist", boolean(s.get_entity(r.first_entity).is_some() && s.get_entity(r.second_entity).is_some()));
}
fn two(cx: &mut Cx, all: bool) {
    let (p, q) = lanes(cx, all);
    let dt = cx.real("dt", 0.25, 2.0);
    let limit = cx.int("limit", 4);
    let order = ORDERS[if all { cx.int("order", 6) } else { [0, 3, 4][cx.int("order", 3)] }];
    let mut s = awake(limit as u8);
    let h = put_all(&mut s, &[&*p.a, &*p.b, &*q.a, &*q.b], &order);
    go(&mut s, dt);
    let mut due = vec![];
    if (p.t < dt) { due.push((&p, h[0], h[1])); }
    if (q.t < dt) { due.push((&q, h[2], h[3])); }
    if due.len() == 2 && (q.t < p.t) { due.swap(0, 1); }
    let n = due.len().min(limit);
    let same = s.collision_records.len() == n;
    cx.check("as many records as collisions", boolean(same));
    if !same { return; }
    cx.reached(["none", "one", "two"][n]);
    for i in 0..n { let d = &due[i]; record(cx, &s, i, d.0.t, &d.0.x, &d.0.n, d.1, d.2, dt); }
    if limit == 0 { return; }
    let done = n < limit;
    if !done { cx.reached("limit"); }
    let end = if done { dt } else { due[n - 1].0.t };
    for (k, l) in [(&p, 0), (&q, 2)] {
        // was it resolved?
        let hit = due[..n].iter().any(|d| d.1 == h[l]);
        let (va, vb) = if hit { (k.vb, k.va) } else { (k.va, k.vb) };
        let (a, b) = (ent(&s, h[l]), ent(&s, h[l + 1]));
        cx.check("velocities after the collisions", veq(&a.velocity, &va).and(veq(&b.velocity, &vb)));
        cx.check("places at the end", veq(&a.position, &add(&k.ca, &mul(&va, end - k.t))).and(veq(&b.position, &add(&k.cb, &mul(&vb, end - k.t)))));
    }
}
fn two_alone(cx: &mut Cx) {
    let (p, q) = lanes(cx, false);
    let order = ORDERS[[0, 3, 4][cx.int("order", 3)]];
    let mut s = awake(3);
    let h = put_all(&mut s, &[&*p.a, &*p.b, &*q.a, &*q.b], &order);
    go(&mut s, one());
    cx.reached("judged");
    for (k, l) in [(&p, 0), (&q, 2)] {
        let mut w = awake(3);
        let g = put_all(&mut w, &[&*k.a, &*k.b], &order);
        go(&mut w, one());
        for i in 0..2 { same(cx, &ent(&w, g[i]), &ent(&s, h[l + i])); }
    }
}
fn same(cx: &mut Cx, a: &Entity, b: &Entity) {
    cx.check("the same place", veq(&a.position, &b.position));
    cx.check("the same velocity", veq(&a.velocity, &b.velocity));
    cx.check("the same rotation and spin", veq(&a.rotation, &b.rotation).and(veq(&a.angular_velocity, &b.angular_velocity)));
}
fn chain(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (t1, gap, speed) = (cx.real("t1", 0.0625, 1.5), cx.real("gap", 0.0625, 1.5), cx.real("speed", 0.25, 8.0));
    let dt = cx.real("dt", 0.25, 2.0);
    let limit = 1 + cx.int("limit", 3);
    let t2 = t1 + gap;
    let v = inframe(&f, num(-0.5), num(0.25), zero());
    let fast = add(&v, &mul(&f[0], speed));
    let at = |k: F| add(&v3(0.5, -1.0, 0.25), &mul(&f[0], k));
    // places at the time 0
    let (a, b, c) = (at(zero()), at(one() + speed * t1), at(num(2.0) + speed * t2));
    let r = num(0.5);
    let mut s = awake(limit as u8);
    let h = put_all(&mut s, &[&Ball::new(r, a, fast), &Ball::new(r, b, v), &Ball::new(r, c, v)], &ORDERS[cx.int("order", 6)]);
    go(&mut s, dt);
    let due = if (t2 < dt) { 2 } else if (t1 < dt) { 1 } else { 0 };
    let n = if due < limit { due } else { limit };
    let same = s.collision_records.len() == n;
    cx.check("as many records as collisions", boolean(same));
    if !same { return; }
    if n > 0 { cx.reached(["", "one", "two"][n]); }
    let x = |p: &Vec3, t: F| add(&add(p, &mul(&v, t)), &mul(&f[0], num(-0.5)));
    if n > 0 { record(cx, &s, 0, t1, &x(&b, t1), &f[0], h[0], h[1], dt); }
    if n > 1 { record(cx, &s, 1, t2, &x(&c, t2), &f[0], h[1], h[2], dt); }
    if n == limit { cx.reached("limit"); }
    let end = if n < limit { dt } else { [dt, t1, t2][n] };
    // the excess speed of each ball for how long
    let ts = [if n > 0 { t1 } else { end }, if n > 1 { t2 - t1 } else if n > 0 { end - t1 } else { zero() }, if n > 1 { end - t2 } else { zero() }];
    for (i, p) in [a, b, c].iter().enumerate() {
        let e = ent(&s, h[i]);
        cx.check("places at the end", veq(&e.position, &add(&add(p, &mul(&v, end)), &mul(&f[0], speed * ts[i]))));
        cx.check("velocities after the collisions", veq(&e.velocity, if i == n { &fast } else { &v }));
    }
}
fn walls(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    // both walls may belong to one body
    let joined = cx.int("joined", 2) == 1;
    let (t1, d, speed) = (cx.real("t1", 0.0625, 1.5), cx.real("d", if joined { 0.125 } else { 0.25 }, 1.0), cx.real("speed", 0.25, 8.0));
    let limit = if joined { [3, 7][cx.int("limit", 2)] } else { 1 + cx.int("limit", 5) };
    let c = v3(0.5, -1.0, 0.25);
    let slide = mul(&f[1], num(0.75));
    let r = num(0.5);
    // the centre turns back at hi and lo
    let hi = speed * t1;
    let lo = hi - speed * d;
    cx.assume(le(lo, zero()));
    let w1 = Wall::new(add(&c, &mul(&f[0], hi + r)), mul(&f[0], num(-1.0)));
    let w2 = Wall::new(add(&c, &inframe(&f, lo - r, num(3.0), zero())), f[0]);
    let ball = Ball::new(r, c, add(&mul(&f[0], speed), &slide));
    let mut s = awake(limit as u8);
    let h = if joined {
        let h = put_all(&mut s, &[&ball, &w1], &[[0, 1], [1, 0]][cx.int("order", 2)]);
        let mut p = PlaneCollider::new();
        p.position = in_place(&sub(&w2.pos, &w1.pos)); p.normal = w2.normal; p.mass = zero(); p.static_friction_coefficient = zero(); p.dynamic_friction_coefficient = zero(); p.restitution_coefficient = one();
        let p = s.add_collider(ColliderWrapper::Plane(p)).unwrap();
        s.link_collider(p, Some(h[1])).unwrap();
        vec![h[0], h[1], h[1]]
    } else { put_all(&mut s, &[&ball, &w1, &w2], &ORDERS[cx.int("order", 3)]) };
    let stay = [ent(&s, h[1]).position, ent(&s, h[2]).position];
    go(&mut s, one());
    let mut n = 0;
    let mut t = t1;
    while n < limit && (t < one()) { n += 1; t = t + d; }
    let same = s.collision_records.len() == n;
    cx.check("as many records as collisions", boolean(same));
    if !same { return; }
    cx.reached(if n == 0 { "none" } else if n < limit { "some" } else { "limit" });
    let mut t = t1;
    for i in 0..n {
        let up = i % 2 == 0;
        let x = add(&c, &add(&mul(&slide, t), &mul(&f[0], if up { hi + r } else { lo - r })));
        record(cx, &s, i, t, &x, &mul(&f[0], if up { one() } else { num(-1.0) }), h[0], h[if up { 1 } else { 2 }], one());
        t = t + d;
    }
    let last = t - d;
    let end = if n < limit { one() } else { last };
    let e = ent(&s, h[0]);
    let way = if n % 2 == 0 { speed } else { -speed };
    cx.check("velocity after the collisions", veq(&e.velocity, &add(&slide, &mul(&f[0], way))));
    let from = if n == 0 { zero() } else if n % 2 == 1 { hi } else { lo };
    let since = if n == 0 { end } else { end - last };
    cx.check("place at the end", veq(&e.position, &add(&c, &add(&mul(&slide, end), &mul(&f[0], from + way * since)))));
    for i in 1..3 { let e = ent(&s, h[i]); cx.check("the walls stay", veq(&e.position, &stay[i - 1]).and(veq(&e.velocity, &Vec3::zeros()))); }
}
fn parts(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (t1, t2) = (cx.real("t1", 0.0625, 1.5), cx.real("t2", 0.0625, 1.5));
    if cx.int("early", 2) == 0 { cx.assume(le(t1 + num(0.0625), t2)); } else { cx.assume(le(t2 + num(0.0625), t1)); }
    let r = num(0.5);
    let speed = num(2.0);
    let vb = inframe(&f, num(-0.5), num(0.25), zero());
    let va = add(&vb, &mul(&f[0], speed));
    let (pa, pb) = (v3(0.5, -1.0, 0.25), add(&v3(0.5, -1.0, 0.25), &mul(&f[0], num(12.0))));
    let far = mul(&f[1], num(100.0));
    // the front colliders of the second body, as far off those of the first as takes the time
    let ca = [Vec3::zeros(), far, mul(&far, num(2.0))];
    let cb = [inframe(&f, speed * t1 + one() - num(12.0), zero(), zero()), add(&far, &inframe(&f, speed * t2 + one() - num(12.0), zero(), zero())), mul(&far, num(-2.0))];
    let (flip, la, lb) = (cx.int("flip", 2) == 1, cx.int("links", 3), cx.int("links2", 3));
    let mut s = awake(1);
    let mut body = |s: &mut PhysicsSystem, p: &Vec3, v: &Vec3, c: &[Vec3; 3], first: usize| {
        let mut e = Entity::new();
        e.position = *p; e.velocity = *v; e.own_mass = one();
        let h = s.add_entity(e).unwrap();
        for k in 0..3 {
            let mut b = Ball::new(r, *p, *v);
            b.mass = zero(); b.center = c[(first + k) % 3]; b.e = [one(), num(0.5), zero()][(first + k) % 3];
            let k = s.add_collider(ColliderWrapper::Sphere(b.collider())).unwrap();
            s.link_collider(k, Some(h)).unwrap();
        }
        h
    };
    let (a, b) = if flip { let b = body(&mut s, &pb, &vb, &cb, lb); (body(&mut s, &pa, &va, &ca, la), b) } else { let a = body(&mut s, &pa, &va, &ca, la); (a, body(&mut s, &pb, &vb, &cb, lb)) };
    go(&mut s, one());
    let k = if (t1 < t2) { 0 } else { 1 };
    let t = [t1, t2][k];
    if s.collision_records.is_empty() { cx.check("a collision during the step is reported", ge(t, one())); cx.reached("none"); return; }
    cx.check("a reported collision happens during the step", le(t, one()));
    cx.reached(["first", "second"][k]);
    let x = add(&add(&pa, &ca[k]), &add(&mul(&va, t), &mul(&f[0], r)));
    record(cx, &s, 0, t, &x, &f[0], a, b, one());
    cx.check("restitution of the colliders that meet", eq(s.collision_records[0].restitution_coefficient, [one(), num(0.25)][k]));
    cx.check("the bodies are at the contact", veq(&ent(&s, a).position, &add(&pa, &mul(&va, t))).and(veq(&ent(&s, b).position, &add(&pb, &mul(&vb, t)))));
}
#[derive(Debug)]
struct Pull(Vec3);
impl UnaryForceGenerator for Pull { fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force { let e = p.get_entity(h).unwrap(); Force::new(mul(&self.0, e.get_last_total_mass()), e.position) } }
fn falling(cx: &mut Cx) {
    let f = frame(cx, "n");
    let (t, g, speed, r) = (cx.real("t", 0.0625, 1.5), cx.real("g", 0.125, 8.0), cx.real("speed", 0.125, 8.0), cx.real("r", 0.125, 2.0));
    let dt = cx.real("dt", 0.25, 2.0);
    let v = inframe(&f, speed, num(0.5), zero());
    let c = v3(0.5, -1.0, 0.25);
    let x = add(&c, &mul(&f[0], r));
    let pull = mul(&f[0], g);
    let b = Ball::new(r, before(&c, &v, t), sub(&v, &mul(&pull, dt)));
    let w = Wall::new(add(&x, &mul(&f[1], num(3.0))), mul(&f[0], num(-1.0)));
    let mut s = awake(1);
    if cx.int("kind", 2) == 0 { s.add_unary_force_generator(Box::new(Pull(pull))).unwrap(); } else { s.add_unary_force_generator(Box::new(GravityGenerator::new(pull))).unwrap(); }
    let h = put_all(&mut s, &[&b, &w], &[[0, 1], [1, 0]][cx.int("order", 2)]);
    go(&mut s, dt);
    let e = ent(&s, h[0]);
    if s.collision_records.is_empty() {
        cx.reached("none");
        cx.check("a collision during the step is reported", ge(t, dt));
        cx.check("free motion", veq(&e.velocity, &v).and(veq(&e.position, &add(&c, &mul(&v, dt - t)))));
        return;
    }
    cx.reached("hit");
    record(cx, &s, 0, t, &x, &f[0], h[0], h[1], dt);
    cx.check("the ball is at the contact", veq(&e.position, &c));
    cx.check("velocity after the collision", veq(&e.velocity, &sub(&v, &mul(&f[0], num(2.0) * speed))));
}
fn cleared(cx: &mut Cx) {
    let t = cx.real("t", 0.0625, 0.9375);
    let dt = cx.real("dt", 0.125, 1.0);
    let f = frame_of(5);
    let p = lane(cx.int("kind", 2), &f, v3(0.5, -1.0, 0.25), t, num(2.0));
    let mut s = awake(3);
    let h = put_all(&mut s, &[&*p.a, &*p.b], &[0, 1]);
    go(&mut s, one());
    cx.check("the pair meets once", boolean(s.collision_records.len() == 1));
    match cx.int("then", 3) {
        2 => {
            // backwards, from far apart
            let mut e = ent(&s, h[0]);
            e.position = add(&e.position, &v3(0.0, 500.0, 0.0));
            s.update_entity(h[0], e).unwrap();
            s.step(-dt);
            cx.check("old records are gone", boolean(s.collision_records.is_empty()));
        }
        more => for _ in 0..1 + more { go(&mut s, dt); cx.check("old records are gone", boolean(s.collision_records.is_empty())); }
    }
    cx.check("the pair has swapped velocities", veq(&ent(&s, h[0]).velocity, &p.vb).and(veq(&ent(&s, h[1]).velocity, &p.va)));
    cx.reached("judged");
}

/// What the bodies may overlap by: the crate treats movements below 1e-6 as none.
fn slack() -> F { num(1.0 / 65536.0 / units().len.min(1.0)) }
/// After the whole step, the place of contact on the first body has not gone past that on the second.
fn apart(cx: &mut Cx, mut sc: Scene) {
    let e = cx.real("e", 0.0, 1.0);
    cx.assume(ge(sc.t, zero()));
    sc.a.set_e(e);
    let mut s = awake(3);
    let h = put_all(&mut s, &[&*sc.a, &*sc.b], &[0, 1]);
    go(&mut s, sc.dt);
    if s.collision_records.len() >= 3 { cx.check("no more than the limit", boolean(s.collision_records.len() == 3)); return; }
    cx.reached(if s.collision_records.is_empty() { "no hit" } else { "bounced" });
    let (a, b) = (ent(&s, h[0]).position, ent(&s, h[1]).position);
    let depth = dot(&sub(&sub(&a, &sc.ca), &sub(&b, &sc.cb)), &sc.n);
    cx.check("the bodies do not pass through each other", le(depth, slack()));
}
fn fast(cx: &mut Cx) -> Scene {
    let f = frame(cx, "n");
    let (t, speed) = (cx.real("t", 0.0625, 1.5), cx.real("speed", 8.0, 256.0));
    let r = num(0.0625);
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &inframe(&f, speed, num(0.5), zero()));
    let c = v3(0.5, -1.0, 0.25);
    let x = add(&c, &mul(&f[0], r));
    let a = Ball::new(r, before(&c, &va, t), va);
    let plane = cx.int("plane", 2) == 1;
    let cb = add(&x, &if plane { mul(&f[1], num(2.0)) } else { mul(&f[0], r) });
    let b: Box<dyn Put> = if plane { Box::new(Wall { vel: vb, ..Wall::new(before(&cb, &vb, t), mul(&f[0], num(-1.0))) }) } else { Box::new(Ball::new(r, before(&cb, &vb, t), vb)) };
    Scene { a: Box::new(a), b, t, dt: one(), x, n: f[0], ca: c, cb, va, vb, deep: plane }
}
fn corner(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let t = [cx.real("t1", 0.0625, 1.5), cx.real("t2", 0.0625, 1.5), cx.real("t3", 0.0625, 1.5)];
    let speed = [2.0, 1.0, 4.0];
    let e = [one(), num(0.5), zero()][cx.int("e", 3)];
    let limit = 3 + cx.int("limit", 3);
    let r = num(0.5);
    let mut s = awake(limit as u8);
    let mut ball = Ball::new(r, v3(0.5, -1.0, 0.25), inframe(&f, num(speed[0]), num(speed[1]), num(speed[2])));
    ball.e = e;
    let mut list: Vec<Box<dyn Put>> = vec![Box::new(ball)];
    for i in 0..3 { list.push(Box::new(Wall::new(add(&ball.pos, &mul(&f[i], num(speed[i]) * t[i] + r)), mul(&f[i], num(-1.0))))); }
    let l: Vec<&dyn Put> = list.iter().map(|x| &**x).collect();
    let h = put_all(&mut s, &l, &ORDERS[cx.int("order", 2)]);
    go(&mut s, one());
    if s.collision_records.len() >= limit { cx.reached("limit"); } else { cx.reached("all"); }
    let end = ent(&s, h[0]).position;
    for i in 0..3 { cx.check("the ball stays in front of the planes", le(dot(&sub(&end, &ball.pos), &f[i]), num(speed[i]) * t[i] + slack())); }
}
/// What flies into the corner of a room whose walls are faces of one mesh.
#[derive(Clone, Copy, PartialEq)]
pub enum Guest { Ball, Cube, Star }
/// How it meets the first wall: in flight, sliding along it from the start, or leaving it from the start.
#[derive(Clone, Copy, PartialEq)]
pub enum First { Hits, Slides, Leaves }
pub fn room(cx: &mut Cx, guest: Guest, first: First) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let h = num(0.5);
    let walls = 2;
    let e = [zero(), one(), num(0.5)][cx.int("e", 3)];
    let mut t: Vec<F> = vec![];
    for i in 0..walls { t.push(if i == 0 { if first == First::Hits { [num(0.25), num(0.625)][cx.int("t1", 2)] } else { zero() } } else { cx.real(&format!("t{}", i + 1), 0.0625, 1.5) }); }
    // not at the same moment, nor just at the end
    if first == First::Hits { cx.assume(ge((t[0] - t[1]).abs(), frac(1, 64))); }
    for &t in &t[1..] { cx.assume(ge((t - one()).abs(), frac(1, 64))); }
    let mut speed = vec![num(2.0), num(4.0), num(0.5)];
    if first == First::Slides { speed[0] = zero(); }
    if first == First::Leaves { speed[0] = num(-1.0); }
    // the corner is here
    let k = v3(0.5, -1.0, 0.25);
    let far = |i: usize| if i < walls { speed[i] * t[i] + h } else { num(4.0) };
    let pos = sub(&k, &inframe(&f, far(0), far(1), far(2)));
    let vel = inframe(&f, speed[0], speed[1], speed[2]);
    let mut faces = vec![];
    for i in 0..walls {
        let (u, w) = (&f[(i + 1) % 3], &f[(i + 2) % 3]);
        let p = |a: f64, b: f64| add(&mul(u, num(a)), &mul(w, num(b)));
        faces.push(vec![p(0.0, 0.0), p(-16.0, 0.0), p(-16.0, -16.0), p(0.0, -16.0)]);
    }
    let mut house = Solid::new(k, Vec3::zeros(), faces);
    house.mass = inf();
    let at = |x: f64, y: f64, z: f64| inframe(&f, num(x), num(y), num(z));
    let body: Box<dyn Put> = match guest {
        Guest::Ball => { let mut b = Ball::new(h, pos, vel); b.e = e; Box::new(b) }
        _ => {
            let q: Vec<Vec3> = if guest == Guest::Cube { (0..8).map(|i| at([-0.5, 0.5, 0.5, -0.5][i % 4], [-0.5, -0.5, 0.5, 0.5][i % 4], if i < 4 { -0.5 } else { 0.5 })).collect() }
                else { (0..6).map(|i| { let x = if i % 2 == 0 { 0.5 } else { -0.5 }; at(if i / 2 == 0 { x } else { 0.0 }, if i / 2 == 1 { x } else { 0.0 }, if i / 2 == 2 { x } else { 0.0 }) }).collect() };
            let mut m = Solid::new(pos, vel, if guest == Guest::Cube { super::meshes::cuboid(&q) } else { (0..8usize).map(|i| vec![q[i & 1], q[2 + (i >> 1 & 1)], q[4 + (i >> 2)]]).collect() });
            m.inertia = Mat3::zeros(); m.e = e;
            Box::new(m)
        }
    };
    let mut s = awake(6);
    let (b, w) = if cx.int("order", 2) == 0 { let b = body.put(&mut s); (b, house.put(&mut s)) } else { let w = house.put(&mut s); (body.put(&mut s), w) };
    go(&mut s, one());
    let mut want: Vec<usize> = vec![];
    for i in (if first == First::Hits { 0 } else { 1 })..walls { if t[i] < one() { want.push(i); } }
    cx.reached(["none", "one", "more", "more"][want.len()]);
    let all = s.collision_records.len() == want.len();
    cx.check("each wall that is reached is hit once", boolean(all));
    let end = ent(&s, b);
    for i in 0..walls {
        let hit = want.contains(&i);
        let v = if hit { -e * speed[i] } else { speed[i] };
        cx.check("the velocity towards a wall turns back if it is hit", eq(dot(&end.velocity, &f[i]), v));
        let gone = if hit { speed[i] * t[i] + v * (one() - t[i]) } else { v };
        cx.check("the body stays in front of the walls", eq(dot(&sub(&end.position, &pos), &f[i]), gone));
    }
    if !all { return; }
    let mut seen = vec![false; walls];
    let mut last = zero();
    for j in 0..want.len() {
        let r = rec(&s, j);
        cx.check("in time order", le(last, r.time + slack()));
        last = r.time;
        let ahead = r.first_entity == b;
        cx.check("the two that meet", boolean(ahead && r.second_entity == w || !ahead && r.first_entity == w && r.second_entity == b));
        let n = if ahead { r.normal } else { mul(&r.normal, num(-1.0)) };
        let at = want.iter().cloned().find(|&i| f64_of(dot(&n, &f[i])) > 0.75);
        cx.check("the normal points to a wall", boolean(at.is_some()));
        let i = match at { Some(i) => i, None => return };
        cx.check("each wall once", boolean(!seen[i]));
        seen[i] = true;
        cx.check("the normal is that of the wall", veq(&n, &f[i]));
        cx.check("the time at which it gets there", eq(r.time, t[i]));
        cx.check("the place is on the wall", eq(dot(&sub(&r.position, &k), &f[i]), zero()));
    }
}
fn ties(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (t, dt) = (cx.real("t", 0.0625, 1.5), cx.real("dt", 0.25, 2.0));
    let limit = 1 + cx.int("limit", 5);
    let order = ORDERS[[0, 3, 4][cx.int("order", 3)]];
    let mut s = awake(limit as u8);
    let o = v3(0.5, -1.0, 0.25);
    let meets = t < dt;
    let n = if meets { limit.min(3) } else { 0 };
    cx.reached(if !meets { "none" } else if limit > 3 { "all" } else { "limit" });
    if cx.int("scene", 2) == 0 {
        let l: Vec<Scene> = (0..3).map(|i| lane(if i == 1 && order[0] == 0 { 1 } else { 0 }, &f, add(&o, &mul(&f[1], num(100.0 * i as f64))), t, num(2.0 + i as f64))).collect();
        let mut h: Vec<Option<EntityHandle>> = vec![None; 6];
        for i in order.iter().map(|i| i / 2).chain(order.iter().map(|i| 2 + i)) { let k = &l[i % 3]; for e in 0..2 { let p = 2 * (i % 3) + e; if h[p].is_none() { h[p] = Some(if e == 0 { k.a.put(&mut s) } else { k.b.put(&mut s) }); } } }
        for p in 0..6 { if h[p].is_none() { h[p] = Some(if p % 2 == 0 { l[p / 2].a.put(&mut s) } else { l[p / 2].b.put(&mut s) }); } }
        let h: Vec<EntityHandle> = h.into_iter().map(|x| x.unwrap()).collect();
        go(&mut s, dt);
        let same = s.collision_records.len() == n;
        cx.check("as many records as collisions", boolean(same));
        if !same { return; }
        let mut hit = [false; 3];
        for i in 0..n {
            let (a, b) = (rec(&s, i).first_entity, rec(&s, i).second_entity);
            let which = (0..3).find(|k| a == h[2 * k] && b == h[2 * k + 1] || b == h[2 * k] && a == h[2 * k + 1]);
            cx.check("the record names two that meet", boolean(which.is_some()));
            let k = match which { Some(k) => k, None => return };
            cx.check("each collision has one record", boolean(!hit[k]));
            hit[k] = true;
            record(cx, &s, i, t, &l[k].x, &l[k].n, h[2 * k], h[2 * k + 1], dt);
        }
        let end = if limit > n { dt } else { t };
        for k in 0..3 {
            let (va, vb) = if hit[k] { (l[k].vb, l[k].va) } else { (l[k].va, l[k].vb) };
            let (a, b) = (ent(&s, h[2 * k]), ent(&s, h[2 * k + 1]));
            cx.check("velocities after the collisions", veq(&a.velocity, &va).and(veq(&b.velocity, &vb)));
            cx.check("places at the end", veq(&a.position, &add(&l[k].ca, &mul(&va, end - t))).and(veq(&b.position, &add(&l[k].cb, &mul(&vb, end - t)))));
        }
    } else {
        let e = [one(), zero()][cx.int("e", 2)];
        let (r, speed) = (num(0.5), [2.0, 1.0, 4.0]);
        let v = inframe(&f, num(speed[0]), num(speed[1]), num(speed[2]));
        let mut ball = Ball::new(r, before(&o, &v, t), v);
        ball.e = e;
        let walls: Vec<Wall> = (0..3).map(|i| { let mut w = Wall::new(add(&o, &mul(&f[i], r)), mul(&f[i], num(-1.0))); w.e = e; w }).collect();
        let h = put_all(&mut s, &[&ball, &walls[0], &walls[1], &walls[2]], &order);
        go(&mut s, dt);
        let same = s.collision_records.len() == n;
        cx.check("as many records as collisions", boolean(same));
        if !same { return; }
        let mut hit = [false; 3];
        for i in 0..n {
            let (a, b) = (rec(&s, i).first_entity, rec(&s, i).second_entity);
            let which = (0..3).find(|k| a == h[0] && b == h[k + 1] || b == h[0] && a == h[k + 1]);
            cx.check("the record names two that meet", boolean(which.is_some()));
            let k = match which { Some(k) => k, None => return };
            cx.check("each collision has one record", boolean(!hit[k]));
            hit[k] = true;
            record(cx, &s, i, t, &add(&o, &mul(&f[k], r)), &f[k], h[0], h[k + 1], dt);
        }
        let mut after = [zero(); 3];
        for k in 0..3 { after[k] = if hit[k] { num(-speed[k]) * e } else { num(speed[k]) }; }
        let after = inframe(&f, after[0], after[1], after[2]);
        let end = if limit > n { dt } else { t };
        let b = ent(&s, h[0]);
        cx.check("velocities after the collisions", veq(&b.velocity, &after));
        cx.check("places at the end", veq(&b.position, &add(&o, &mul(&after, end - t))));
    }
}
fn pile(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (t, gap, speed) = (cx.real("t", 0.0625, 1.0), cx.real("gap", 0.25, 1.0), cx.real("speed", 0.5, 4.0));
    let e = [one(), zero()][cx.int("e", 2)];
    let limit = 2 + cx.int("limit", 4);
    let r = num(0.5);
    let at = |k: F| add(&v3(0.5, -1.0, 0.25), &mul(&f[0], k));
    let mut a = Ball::new(r, at(-(speed * t) - one()), mul(&f[0], speed));
    let mut b = Ball::new(r, at(zero()), Vec3::zeros());
    a.e = e; b.e = one();
    let mut w = Wall::new(at(gap + r), mul(&f[0], num(-1.0)));
    w.e = e;
    let mut s = awake(limit as u8);
    let h = put_all(&mut s, &[&a, &b, &w], &ORDERS[cx.int("order", 3)]);
    go(&mut s, one());
    if s.collision_records.len() >= limit { cx.reached("limit"); } else { cx.reached("all"); }
    let (x, y) = (ent(&s, h[0]).position, ent(&s, h[1]).position);
    cx.check("the balls do not pass through each other", ge(dot(&sub(&y, &x), &f[0]), one() - slack()));
    cx.check("the ball stays in front of the wall", le(dot(&sub(&y, &at(zero())), &f[0]), gap + slack()));
}

#[derive(Clone, Copy, PartialEq)]
enum By { Far, Unlinked, Null, Bare }
/// Some pair that meets.
fn pair(cx: &mut Cx, fixed: bool) -> Scene {
    let t = if fixed { [num(0.5), num(1.25)][cx.int("t", 2)] } else { cx.real("t", 0.0625, 1.5) };
    let k = cx.int("pair", 4);
    let f = if k == 2 { frame_of(0) } else { frame_of(5) };
    let o = v3(0.5, -1.0, 0.25);
    if k < 3 { return lane(k, &f, o, t, num(2.0)); }
    let va = inframe(&f, num(2.0), num(0.5), zero());
    let x = add(&o, &mul(&f[0], num(0.5)));
    Scene { a: Box::new(Ball::new(num(0.5), before(&o, &va, t), va)), b: Box::new(Wall::new(x, mul(&f[0], num(-1.0)))), t, dt: one(), x, n: f[0], ca: o, cb: x, va, vb: Vec3::zeros(), deep: true }
}
fn alone(cx: &mut Cx, by: By) {
    let fixed = by == By::Far && cx.int("fixed", 2) == 1;
    let p = pair(cx, fixed);
    let mut w = awake(3);
    let g = put_all(&mut w, &[&*p.a, &*p.b], &[0, 1]);
    go(&mut w, one());
    let when = cx.int("when", 3);
    let mut s = awake(3);
    let mut h = vec![];
    let way = inframe(&frame_of(5), num(-1.0), num(0.5), num(0.25));
    let mut bystander = None;
    let mut loose = None;
    if by == By::Far { let d = if fixed { cx.real("d", 20.0, 40.0) } else { num(20.0) }; let v = num([-2.0, 0.0, 2.0][cx.int("v", 3)]); bystander = Some((d, v, cx.int("kind", 3))); }
    if by == By::Unlinked { loose = Some((cx.int("kind", 5), cx.int("how", 2))); }
    let (mass, vel) = if by == By::Null || by == By::Bare { (if by == By::Bare && cx.int("heavy", 2) == 1 { inf() } else { cx.real("m", 0.125, 8.0) }, vec(cx, "v", -4.0, 4.0)) } else { (one(), Vec3::zeros()) };
    for i in 0..3 {
        if i == when {
            match by {
                By::Far => {
                    let (d, v, kind) = bystander.unwrap();
                    let at = add(&p.x, &mul(&way, d));
                    let vel = mul(&frame_of(5)[1], v);
                    match kind {
                        0 => { Ball::new(num(0.75), at, vel).put(&mut s); }
                        1 => { Solid::new(at, vel, vec![vec![axis(0), axis(1), axis(2)]]).put(&mut s); }
                        _ => { Crate::new(at, vel, v3(-1.0, -1.0, -1.0), v3(1.0, 1.0, 1.0)).put(&mut s); }
                    }
                }
                By::Unlinked => {
                    let (kind, how) = loose.unwrap();
                    let c = match kind {
                        0 => { let mut b = SphereCollider::new(num(0.5)); b.center = p.x; ColliderWrapper::Sphere(b) }
                        1 => { let mut b = PlaneCollider::new(); b.position = p.x; b.mass = zero(); b.normal = mul(&p.n, num(-1.0)); ColliderWrapper::Plane(b) }
                        2 => { let mut b = MeshCollider::new(); b.position = p.x; b.add_face(&vec![axis(0), axis(1), axis(2)]); ColliderWrapper::Mesh(b) }
                        3 => { let mut b = AlignedBoxCollider::new(); b.position = p.x; ColliderWrapper::AlignedBox(b) }
                        _ => { let mut b = NullCollider::new(); b.position = p.x; ColliderWrapper::Null(b) }
                    };
                    let c = s.add_collider(c).unwrap();
                    if how == 1 {
                        let mut e = Entity::new();
                        e.own_mass = one();
                        let h = s.add_entity(e).unwrap();
                        s.link_collider(c, Some(h)).unwrap();
                        s.link_collider(c, None).unwrap();
                    }
                }
                By::Null | By::Bare => {
                    let mut e = Entity::new();
                    e.position = p.x; e.velocity = vel;
                    if by == By::Bare { e.own_mass = mass; }
                    let h = s.add_entity(e).unwrap();
                    if by == By::Null {
                        let mut b = NullCollider::new();
                        b.mass = mass;
                        let c = s.add_collider(ColliderWrapper::Null(b)).unwrap();
                        s.link_collider(c, Some(h)).unwrap();
                    }
                }
            }
        }
        if i == 0 { h.push(p.a.put(&mut s)); } else if i == 1 { h.push(p.b.put(&mut s)); }
    }
    go(&mut s, one());
    let n = w.collision_records.len();
    cx.reached(if n == 0 { "no hit" } else { "hit" });
    cx.check("the same collisions", boolean(s.collision_records.len() == n));
    for i in 0..2 { same(cx, &ent(&w, g[i]), &ent(&s, h[i])); }
}
fn free_third(cx: &mut Cx) {
    let t = cx.real("t", 0.0625, 0.9375);
    let f = frame_of(5);
    let p = lane(0, &f, v3(0.5, -1.0, 0.25), t, num(2.0));
    let (v, w) = ([v3(1.0, -2.0, 0.5), v3(-2.0, 0.0, 1.0)][cx.int("v", 2)], mul(&v3(1.0, 0.5, -1.0), cx.real("w", -2.0, 2.0)));
    let spin = v3(0.0, 0.0, 0.5);
    let mut c = Ball::new(num(0.5), v3(64.0, 0.0, 0.0), v);
    c.spin = spin;
    let d = Ball::new(num(0.5), v3(0.0, -64.0, 0.0), w);
    let mut s = awake(3);
    let h = put_all(&mut s, &[&*p.a, &*p.b, &c, &d], &ORDERS[cx.int("order", 6)]);
    go(&mut s, one());
    cx.reached("judged");
    cx.check("one collision", boolean(s.collision_records.len() == 1));
    for (i, b) in [(2, &c), (3, &d)] {
        let e = ent(&s, h[i]);
        cx.check("the others keep their velocity", veq(&e.velocity, &b.vel).and(veq(&e.angular_velocity, &b.spin)));
        cx.check("the others move freely", veq(&e.position, &add(&b.pos, &b.vel)));
    }
}
