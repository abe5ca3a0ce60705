//! Degenerate but valid worlds stay finite (C24).
use crate::kit::*;
use super::touch::{faces, Kind};

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($n:expr, $run:expr, $t:expr, $about:expr, $b:expr) => { v.push(Harness { prop: "C24", name: $n, run: $run, thorough: $t, reach: &["judged"], about: $about, bounds: $b }); } }
    add!("c24_same_place", |cx| pair(cx, false), false, "two bodies of any kinds in the same place or along a line through it, at rest or moving along it", "sphere, plane, triangle, tent or box; zero, finite or infinite mass; offset in [-3,3] along one of three lines, velocity in [-4,4] along one of three, both fixed or one of them symbolic; one step with one collision");
    add!("c24_touching", |cx| touching(cx, false), false, "bodies that touch, at rest, sliding, leaving or pressing", "sphere, plane, triangle or box; zero, finite or infinite mass; velocity in [-4,4] across or along the contact; restitution 0 or 1, friction 0 or 1; one step with one collision");
    add!("c24_edge", on_edge, false, "a sphere whose centre is on an edge, a corner or a face of a triangle, a tent or a box, or moves through it", "four places, distance from it in [-1,1] along one of three lines with a velocity in [-4,4] along one of three, one of the two symbolic; three masses; one step with one collision");
    add!("c24_touching_more", |cx| touching(cx, true), true, "the same, for longer", "as c24_touching, one or two steps with three collisions each");
    add!("c24_pair_all", |cx| pair(cx, true), true, "the same with offset and velocity symbolic together, with spin", "as c24_same_place, both symbolic, two collisions");
    add!("c24_forces", forces, false, "forces and torques on bodies of any mass and shape", "zero, finite or infinite mass; no, flat (zero about one axis), or full moment of inertia; force in [-4,4]^3 at or off the centre; gravity; with or without spin; up to two steps");
    add!("c24_handles", handles, false, "taking away mass, colliders and entities between steps", "a ball on a ball; six kinds of change, mass in [1/8,8]");
    add!("c24_time", time, false, "steps of any length, backwards too, and any number of collisions", "step of length in [-2,2], iteration limit 0, 1 or 3, a ball in front of a wall with velocity in [-4,4]");
}
fn judge(cx: &mut Cx, s: &PhysicsSystem, list: &[EntityHandle]) {
    cx.reached("judged");
    for &h in list {
        if let Some(e) = s.get_entity(h) {
            cx.check("finite places", boolean(vfinite(&e.position)));
            cx.check("finite rotations", boolean(vfinite(&e.rotation)));
            cx.check("finite velocities", boolean(vfinite(&e.velocity)));
            cx.check("finite spins", boolean(vfinite(&e.angular_velocity)));
        }
    }
    for r in &s.collision_records {
        cx.check("finite records", boolean(vfinite(&r.position) && vfinite(&r.normal) && finite(r.time) && finite(r.restitution_coefficient) && finite(r.impulse_magnitude)));
    }
}
/// A body of one of five kinds around the origin of its local space.
fn body(s: &mut PhysicsSystem, kind: usize, mass: F, pos: Vec3, vel: Vec3, spin: Vec3, e: F, fr: F) -> EntityHandle {
    let mut x = Entity::new();
    x.position = pos; x.velocity = vel; x.angular_velocity = spin;
    // half of the finite mass is the entity's own
    x.own_mass = if kind == 2 || kind == 3 { mass } else { mass * num(0.5) };
    let m = x.own_mass;
    let h = s.add_entity(x).unwrap();
    let c = match kind {
        0 => { let mut b = SphereCollider::new(num(0.5)); b.mass = m; b.restitution_coefficient = e; b.static_friction_coefficient = fr; b.dynamic_friction_coefficient = fr; ColliderWrapper::Sphere(b) }
        1 => { let mut b = PlaneCollider::new(); b.mass = m; b.normal = v3(-1.0, 0.0, 0.0); b.restitution_coefficient = e; b.static_friction_coefficient = fr; b.dynamic_friction_coefficient = fr; ColliderWrapper::Plane(b) }
        2 | 3 => { let f = frame_of(0); let mut b = Solid::new(pos, vel, faces(if kind == 2 { Kind::Tri } else { Kind::Solid }, &f)).collider(); b.restitution_coefficient = e; b.static_friction_coefficient = fr; b.dynamic_friction_coefficient = fr; ColliderWrapper::Mesh(b) }
        _ => { let mut b = AlignedBoxCollider::new(); b.min_corner = v3(-1.0, -1.0, -1.0); b.max_corner = v3(1.0, 1.0, 1.0); b.mass = m; b.restitution_coefficient = e; b.static_friction_coefficient = fr; b.dynamic_friction_coefficient = fr; ColliderWrapper::AlignedBox(b) }
    };
    let c = s.add_collider(c).unwrap();
    s.link_collider(c, Some(h)).unwrap();
    h
}
const MASS: [(f64, f64); 6] = [(1.0, 1.0), (0.0, 1.0), (1.0, f64::INFINITY), (0.0, f64::INFINITY), (f64::INFINITY, 0.5), (1.0, 0.0)];
fn mass(x: f64) -> F { if x.is_infinite() { inf() } else { num(x) } }
const KINDS: [(usize, usize); 12] = [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (1, 0), (1, 2), (2, 1), (3, 1), (2, 2), (3, 2), (4, 0)];
fn pair(cx: &mut Cx, all: bool) {
    let k = KINDS[cx.int("kinds", KINDS.len())];
    let m = if all { MASS[cx.int("masses", 6)] } else { [MASS[0], MASS[2], MASS[3], MASS[5]][cx.int("masses", 4)] };
    let line = |i: usize| [axis(0), axis(1), Vec3::new(frac(2, 3), frac(-1, 3), frac(2, 3))][i];
    let (i, j) = (cx.int("line", 3), cx.int("way", 3));
    let free = if all { 2 } else { cx.int("free", 2) };
    let d = if free != 1 { cx.real("d", -3.0, 3.0) } else { [zero(), num(-0.5)][cx.int("d", 2)] };
    let v = if free != 0 { cx.real("v", -4.0, 4.0) } else { [zero(), num(2.0)][cx.int("v", 2)] };
    let spin = if all && cx.int("spin", 2) == 1 { v3(0.0, 0.5, 1.0) } else { Vec3::zeros() };
    let mut s = awake(if all { 2 } else { 1 });
    let a = body(&mut s, k.0, mass(m.0), mul(&line(i), d), mul(&line(j), v), spin, one(), one());
    let b = body(&mut s, k.1, mass(m.1), Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), num(0.5), one());
    s.step(one());
    judge(cx, &s, &[a, b]);
}
fn on_edge(cx: &mut Cx) {
    let kind = [2, 3, 4][cx.int("kind", 3)];
    let f = frame_of(0);
    // corners next to each other
    let (p, q) = if kind == 4 { (v3(-1.0, -1.0, -1.0), v3(-1.0, 1.0, -1.0)) } else { let all = faces(if kind == 2 { Kind::Tri } else { Kind::Solid }, &f); (all[0][0], all[0][1]) };
    let r = if kind == 4 { v3(-1.0, 1.0, 1.0) } else { faces(Kind::Tri, &f)[0][2] };
    let place = cx.int("place", 4);
    let at = match place { 0 => p, 1 => mul(&add(&p, &q), num(0.5)), 2 => add(&mul(&p, num(0.75)), &mul(&q, num(0.25))), _ => add(&mul(&add(&p, &q), num(0.25)), &mul(&r, num(0.5))) };
    let line = |i: usize| [axis(0), axis(1), Vec3::new(frac(2, 3), frac(-1, 3), frac(2, 3))][i];
    let (i, j) = (cx.int("line", 3), cx.int("way", 3));
    let free = cx.int("free", 2);
    let d = if free == 0 { cx.real("d", -1.0, 1.0) } else { zero() };
    let v = if free == 1 { cx.real("v", -4.0, 4.0) } else { [zero(), num(2.0)][cx.int("v", 2)] };
    let m = [MASS[0], MASS[2], MASS[5]][cx.int("masses", 3)];
    let mut s = awake(1);
    let a = body(&mut s, 0, mass(m.0), add(&at, &mul(&line(i), d)), mul(&line(j), v), Vec3::zeros(), one(), one());
    let b = body(&mut s, kind, mass(m.1), Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), num(0.5), one());
    s.step(one());
    judge(cx, &s, &[a, b]);
}
fn touching(cx: &mut Cx, all: bool) {
    let k = [(0, 0), (0, 1), (0, 2), (0, 4), (1, 0), (4, 0)][cx.int("kinds", 6)];
    let m = MASS[cx.int("masses", MASS.len())];
    let v = mul(&[axis(0), axis(1), Vec3::new(frac(3, 5), zero(), frac(4, 5))][cx.int("way", 3)], cx.real("v", -4.0, 4.0));
    let (e, fr) = ([zero(), one()][cx.int("e", 2)], [zero(), one()][cx.int("friction", 2)]);
    let d = match k { (0, 0) => -1.0, (0, 1) => -0.5, (0, 2) => -0.5, (0, 4) => -1.5, (1, 0) => 0.5, _ => -1.5 };
    let mut s = world(if all { 3 } else { 1 });
    let a = body(&mut s, k.0, mass(m.0), v3(d, 0.0, 0.0), v, Vec3::zeros(), e, fr);
    let b = body(&mut s, k.1, mass(m.1), Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), e, fr);
    for _ in 0..if all { 1 + cx.int("more", 2) } else { 1 } { s.step(num(0.5)); judge(cx, &s, &[a, b]); }
}
#[derive(Debug)]
struct Push(Vec3, Vec3);
impl UnaryForceGenerator for Push { fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force { Force::new(self.0, add(&p.get_entity(h).unwrap().position, &self.1)) } }
fn forces(cx: &mut Cx) {
    let m = [zero(), num(2.0), inf()][cx.int("mass", 3)];
    let i = [v3(0.0, 0.0, 0.0), v3(0.0, 1.0, 1.0), v3(1.0, 2.0, 3.0), v3(0.0, 0.0, 1.0)][cx.int("inertia", 4)];
    let f = vec(cx, "f", -4.0, 4.0);
    let mut s = awake(2);
    s.add_unary_force_generator(Box::new(Push(f, [Vec3::zeros(), v3(0.0, 1.0, -0.5)][cx.int("off", 2)]))).unwrap();
    if cx.int("gravity", 2) == 1 { s.add_unary_force_generator(Box::new(GravityGenerator::new(v3(0.0, 0.0, -8.0)))).unwrap(); }
    let mut e = Entity::new();
    e.rotation = v3(0.5, 0.0, 0.0);
    e.angular_velocity = [Vec3::zeros(), v3(0.0, 1.0, 0.0)][cx.int("spin", 2)];
    let own = cx.int("own", 2) == 1;
    if own { e.own_mass = m; }
    let h = s.add_entity(e).unwrap();
    let mut p = NullCollider::new();
    p.mass = if own { zero() } else { m };
    p.moment_of_inertia = Mat3::from_diagonal(&i);
    p.position = v3(0.5, 0.0, 0.0);
    let c = s.add_collider(ColliderWrapper::Null(p)).unwrap();
    s.link_collider(c, Some(h)).unwrap();
    s.step(num(0.5));
    let x = ent(&s, h);
    cx.reached("judged");
    cx.check("finite velocities", boolean(vfinite(&x.velocity)));
    cx.check("finite spins", boolean(vfinite(&x.angular_velocity)));
    cx.check("finite places", boolean(vfinite(&x.position)));
}
fn handles(cx: &mut Cx) {
    let m = cx.real("m", 0.125, 8.0);
    let mut s = world(3);
    s.add_unary_force_generator(Box::new(GravityGenerator::new(v3(0.0, 0.0, -1.0)))).unwrap();
    let a = body(&mut s, 0, m, v3(0.0, 0.0, 1.25), v3(0.0, 0.0, -1.0), Vec3::zeros(), zero(), one());
    let b = body(&mut s, 0, one(), Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), zero(), one());
    let w = Wall::new(v3(0.0, 0.0, -0.5), v3(0.0, 0.0, 1.0)).put(&mut s);
    s.step(num(0.5));
    let c: Vec<ColliderHandle> = ent(&s, a).get_colliders().iter().cloned().collect();
    match cx.int("change", 6) {
        0 => { for c in c { s.remove_collider(c); } let mut e = ent(&s, a); e.own_mass = zero(); s.update_entity(a, e).unwrap(); }
        1 => { for c in c { s.link_collider(c, Some(b)).unwrap(); } }
        2 => { s.remove_entity(w); }
        3 => { let mut e = ent(&s, b); e.own_mass = inf(); s.update_entity(b, e).unwrap(); }
        4 => { for c in c { s.link_collider(c, None).unwrap(); } }
        _ => { s.remove_entity(b); }
    }
    s.step(num(0.5));
    judge(cx, &s, &[a, b, w]);
}
fn time(cx: &mut Cx) {
    let dt = cx.real("dt", -2.0, 2.0);
    let v = cx.real("v", -4.0, 4.0);
    let mut s = world([0, 1, 3][cx.int("limit", 3)]);
    let a = body(&mut s, 0, one(), v3(-1.0, 0.0, 0.0), mul(&axis(0), v), Vec3::zeros(), one(), one());
    let b = body(&mut s, 1, inf(), Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), one(), one());
    s.step(dt);
    judge(cx, &s, &[a, b]);
}
