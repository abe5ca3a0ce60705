//! Free motion (C15), forces (C16) and orientations (C19).
use crate::kit::*;
use super::impact::{apply, spectrum};

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    const B: &str = "positions, velocities in [-8,8]^3, spin about one of three axes, start turned about one of three axes, steps of length in [-2,2]";
    add!("C15", "c15_spin", |cx| free(cx, true), false, &["judged"], "an entity with colliders off its origin moves and turns freely, one or two steps of any length", B);
    add!("C15", "c15_slide", |cx| free(cx, false), false, &["judged"], "the same without spin", B);
    add!("C15", "c15_creep", creep, false, &["judged"], "the slowest movements and turns are carried out too, of who is awake and of who is falling asleep", "speeds and spins of [1/65536,1/16] along one of three axes, one to three steps of length in [1/16,1]");
    add!("C15", "c15_tensor", tensor, false, &["judged"], "the moments of inertia turn with the body", "spin by [1/4,5/2] about one of three axes, main moments in [1/2,2] about two frames");
    add!("C15", "c15_swift", swift, false, &["judged"], "turns of more than half a turn, or of more than a whole one, in a single step", "turns by [3,49/8] (less than a whole turn) or [51/8,100] (more) about one of three axes, after no turn or a symbolic one, one step or two");
    add!("C15", "c15_masses", masses, false, &["judged"], "entities without mass and of infinite mass move freely too", B);
    add!("C15", "c15_nothing", nothing, false, &["judged"], "a step of no length changes nothing at all", "steps of length in (-1e-6, 1e-6), in the middle of a history with a collision, a force and an entity that is falling asleep");
    add!("C15", "c15_neighbors", company, false, &["judged"], "free motion among others: a crowd of bodies that pass each other", B);
    const F: &str = "forces in [-4,4]^3, masses in [1/4096,4096], steps of length in [1/16,2]";
    add!("C16", "c16_push", push, false, &["judged"], "one force and one torque on a body with a symbolic mass and symbolic main moments of inertia, turned", F);
    add!("C16", "c16_sum", sum, false, &["judged"], "several generators add up, entity by entity; removed ones stop", F);
    add!("C16", "c16_drowsy", drowsy, false, &["judged"], "forces act the same on who is slow and on its way to sleep", "forces in [-4,4]^3, masses in [1/4096,4096], three steps of length in [1/16,1]");
    add!("C16", "c16_gravity", gravity, false, &["judged"], "gravity gives every finite mass the same acceleration and no spin; others none", F);
    add!("C16", "c16_tree", lever, false, &["judged"], "a force away from the centre of mass of several colliders", F);
    const O: &str = "every rotation (by stereographic projection), positions and offsets in [-4,4]^3, points and directions in [-4096,4096]^3";
    add!("C19", "c19_rigid", |cx| rigid(cx, false), false, &["judged"], "conversions are inverse and rigid", O);
    add!("C19", "c19_rigid_axis", |cx| rigid(cx, true), false, &["judged"], "the same for orientations made of rotation vectors", "rotation by [1/4,3] about one of seven axes");
    add!("C19", "c19_affect", affect, false, &["judged"], "movements: translation moves everything alike, rotation keeps the centre and composes after", "rotation by [1/4,5/2] about one of seven axes after any rotation");
    add!("C19", "c19_lerp", lerp, false, &["judged"], "interpolation starts at the start, ends at the end and is rigid and uniform in between", "turn by [1/4,5/2] about one of seven axes after a turn about one of three, time in [0,1]");
    add!("C19", "c19_entity", entity, false, &["judged"], "the orientation of an entity in the system", "rotation by [1/4,3] about one of seven axes");
}

/// One of three turned frames: axis and angle.
fn pick(cx: &mut Cx, name: &str, lo: f64, hi: f64) -> (Vec3, F) { let k = cx.int(&format!("{}.axis", name), 3); (frame_of([0, 3, 5][k])[0], cx.real(name, lo, hi)) }
fn half(w: F) -> (F, F) { (w * num(0.5)).sin_cos() }

fn free(cx: &mut Cx, spin: bool) {
    let mut s = awake(3);
    let (n, a) = pick(cx, "turn", 0.25, 2.5);
    let mut e = Entity::new();
    let p = vec(cx, "p", -8.0, 8.0);
    let v = vec(cx, "v", -8.0, 8.0);
    // the axis of the spin is another one
    let k = cx.int("spin.axis", 2);
    let m = frame_of([6, 2][k])[0];
    let w = if spin { cx.real("spin", 0.25, 2.0) } else { zero() };
    e.position = p;
    e.velocity = v;
    e.rotation = mul(&n, a);
    e.angular_velocity = mul(&m, w);
    e.own_mass = num(0.5);
    let h = s.add_entity(e).unwrap();
    let c = v3(0.5, -1.0, 0.25);
    let mut b = SphereCollider::new(num(0.5)); b.center = c; b.mass = cx.real("mass", 0.000244140625, 4096.0);
    let x = s.add_collider(ColliderWrapper::Sphere(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    // a null collider at the same place gives the body distinct main moments
    let (g, k) = (frame_of(5), Vec3::new(cx.real("i1", 0.5, 2.0), num(1.25), num(0.75)));
    let mut b = NullCollider::new(); b.position = c; b.moment_of_inertia = spectrum(&g, &k);
    let x2 = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(x2, Some(h)).unwrap();
    let start = ent(&s, h);
    let (sn, cn) = half(a);
    let out = |v: &Vec3| turned(v, &n, sn, cn);
    cx.check("it starts around its centre of mass", veq(&start.position, &add(&p, &out(&c))));
    let twice = !spin && cx.int("steps", 2) == 1;
    let back = cx.int("back", 2) == 1;
    let dt = cx.real("dt", 0.0625, 1.5);
    let dt = if back { -dt } else { dt };
    let (mut total, mut angle) = (dt, w * dt);
    s.step(dt);
    if twice { let dt = cx.real("dt2", 0.0625, 2.0); s.step(dt); total = total + dt; angle = angle + w * dt; }
    let (sm, cm) = half(if back && spin { -angle } else { angle });
    let sm = if back && spin { -sm } else { sm };
    let after = |v: &Vec3| turned(&out(v), &m, sm, cm);
    let e = ent(&s, h);
    cx.reached("judged");
    let center = add(&start.position, &mul(&v, total));
    cx.check("it moves by velocity times time", veq(&e.position, &center));
    cx.check("it keeps its velocities", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &mul(&m, w))));
    let o = e.get_last_orientation();
    for i in 0..3 { cx.check("it turns by spin times time after its rotation", veq(&o.direction_into_world(&axis(i)), &after(&axis(i)))); }
    cx.check("it turns about its centre of mass", veq(&o.local_origin_in_world(), &sub(&center, &after(&c))));
    cx.check("masses stay", eq(e.get_last_total_mass(), start.get_last_total_mass()).and(eq(e.own_mass, num(0.5))));
    cx.check("it stays awake and linked", boolean(!e.was_asleep() && e.get_colliders().len() == 2));
    cx.check("nothing is reported", boolean(s.collision_records.is_empty()));
    if let Some(ColliderWrapper::Sphere(b)) = s.get_collider(x) { cx.check("colliders stay as they are", veq(&b.center, &c).and(eq(b.radius, num(0.5)))); } else { cx.check("colliders stay", boolean(false)); }
}
fn swift(cx: &mut Cx) {
    let mut s = awake(3);
    let m = frame_of([6, 2, 5][cx.int("spin.axis", 3)])[0];
    let w = if cx.int("round", 2) == 1 { cx.real("spin", 6.375, 100.0) } else { cx.real("spin", 3.0, 6.125) };
    let start = cx.int("start", 2) == 1;
    let n = frame_of(3)[0];
    let a = if start { cx.real("turn", 0.25, 2.5) } else { zero() };
    let dt = [one(), num(0.5), num(4.0)][cx.int("dt", 3)];
    let dt = if cx.int("back", 2) == 1 { -dt } else { dt };
    let mut e = Entity::new();
    let (p, v) = (v3(1.0, -2.0, 0.5), v3(0.5, 0.25, -1.0));
    e.position = p; e.velocity = v; e.rotation = mul(&n, a); e.angular_velocity = mul(&m, w / dt);
    let h = s.add_entity(e).unwrap();
    let c = v3(0.5, -1.0, 0.25);
    let mut b = NullCollider::new(); b.position = c; b.mass = num(2.0);
    let x = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    let (sn, cn) = half(a);
    let (sm, cm) = half(w);
    let out = |v: &Vec3| if start { turned(v, &n, sn, cn) } else { *v };
    let steps = 1 + cx.int("steps", 2);
    for _ in 0..steps { s.step(dt); }
    cx.reached("judged");
    let after = |v: &Vec3| { let v = turned(&out(v), &m, sm, cm); if steps == 2 { turned(&v, &m, sm, cm) } else { v } };
    let e = ent(&s, h);
    let center = add(&add(&p, &out(&c)), &mul(&v, dt * num(steps as f64)));
    cx.check("it moves by velocity times time", veq(&e.position, &center));
    cx.check("it keeps its velocities", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &mul(&m, w / dt))));
    let o = e.get_last_orientation();
    for i in 0..3 { cx.check("it turns by spin times time after its rotation", veq(&o.direction_into_world(&axis(i)), &after(&axis(i)))); }
    cx.check("it turns about its centre of mass", veq(&o.local_origin_in_world(), &sub(&center, &after(&c))));
}
/// The tensor turns with the body.
fn tensor(cx: &mut Cx) {
    let mut s = awake(3);
    let (m, w) = pick(cx, "spin", 0.25, 2.5);
    let (g, k) = (frame_of([6, 2][cx.int("main", 2)]), Vec3::new(cx.real("i1", 0.5, 2.0), cx.real("i2", 0.5, 2.0), num(0.75)));
    let mut e = Entity::new();
    e.angular_velocity = mul(&m, w);
    e.own_mass = one();
    let h = s.add_entity(e).unwrap();
    let mut b = NullCollider::new(); b.moment_of_inertia = spectrum(&g, &k); b.position = v3(1.0, 0.5, -2.0); b.mass = num(2.0);
    let x = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    s.step(one());
    let (sm, cm) = half(w);
    let i1 = ent(&s, h).get_last_moment_of_inertia();
    for i in 0..3 { let u = turned(&g[i], &m, sm, cm); cx.check("the mass distribution turns with the body", veq(&apply(&i1, &u), &mul(&u, k[i]))); }
    cx.check("the spin stays even if it is not about a main axis", veq(&ent(&s, h).angular_velocity, &mul(&m, w)));
    cx.reached("judged");
}
fn creep(cx: &mut Cx) {
    let drowsy = cx.int("drowsy", 2) == 1;
    let mut s = if drowsy { let mut s = world(3); s.energy_sleep_threshold = inf(); s.sleep_time_threshold = num(100.0); s } else { awake(3) };
    let slow = cx.real("slow", 1.0 / 65536.0, 0.0625);
    let dt = cx.real("dt", 0.0625, 1.0);
    let (n, v) = (frame_of([0, 2, 5][cx.int("axis", 3)])[0], v3(0.6, -0.8, 1.0));
    let turns = cx.int("turns", 2) == 1;
    let mut e = Entity::new();
    // a turn by a small angle shows where the body points: there is none to begin with
    if turns { e.angular_velocity = mul(&n, slow); } else { e.velocity = mul(&v, slow); }
    e.own_mass = one();
    let h = s.add_entity(e).unwrap();
    let mut b = SphereCollider::new(one()); b.mass = num(0.5);
    let x = s.add_collider(ColliderWrapper::Sphere(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    let steps = if turns { 1 } else { 1 + cx.int("steps", 3) };
    for _ in 0..steps { s.step(dt); }
    cx.reached("judged");
    let e = ent(&s, h);
    let (w, t) = (slow * dt, dt * num(steps as f64));
    if turns {
        let (sn, cn) = half(w);
        for i in 0..3 {
            let (is, want) = (e.get_last_orientation().direction_into_world(&axis(i)), turned(&axis(i), &n, sn, cn));
            cx.check("it turns by spin times time", veq(&mul(&sub(&is, &axis(i)), one() / w), &mul(&sub(&want, &axis(i)), one() / w)));
        }
        cx.check("it keeps its spin", veq(&mul(&e.angular_velocity, one() / slow), &n));
        cx.check("it stays in place", veq(&e.position, &Vec3::zeros()));
    } else {
        cx.check("it moves by velocity times time", veq(&mul(&e.position, one() / slow), &mul(&v, t)));
        cx.check("it keeps its velocity", veq(&mul(&e.velocity, one() / slow), &v));
    }
}
fn masses(cx: &mut Cx) {
    let mut s = awake(3);
    let (p, v) = (vec(cx, "p", -8.0, 8.0), vec(cx, "v", -8.0, 8.0));
    let (n, w) = pick(cx, "spin", 0.25, 2.0);
    let dt = cx.real("dt", 0.0625, 1.25);
    let mut e = Entity::new();
    e.position = p; e.velocity = v; e.angular_velocity = mul(&n, w);
    let kind = cx.int("kind", 4);
    if kind == 1 { e.own_mass = inf(); }
    let h = s.add_entity(e).unwrap();
    if kind >= 2 {
        let mut b = PlaneCollider::new(); b.position = v3(0.5, 0.0, 1.0); if kind == 2 { b.mass = inf(); }
        let c = s.add_collider(ColliderWrapper::Plane(b)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    s.step(dt);
    let e = ent(&s, h);
    let (sn, cn) = half(w * dt);
    cx.reached("judged");
    cx.check("it moves by velocity times time", veq(&e.position, &add(&p, &mul(&v, dt))));
    cx.check("it keeps its velocities", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &mul(&n, w))));
    for i in 0..3 { cx.check("it turns by spin times time", veq(&e.get_last_orientation().direction_into_world(&axis(i)), &turned(&axis(i), &n, sn, cn))); }
}
fn nothing(cx: &mut Cx) {
    let dt = cx.real("dt", -1e-6, 1e-6);
    cx.assume(lt(dt, num(1e-6)).and(gt(dt, num(-1e-6))));
    let mut s = world(3);
    s.sleep_time_threshold = num(0.75);
    s.add_unary_force_generator(Box::new(Push { f: v3(0.5, 1.0, 0.0), at: Vec3::zeros(), only: None })).unwrap();
    let a = Ball::new(num(0.5), v3(0.0, 0.0, 0.0), v3(2.0, 0.0, 0.0)).put(&mut s);
    let mut b = Ball::new(num(0.5), v3(2.0, 0.0, 0.0), Vec3::zeros());
    b.spin = v3(0.0, 0.0, 0.5);
    let b = b.put(&mut s);
    // without mass it feels no force: it is falling asleep
    let c = s.add_entity(Entity::new()).unwrap();
    s.step(num(0.75));
    let n = s.collision_records.len();
    cx.check("the bodies meet", boolean(n == 1));
    let before: Vec<Entity> = [a, b, c].iter().map(|&h| ent(&s, h)).collect();
    let (time, place) = (s.collision_records[0].time, s.collision_records[0].position);
    for _ in 0..2 { s.step(dt); }
    cx.reached("judged");
    for (i, &h) in [a, b, c].iter().enumerate() {
        let (x, y) = (ent(&s, h), &before[i]);
        cx.check("nothing moves", veq(&x.position, &y.position).and(veq(&x.rotation, &y.rotation)));
        cx.check("no velocity changes", veq(&x.velocity, &y.velocity).and(veq(&x.angular_velocity, &y.angular_velocity)));
        cx.check("nothing falls asleep", boolean(x.was_asleep() == y.was_asleep()));
    }
    cx.check("the records stay", boolean(s.collision_records.len() == n && s.collision_records[0].time == time && s.collision_records[0].position == place));
    // it takes as long as without them to fall asleep
    s.step(num(0.375));
    cx.check("the way to sleep is not shortened", boolean(!ent(&s, c).was_asleep()));
    s.step(num(0.375));
    cx.check("the way to sleep is not lengthened", boolean(ent(&s, c).was_asleep()));
}
fn company(cx: &mut Cx) {
    let mut s = awake(5);
    let dt = cx.real("dt", 0.0625, 2.0);
    let (x, y) = (cx.real("x", -0.5, 0.5), cx.real("vy", -3.0, 3.0));
    let mut b = vec![];
    // lanes two apart, radius a half
    for i in 0..4 { let mut q = Ball::new(num(0.5), Vec3::new(x, num(-3.0), num(2.0 * i as f64)), Vec3::new(num(0.25), y * num(i as f64 - 1.5), zero())); q.spin = Vec3::zeros(); b.push(q); }
    let hs: Vec<EntityHandle> = b.iter().map(|q| q.put(&mut s)).collect();
    s.step(dt);
    cx.reached("judged");
    cx.check("nothing is reported", boolean(s.collision_records.is_empty()));
    for (q, &h) in b.iter().zip(&hs) { cx.check("each moves freely", veq(&ent(&s, h).position, &add(&q.pos, &mul(&q.vel, dt))).and(veq(&ent(&s, h).velocity, &q.vel))); }
}

#[derive(Debug)]
struct Push { f: Vec3, at: Vec3, only: Option<EntityHandle> }
impl UnaryForceGenerator for Push {
    fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force {
        let f = if self.only.map(|o| o == h).unwrap_or(true) { self.f } else { Vec3::zeros() };
        Force::new(f, add(&p.get_entity(h).unwrap().position, &self.at))
    }
}
fn push(cx: &mut Cx) {
    let mut s = awake(3);
    let (n, a) = pick(cx, "turn", 0.25, 2.5);
    let (p, v) = (v3(0.5, -1.0, 2.0), vec(cx, "v", -8.0, 8.0));
    let dt = cx.real("dt", 0.0625, 2.0);
    let m = cx.real("mass", 0.000244140625, 4096.0);
    let g = frame_of(5);
    let k = Vec3::new(cx.real("i1", 0.25, 4.0), cx.real("i2", 0.25, 4.0), num(0.75));
    let mut e = Entity::new();
    e.position = p; e.velocity = v; e.rotation = mul(&n, a);
    // the mass is the entity's own, or that of a collider away from its origin
    let off = cx.int("off", 2) == 1;
    let c = v3(0.5, -1.0, 0.25);
    if !off { e.own_mass = m; }
    // it already turns about an axis; the torque changes the spin along the same one
    let u = frame_of(6)[0];
    let (w0, w1) = (cx.real("w0", -1.0, 1.0), cx.real("w1", 0.25, 1.5));
    e.angular_velocity = mul(&u, w0);
    let h = s.add_entity(e).unwrap();
    let mut b = NullCollider::new(); b.moment_of_inertia = spectrum(&g, &k);
    if off { b.position = c; b.mass = m; }
    let x = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    let (sn, cn) = half(a);
    let inertia = {
        let f: Vec<Vec3> = g.iter().map(|x| turned(x, &n, sn, cn)).collect();
        spectrum(&[f[0], f[1], f[2]], &k)
    };
    let torque = apply(&inertia, &mul(&u, (w1 - w0) / dt));
    let mut f = Vec3::zeros();
    for i in 0..3 {
        let q = mul(&axis((i + 2) % 3), torque[i]);
        f = add(&f, &q);
        s.add_unary_force_generator(Box::new(Push { f: q, at: axis((i + 1) % 3), only: None })).unwrap();
    }
    let at = vec(cx, "f", -4.0, 4.0);
    f = add(&f, &at);
    s.add_unary_force_generator(Box::new(Push { f: at, at: Vec3::zeros(), only: None })).unwrap();
    let p = if off { add(&p, &turned(&c, &n, sn, cn)) } else { p };
    s.step(dt);
    let e = ent(&s, h);
    cx.reached("judged");
    let v1 = add(&v, &mul(&f, dt / m));
    cx.check("the velocity changes by time times force over mass", veq(&e.velocity, &v1));
    cx.check("the spin changes by time times the torque through the inverse tensor", veq(&e.angular_velocity, &mul(&u, w1)));
    cx.check("the velocity changes before the position", veq(&e.position, &add(&p, &mul(&v1, dt))));
    let (sm, cm) = half(w1 * dt);
    for i in 0..3 { cx.check("the spin changes before the rotation", veq(&e.get_last_orientation().direction_into_world(&axis(i)), &turned(&turned(&axis(i), &n, sn, cn), &u, sm, cm))); }
}
fn sum(cx: &mut Cx) {
    let mut s = awake(3);
    let dt = cx.real("dt", 0.0625, 2.0);
    let (f1, f2) = (vec(cx, "f1", -4.0, 4.0), vec(cx, "f2", -4.0, 4.0));
    let (m1, m2) = (cx.real("m1", 0.000244140625, 4096.0), cx.real("m2", 0.015625, 64.0));
    let (v1, v2) = (vec(cx, "v1", -2.0, 2.0), v3(0.25, -0.5, 1.0));
    let add_body = |s: &mut PhysicsSystem, p: Vec3, v: Vec3, m: F| { let mut e = Entity::new(); e.position = p; e.velocity = v; e.own_mass = m; s.add_entity(e).unwrap() };
    let a = add_body(&mut s, Vec3::zeros(), v1, m1);
    let b = add_body(&mut s, v3(5.0, 0.0, 0.0), v2, m2);
    let g1 = s.add_unary_force_generator(Box::new(Push { f: f1, at: v3(1.0, 0.0, 0.0), only: Some(a) })).unwrap();
    let g2 = s.add_unary_force_generator(Box::new(Push { f: f2, at: v3(0.0, 1.0, 0.0), only: None })).unwrap();
    let g3 = s.add_unary_force_generator(Box::new(Push { f: v3(0.5, 0.25, -1.0), at: v3(0.0, 1.0, 0.0), only: Some(b) })).unwrap();
    let gone = cx.int("gone", 4);
    if gone == 1 { cx.check("a removed generator is returned", boolean(s.remove_unary_force_generator(g1).is_some())); }
    if gone == 2 { cx.check("a removed generator is returned", boolean(s.remove_unary_force_generator(g2).is_some())); cx.check("only once", boolean(s.remove_unary_force_generator(g2).is_none())); }
    if gone == 3 { s.remove_unary_force_generator(g1); s.remove_unary_force_generator(g3); }
    let on1 = gone == 0 || gone == 2;
    let on2 = gone != 2;
    let on3 = gone != 3;
    let mut fa = Vec3::zeros();
    let mut fb = Vec3::zeros();
    if on1 { fa = add(&fa, &f1); }
    if on2 { fa = add(&fa, &f2); fb = add(&fb, &f2); }
    if on3 { fb = add(&fb, &v3(0.5, 0.25, -1.0)); }
    s.step(dt);
    cx.reached("judged");
    let (w1, w2) = (add(&v1, &mul(&fa, dt / m1)), add(&v2, &mul(&fb, dt / m2)));
    cx.check("forces on the first add up", veq(&ent(&s, a).velocity, &w1));
    cx.check("forces on the second add up", veq(&ent(&s, b).velocity, &w2));
    s.step(num(0.5));
    cx.check("they act at every step", veq(&ent(&s, a).velocity, &add(&w1, &mul(&fa, num(0.5) / m1))).and(veq(&ent(&s, b).velocity, &add(&w2, &mul(&fb, num(0.5) / m2)))));
    cx.check("point masses do not spin", veq(&ent(&s, a).angular_velocity, &Vec3::zeros()));
    cx.check("positions follow the new velocities", veq(&ent(&s, a).position, &add(&mul(&w1, dt), &mul(&ent(&s, a).velocity, num(0.5)))));
}
fn drowsy(cx: &mut Cx) {
    let mut s = world(3);
    s.energy_sleep_threshold = inf();
    s.sleep_time_threshold = num(100.0);
    let m = cx.real("m", 0.000244140625, 4096.0);
    let f = vec(cx, "f", -4.0, 4.0);
    let mut e = Entity::new();
    e.own_mass = m;
    let h = s.add_entity(e).unwrap();
    let mut b = NullCollider::new();
    let i = cx.real("i", 0.0625, 16.0);
    b.moment_of_inertia = Mat3::from_diagonal(&Vec3::new(one(), i, one()));
    let x = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    s.add_unary_force_generator(Box::new(Push { f, at: Vec3::zeros(), only: None })).unwrap();
    // a couple about the second axis
    let c = cx.real("couple", -1.0, 1.0);
    for side in 0..2 { s.add_unary_force_generator(Box::new(Push { f: Vec3::new(if side == 0 { c } else { -c }, zero(), zero()), at: v3(0.0, 0.0, if side == 0 { 0.5 } else { -0.5 }), only: None })).unwrap(); }
    let (mut v, mut p, mut w) = (Vec3::zeros(), Vec3::zeros(), zero());
    for k in 0..3 {
        let dt = cx.real(&format!("dt{}", k), 0.0625, 1.0);
        s.step(dt);
        v = add(&v, &mul(&f, dt / m));
        p = add(&p, &mul(&v, dt));
        w = w + c * dt / i;
        let e = ent(&s, h);
        cx.check("the velocity changes by time times force over mass", veq(&e.velocity, &v));
        cx.check("the position follows", veq(&e.position, &p));
        cx.check("the spin changes by time times the torque through the inverse tensor", veq(&e.angular_velocity, &Vec3::new(zero(), w, zero())));
        cx.check("it is still awake", boolean(!e.was_asleep()));
    }
    cx.reached("judged");
}
fn gravity(cx: &mut Cx) {
    let mut s = awake(3);
    let dt = cx.real("dt", 0.0625, 2.0);
    let g = vec(cx, "g", -4.0, 4.0);
    s.add_unary_force_generator(Box::new(GravityGenerator::new(g))).unwrap();
    let v = vec(cx, "v", -2.0, 2.0);
    let kind = cx.int("kind", 6);
    let m = cx.real("m", 0.000244140625, 4096.0);
    let mut e = Entity::new();
    e.position = v3(1.0, 2.0, 3.0); e.velocity = v; e.rotation = v3(0.0, 0.75, 0.0);
    if kind == 1 { e.own_mass = m; }
    if kind == 2 { e.own_mass = inf(); }
    let h = s.add_entity(e).unwrap();
    if kind >= 3 {
        let mut b = SphereCollider::new(num(0.5)); b.center = v3(1.0, -0.5, 0.25); b.mass = if kind == 5 { inf() } else { m };
        let c = s.add_collider(ColliderWrapper::Sphere(b)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    if kind == 4 {
        let mut b = AlignedBoxCollider::new(); b.position = v3(-3.0, 1.0, 0.5); b.mass = num(2.0);
        let c = s.add_collider(ColliderWrapper::AlignedBox(b)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    let falls = kind == 1 || kind == 3 || kind == 4;
    let p = ent(&s, h).position;
    s.step(dt);
    let e = ent(&s, h);
    cx.reached("judged");
    let w = if falls { add(&v, &mul(&g, dt)) } else { v };
    cx.check("only finite masses fall, all alike", veq(&e.velocity, &w));
    cx.check("the position follows", veq(&e.position, &add(&p, &mul(&w, dt))));
    cx.check("gravity does not spin", veq(&e.angular_velocity, &Vec3::zeros()));
}
/// The torque is taken about the centre of mass of all colliders.
fn lever(cx: &mut Cx) {
    let mut s = awake(3);
    let dt = num(0.5);
    let m = cx.real("m", 0.25, 4.0);
    let d = cx.real("d", 0.25, 2.0);
    let p = vec(cx, "p", -256.0, 256.0);
    let mut e = Entity::new();
    e.position = p;
    let h = s.add_entity(e).unwrap();
    // two unequal balls on the x axis: the centre of mass divides their distance
    let (r1, r2) = (num(0.5), num(0.75));
    let m2 = num(3.0);
    for i in 0..2 {
        let mut b = SphereCollider::new(if i == 0 { r1 } else { r2 }); b.center = if i == 0 { Vec3::zeros() } else { Vec3::new(d, zero(), zero()) }; b.mass = if i == 0 { m } else { m2 };
        let c = s.add_collider(ColliderWrapper::Sphere(b)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    let total = m + m2;
    let x = m2 * d / total;
    // a push at the origin of the body, across
    let f = cx.real("f", 0.25, 4.0);
    let dir = cx.int("dir", 2);
    #[derive(Debug)]
    struct At(Vec3, Vec3);
    impl UnaryForceGenerator for At { fn make_force(&mut self, _dt: F, _p: &PhysicsSystem, _h: EntityHandle) -> Force { Force::new(self.0, self.1) } }
    let push = if dir == 0 { Vec3::new(zero(), f, zero()) } else { Vec3::new(zero(), zero(), -f) };
    s.add_unary_force_generator(Box::new(At(push, p))).unwrap();
    s.step(dt);
    let e = ent(&s, h);
    let moment = num(0.4) * m * r1 * r1 + num(0.4) * m2 * r2 * r2 + m * x * x + m2 * (d - x) * (d - x);
    cx.reached("judged");
    cx.check("the velocity changes by time times force over total mass", veq(&e.velocity, &mul(&push, dt / total)));
    let spin = cross(&Vec3::new(-x, zero(), zero()), &push);
    cx.check("the spin changes by the torque about the centre of mass", veq(&mul(&e.angular_velocity, moment), &mul(&spin, dt)));
}

/// Any rotation but those close to half a turn the other way round.
fn any_rotation(cx: &mut Cx, name: &str) -> Quat {
    let a = vec(cx, name, -1.0, 1.0);
    let n = n2(&a);
    let k = one() / (one() + n);
    let two = num(2.0);
    Quat::new_unchecked(nalgebra::Quaternion::new((one() - n) * k, two * a.x * k, two * a.y * k, two * a.z * k))
}
fn rigid(cx: &mut Cx, by_axis: bool) {
    let (p, o) = (vec(cx, "p", -4.0, 4.0), vec(cx, "o", -4.0, 4.0));
    let q = if by_axis {
        let f = frame(cx, "n");
        let w = cx.real("w", 0.25, 3.0);
        let q = Orientation::new(&p, &mul(&f[0], w), &o);
        let (s, c) = half(w);
        for i in 0..3 { cx.check("a rotation vector turns about itself by its length", veq(&q.direction_into_world(&axis(i)), &turned(&axis(i), &f[0], s, c))); }
        cx.check("the vector reads back", veq(&q.rotation_vec(), &mul(&f[0], w)));
        q
    } else {
        let mut q = Orientation::new(&p, &Vec3::zeros(), &o);
        q.rotation = any_rotation(cx, "q");
        q
    };
    judge_rigid(cx, &q, &p, &o);
}
fn judge_rigid(cx: &mut Cx, q: &Orientation, p: &Vec3, o: &Vec3) {
    let x = vec(cx, "x", -4096.0, 4096.0);
    let y = v3(0.5, -2.0, 1.5);
    let z = v3(-1.0, 0.25, 3.0);
    cx.check("to the world and back", veq(&q.position_into_local(&q.position_into_world(&x)), &x));
    cx.check("to the local space and back", veq(&q.position_into_world(&q.position_into_local(&x)), &x));
    cx.check("directions to the world and back", veq(&q.direction_into_local(&q.direction_into_world(&x)), &x));
    cx.check("directions to the local space and back", veq(&q.direction_into_world(&q.direction_into_local(&x)), &x));
    let (dx, dy, dz) = (q.direction_into_world(&x), q.direction_into_world(&y), q.direction_into_world(&z));
    cx.check("lengths stay", eq(n2(&dx), n2(&x)));
    cx.check("angles stay", eq(dot(&dx, &dy), dot(&x, &y)));
    cx.check("distances stay", eq(n2(&sub(&q.position_into_world(&x), &q.position_into_world(&y))), n2(&sub(&x, &y))));
    cx.check("handedness stays", eq(dot(&cross(&dx, &dy), &dz), dot(&cross(&x, &y), &z)));
    cx.check("directions are differences of positions", veq(&sub(&q.position_into_world(&add(&y, &x)), &q.position_into_world(&y)), &dx));
    cx.check("local directions are differences of local positions", veq(&sub(&q.position_into_local(&add(&y, &x)), &q.position_into_local(&y)), &q.direction_into_local(&x)));
    cx.check("the offset is where the position is, the other way", veq(&q.position_into_local(p), &mul(o, num(-1.0))));
    cx.check("the local origin", veq(&q.local_origin_in_world(), &q.position_into_world(&Vec3::zeros())));
    cx.check("the offset shifts local coordinates only", veq(&q.position_into_world(&sub(&x, o)), &add(p, &dx)));
    cx.reached("judged");
}
fn affect(cx: &mut Cx) {
    let (p, o, d) = (vec(cx, "p", -4.0, 4.0), vec(cx, "o", -4.0, 4.0), vec(cx, "d", -4.0, 4.0));
    let f = frame(cx, "n");
    let w = cx.real("w", 0.25, 2.5);
    let mut q = Orientation::new(&p, &Vec3::zeros(), &o);
    q.rotation = any_rotation(cx, "q");
    let r = q.after_affected(&d, &mul(&f[0], w));
    let mut u = q.clone();
    u.affect_with(&d, &mul(&f[0], w));
    let (s, c) = half(w);
    cx.reached("judged");
    cx.check("the original stays", veq(&q.position, &p));
    cx.check("the centre moves by the movement only", veq(&r.position, &add(&p, &d)).and(veq(&u.position, &r.position)));
    cx.check("the offset stays", veq(&r.internal_origin_offset, &o).and(veq(&u.internal_origin_offset, &o)));
    for i in 0..3 {
        let want = turned(&q.direction_into_world(&axis(i)), &f[0], s, c);
        cx.check("the rotation comes after the one before", veq(&r.direction_into_world(&axis(i)), &want).and(veq(&u.direction_into_world(&axis(i)), &want)));
    }
    let still = q.after_affected(&d, &Vec3::zeros());
    for i in 0..3 { cx.check("a translation moves every point alike", veq(&sub(&still.position_into_world(&axis(i)), &q.position_into_world(&axis(i))), &d)); }
}
fn lerp(cx: &mut Cx) {
    let (p, o, d) = (vec(cx, "p", -4.0, 4.0), v3(0.5, -1.0, 0.25), vec(cx, "d", -4.0, 4.0));
    let (n, a) = pick(cx, "turn", 0.25, 2.5);
    let f = frame(cx, "n");
    let w = cx.real("w", 0.25, 2.5);
    let q = Orientation::new(&p, &mul(&n, a), &o);
    let r = q.after_affected(&d, &mul(&f[0], w));
    let k = cx.int("time", 3);
    let t = if k == 0 { zero() } else if k == 1 { one() } else { cx.real("t", 0.125, 0.875) };
    let l = Orientation::lerp(t, &q, &r);
    cx.reached("judged");
    cx.check("the position moves evenly", veq(&l.position, &add(&p, &mul(&d, t))));
    cx.check("the offset stays", veq(&l.internal_origin_offset, &o));
    let (s, c) = half(w * t);
    for i in 0..3 {
        let g = l.direction_into_world(&axis(i));
        if k == 0 { cx.check("it starts at the start", veq(&g, &q.direction_into_world(&axis(i)))); }
        if k == 1 { cx.check("it ends at the end", veq(&g, &r.direction_into_world(&axis(i)))); }
        cx.check("it turns evenly", veq(&g, &turned(&q.direction_into_world(&axis(i)), &f[0], s, c)));
        let h = l.direction_into_world(&axis((i + 1) % 3));
        cx.check("it is rigid in between", eq(n2(&g), one()).and(eq(dot(&g, &h), zero())).and(veq(&cross(&g, &h), &l.direction_into_world(&axis((i + 2) % 3)))));
    }
}
fn entity(cx: &mut Cx) {
    let mut s = world(1);
    let p = vec(cx, "p", -4.0, 4.0);
    let f = frame(cx, "n");
    let w = cx.real("w", 0.25, 3.0);
    let mut e = Entity::new();
    e.position = p; e.rotation = mul(&f[0], w);
    let made = e.make_orientation();
    let h = s.add_entity(e).unwrap();
    let c = v3(1.0, -0.5, 0.75);
    let mut b = SphereCollider::new(one()); b.center = c; b.mass = cx.real("m", 0.000244140625, 4096.0);
    let x = s.add_collider(ColliderWrapper::Sphere(b)).unwrap();
    s.link_collider(x, Some(h)).unwrap();
    let e = ent(&s, h);
    let q = e.get_last_orientation();
    let (sn, cn) = half(w);
    cx.check("the local space turns by the rotation vector", veq(&q.direction_into_world(&v3(1.0, 2.0, -0.5)), &turned(&v3(1.0, 2.0, -0.5), &f[0], sn, cn)));
    cx.check("the collider is where the local space puts it", veq(&q.position_into_world(&c), &add(&p, &turned(&c, &f[0], sn, cn))));
    cx.check("the centre of mass has local coordinates of its own", veq(&q.position_into_local(&e.position), &c));
    cx.check("before linking the local space starts at the position", veq(&made.position_into_world(&Vec3::zeros()), &p));
    let again = e.make_orientation();
    cx.check("a copy of the entity makes the same orientation", veq(&again.position_into_world(&v3(1.0, 2.0, 3.0)), &q.position_into_world(&v3(1.0, 2.0, 3.0))));
    cx.reached("judged");
}
