//! Pairs of bodies placed by their first contact.
use crate::kit::*;

/// Two bodies that first touch at time `t` (apart before) at `x`, with normal `n` from the first to the second; `ca` and `cb` are where their entities are then.
pub struct Scene { pub a: Box<dyn Put>, pub b: Box<dyn Put>, pub t: F, pub dt: F, pub x: Vec3, pub n: Vec3, pub ca: Vec3, pub cb: Vec3, pub va: Vec3, pub vb: Vec3, pub deep: bool }

/// What is symbolic in a scene.
#[derive(Clone, Copy)]
pub struct Opt { pub any: bool, pub free: bool }
pub const FIXED: Opt = Opt { any: false, free: false };
pub const FREE: Opt = Opt { any: false, free: true };
pub const ANY: Opt = Opt { any: true, free: false };

pub struct Setup { pub f: [Vec3; 3], pub dt: F, pub t: F, pub v2: Vec3, pub c1: Vec3, pub rel: Vec3 }
pub fn setup(cx: &mut Cx, o: Opt) -> Setup {
    let f = if o.any { frame_any(cx, "n") } else { frame(cx, "n") };
    let dt = if o.free { cx.real("dt", 0.25, 2.0) } else { one() };
    let v2 = if o.free { vec(cx, "v2", -4.0, 4.0) } else { v3(0.25, -0.5, 1.0) };
    let c1 = if o.free { vec(cx, "c1", -4.0, 4.0) } else { v3(0.5, -1.0, 0.25) };
    let t = cx.real("t", -2.0, 3.0);
    let rel = approach(cx, &f);
    Setup { f, dt, t, v2, c1, rel }
}
/// A velocity that approaches along the first vector of the frame.
pub fn approach(cx: &mut Cx, f: &[Vec3; 3]) -> Vec3 {
    let (a, b, c) = (cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0), cx.real("slip2", -8.0, 8.0));
    inframe(f, a, b, c)
}
/// Where something that is at `c` at the time of contact was at the start.
pub fn before(c: &Vec3, v: &Vec3, t: F) -> Vec3 { sub(c, &mul(v, t)) }

pub fn sphere_sphere(cx: &mut Cx, o: Opt) -> Scene {
    let s = setup(cx, o);
    let (r1, r2) = (cx.real("r1", 0.125, 2.0), cx.real("r2", 0.125, 2.0));
    let (va, vb) = (add(&s.v2, &s.rel), s.v2);
    let (ca, cb) = (s.c1, add(&s.c1, &mul(&s.f[0], r1 + r2)));
    let (pa, pb) = (before(&ca, &va, s.t), before(&cb, &vb, s.t));
    cx.assume(gt(n2(&sub(&pb, &pa)), sq(r1 + r2)));
    Scene { a: Box::new(Ball::new(r1, pa, va)), b: Box::new(Ball::new(r2, pb, vb)), t: s.t, dt: s.dt, x: add(&ca, &mul(&s.f[0], r1)), n: s.f[0], ca, cb, va, vb, deep: false }
}
pub fn sphere_plane(cx: &mut Cx, o: Opt) -> Scene {
    let s = setup(cx, o);
    let r = cx.real("r1", 0.125, 2.0);
    let (va, vb) = (add(&s.v2, &s.rel), s.v2);
    let x = add(&s.c1, &mul(&s.f[0], r));
    let cb = sub(&add(&x, &inframe(&s.f, zero(), cx.real("side", -4.0, 4.0), num(1.5))), &aside());
    let w = Wall { vel: vb, offset: aside(), ..Wall::new(before(&cb, &vb, s.t), mul(&s.f[0], num(-1.0))) };
    Scene { a: Box::new(Ball::new(r, before(&s.c1, &va, s.t), va)), b: Box::new(w), t: s.t, dt: s.dt, x, n: s.f[0], ca: s.c1, cb, va, vb, deep: true }
}

/// Steps the scene once with one collision and judges what was detected.
pub fn exact(cx: &mut Cx, sc: Scene) {
    let mut s = awake(1);
    let (a, b) = (sc.a.put(&mut s), sc.b.put(&mut s));
    let (pa, pb) = (ent(&s, a).position, ent(&s, b).position);
    go(&mut s, sc.dt);
    if s.collision_records.is_empty() {
        cx.check("a collision during the step is reported", if sc.deep { ge(sc.t, sc.dt) } else { lt(sc.t, zero()).or(ge(sc.t, sc.dt)) });
        if (sc.t < zero()) { cx.reached("long ago"); } else { cx.reached("too late"); }
        cx.check("free motion of the first", veq(&ent(&s, a).position, &add(&pa, &mul(&sc.va, sc.dt))));
        cx.check("free motion of the second", veq(&ent(&s, b).position, &add(&pb, &mul(&sc.vb, sc.dt))));
        cx.check("velocities are kept", veq(&ent(&s, a).velocity, &sc.va).and(veq(&ent(&s, b).velocity, &sc.vb)));
        return;
    }
    cx.check("one record", boolean(s.collision_records.len() == 1));
    let rec = rec(&s, 0);
    cx.check("record names both", boolean(rec.first_entity == a && rec.second_entity == b));
    cx.check("normal points from the first to the second", veq(&rec.normal, &sc.n));
    if sc.deep && (sc.t < zero()) {
        cx.reached("deep");
        cx.check("immediate contact", eq(rec.time, zero()));
        cx.check("contact at the deepest point", veq(&rec.position, &sub(&sc.x, &mul(&sc.va, sc.t))));
        cx.check("nothing has moved yet", veq(&ent(&s, a).position, &pa).and(veq(&ent(&s, b).position, &pb)));
        return;
    }
    cx.reached("hit");
    cx.check("a reported collision happens during the step", ge(sc.t, zero()).and(le(sc.t, sc.dt)));
    cx.check("time of the first touch", eq(rec.time, sc.t));
    cx.check("contact point", veq(&rec.position, &sc.x));
    cx.check("first body is at the contact", veq(&ent(&s, a).position, &sc.ca));
    cx.check("second body is at the contact", veq(&ent(&s, b).position, &sc.cb));
}

/// The body of a sphere on a lever that turns about the normal, for the centre of the sphere to be at `c` at the time `t` and to approach
/// by `speed` along the line that the crate follows; the surfaces slide by `slip` at the contact. Also where the body is at the time of contact.
fn lever(cx: &mut Cx, f: &[Vec3; 3], c: &Vec3, t: F, r: F, speed: F, slip: F) -> (Lever, Vec3) {
    let w = cx.real("w", 0.25, 2.0);
    let off = inframe(f, num(0.5), cx.real("o1", 0.125, 2.0), zero());
    let (sin, cos) = (w * num(0.5)).sin_cos();
    let swing = sub(&turned(&off, &f[0], sin, cos), &off);
    let arm = add(&off, &mul(&swing, t));
    let vel = sub(&inframe(f, speed, slip, zero()), &mul(&cross(&f[0], &arm), w));
    let at = sub(c, &arm);
    (Lever { pos: before(&at, &vel, t), vel, n: f[0], w, off, r, mass: one(), inertia: zero(), e: one() }, at)
}
pub fn lever_plane(cx: &mut Cx) -> Scene {
    let f = frame(cx, "n");
    let (t, r, c1) = (cx.real("t", 0.0625, 1.5), cx.real("r1", 0.125, 2.0), v3(0.5, -1.0, 0.25));
    let (speed, slip) = (cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0));
    let (l, ca) = lever(cx, &f, &c1, t, r, speed, slip);
    let x = add(&c1, &mul(&f[0], r));
    let cb = add(&x, &inframe(&f, zero(), num(-2.0), num(1.5)));
    let va = l.vel;
    Scene { a: Box::new(l), b: Box::new(Wall::new(cb, mul(&f[0], num(-1.0)))), t, dt: one(), x, n: f[0], ca, cb, va, vb: Vec3::zeros(), deep: false }
}
/// `second`: the second sphere is the one on the lever.
pub fn lever_sphere(cx: &mut Cx, second: bool) -> Scene {
    let f = frame(cx, "n");
    let (t, r1, r2, c1) = (cx.real("t", 0.0625, 1.5), cx.real("r1", 0.125, 2.0), cx.real("r2", 0.125, 2.0), v3(0.5, -1.0, 0.25));
    let speed = cx.real("speed", 0.125, 8.0);
    let co = inframe(&f, if second { -(r1 + r2) } else { r1 + r2 }, zero(), zero());
    let co = add(&c1, &co);
    let (l, at) = lever(cx, &f, &c1, t, r1, if second { -speed } else { speed }, zero());
    let other = Ball::new(r2, co, Vec3::zeros());
    if second {
        Scene { va: other.vel, vb: l.vel, a: Box::new(other), b: Box::new(l), t, dt: one(), x: add(&co, &mul(&f[0], r2)), n: f[0], ca: co, cb: at, deep: false }
    } else {
        Scene { va: l.vel, vb: other.vel, a: Box::new(l), b: Box::new(other), t, dt: one(), x: add(&c1, &mul(&f[0], r1)), n: f[0], ca: at, cb: co, deep: false }
    }
}

/// The corners of a triangle in the plane of the last two vectors of the frame, around the point with weights `u`, `w` and the rest at `x`.
pub fn triangle(f: &[Vec3; 3], x: &Vec3, k: F, u: F, w: F) -> Vec<Vec3> {
    let c = [(num(-1.0), num(-0.5)), (num(1.5), num(-0.25)), (num(0.25), num(1.25))];
    let r = one() - u - w;
    let (a, b) = (c[0].0 * u + c[1].0 * w + c[2].0 * r, c[0].1 * u + c[1].1 * w + c[2].1 * r);
    c.iter().map(|&(p, q)| add(x, &inframe(f, zero(), k * (p - a), k * (q - b)))).collect()
}
/// A sphere meets the inside of a triangle. The mesh is the triangle alone or (`closed`) a tetrahedron behind it.
/// `wide`: the place on the triangle is symbolic and the motion fixed; otherwise the motion is symbolic and the place one of three.
pub fn sphere_face(cx: &mut Cx, closed: bool, wide: bool, slip: bool) -> Scene {
    let f = frame_few(cx, "n");
    let t = cx.real("t", 0.0625, 1.5);
    let r = if slip { num(0.5) } else { cx.real("r1", 0.125, 2.0) };
    let speed = if wide { num(2.0) } else { cx.real("speed", 0.125, 8.0) };
    let rel = if slip { inframe(&f, speed, cx.real("slip", -8.0, 8.0), num(0.5)) } else { mul(&f[0], speed) };
    let (u, w) = if wide { (cx.real("u", 0.0625, 0.875), cx.real("w", 0.0625, 0.875)) } else { [(num(0.375), num(0.25)), (num(0.125), num(0.75)), (num(0.0625), num(0.0625))][cx.int("place", 3)] };
    if wide { cx.assume(le(u + w, num(0.9375))); }
    let k = num(2.0);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&f[0], r));
    let o = add(&x, &inframe(&f, one(), num(0.5), num(-0.25)));
    let corners = triangle(&f, &sub(&x, &o), k, u, w);
    let faces = if closed { solid(&corners, &inframe(&f, num(1.0), zero(), zero())) } else { vec![corners] };
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(Solid::new(before(&o, &vb, t), vb, faces)), t, dt: one(), x, n: f[0], ca: c1, cb: o, va, vb, deep: false }
}
/// One of three frames.
pub fn frame_few(cx: &mut Cx, name: &str) -> [Vec3; 3] { let k = cx.int(name, 3); frame_of([0, 3, 5][k]) }
/// The four faces of the tetrahedron over a triangle.
pub fn solid(c: &[Vec3], top: &Vec3) -> Vec<Vec<Vec3>> { vec![vec![c[0], c[1], c[2]], vec![c[0], c[1], *top], vec![c[1], c[2], *top], vec![c[2], c[0], *top]] }
