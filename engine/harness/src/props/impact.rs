//! What a collision does to the two bodies (C01, C02, C03, C04, C21).
use crate::kit::*;

type Spec = fn(&mut Cx, &Hit);
pub fn register(v: &mut Vec<Harness>) {
    let b = "masses in [1/64,64], restitution in [0,1], velocities in [-8,8]^3 approaching with at least 1/8, radii in [1/8,2], contact at a time in [1/16,15/16] of a step of length 1, seven normals, one collision per step";
    macro_rules! add { ($p:expr, $n:expr, $scene:expr, $spec:expr, $thorough:expr, $about:expr) => {
        v.push(Harness { prop: $p, name: $n, run: |cx| { if let Some(h) = $scene(cx) { cx.reached("hit"); $spec(cx, &h); } }, thorough: $thorough, reach: &["hit"], about: $about, bounds: b });
    } }
    add!("C01", "c01_balls", |cx: &mut Cx| balls(cx, false, false), conserve, false, "two free spheres meeting: linear and angular momentum");
    add!("C01", "c01_friction", |cx: &mut Cx| balls(cx, true, false), conserve, false, "two free spheres meeting with symbolic friction coefficients and thresholds");
    add!("C01", "c01_spin", |cx: &mut Cx| balls(cx, false, true), conserve, false, "two spinning spheres");
    add!("C01", "c01_lopsided", |cx: &mut Cx| lopsided(cx, true), conserve, false, "a sphere off the centre of mass of its body hits a free sphere, in one plane: the blow spins the body");
    add!("C01", "c01_lopsided3", |cx: &mut Cx| lopsided(cx, false), conserve, false, "an off-centre blow anywhere, with the sliding that it stops");
    add!("C01", "c01_levers", |cx: &mut Cx| levers(cx, true, false), conserve, false, "two spinning bodies of several colliders touching away from their centres of mass, with friction");
    add!("C02", "c02_levers", |cx: &mut Cx| levers(cx, false, false), restitution, false, "two spinning bodies of several colliders touching away from their centres of mass");
    add!("C02", "c02_balls", |cx: &mut Cx| balls(cx, false, false), restitution, false, "two free spheres");
    add!("C02", "c02_spin", |cx: &mut Cx| balls(cx, false, true), restitution, false, "two spinning spheres");
    add!("C02", "c02_lopsided", |cx: &mut Cx| lopsided(cx, true), restitution, false, "a sphere off the centre of mass of its body hits a free sphere, in one plane: the blow spins the body");
    add!("C02", "c02_lopsided3", |cx: &mut Cx| lopsided(cx, false), restitution, false, "an off-centre blow anywhere, with the sliding that it stops");
    add!("C02", "c02_plane", |cx: &mut Cx| wall(cx, false, false), restitution, false, "a sphere against an immovable plane");
    add!("C02", "c02_friction", |cx: &mut Cx| balls(cx, true, false), bounce, false, "two free spheres with friction");
    add!("C03", "c03_levers", |cx: &mut Cx| levers(cx, true, true), energy, false, "two spinning bodies of several colliders touching away from their centres of mass, with friction");
    add!("C03", "c03_balls", |cx: &mut Cx| balls(cx, false, false), energy, false, "two free spheres");
    add!("C03", "c03_spin", |cx: &mut Cx| balls(cx, false, true), energy, false, "two spinning spheres");
    add!("C03", "c03_lopsided", |cx: &mut Cx| lopsided(cx, true), energy, false, "a sphere off the centre of mass of its body hits a free sphere, in one plane: the blow spins the body");
    add!("C03", "c03_lopsided3", |cx: &mut Cx| lopsided(cx, false), energy, false, "an off-centre blow anywhere, with the sliding that it stops");
    add!("C03", "c03_plane", |cx: &mut Cx| wall(cx, false, false), energy, false, "a sphere against an immovable plane");
    add!("C03", "c03_friction", |cx: &mut Cx| balls(cx, true, false), energy, false, "two free spheres with friction");
    add!("C03", "c03_plane_friction", |cx: &mut Cx| wall(cx, true, false), energy, false, "a sphere against an immovable plane with friction");
    add!("C04", "c04_plane", |cx: &mut Cx| wall(cx, true, true), immovable, false, "a sphere against an immovable plane that may itself move, with friction");
    add!("C04", "c04_ball", |cx: &mut Cx| heavy(cx, false), immovable, false, "a sphere against a sphere of infinite mass that moves and spins");
    add!("C04", "c04_grip", |cx: &mut Cx| heavy(cx, true), immovable, false, "a sphere against a sphere of infinite mass, with friction");
    v.push(Harness { prop: "C04", name: "c04_lever", run: lever, thorough: false, reach: &["hit"], about: "an off-centre hit of a body whose own mass is infinite and whose colliders have finite masses and moments of inertia", bounds: "sphere, mesh or box on the heavy body; distance of its centre of mass in [-2,2]^2, approach speed in [1/8,8], masses in [1/4,8], restitution in [0,1], two choices of friction, two normals" });
    v.push(Harness { prop: "C04", name: "c04_two", run: two_heavy, thorough: false, reach: &["judged"], about: "two bodies of infinite mass meeting, passing or overlapping keep their velocities and move freely", bounds: "spheres, plane, mesh and box, infinite by the entity or by the collider; place and velocity along two directions symbolic in [-4,4]" });
    v.push(Harness { prop: "C04", name: "c04_force", run: pushed, thorough: false, reach: &["judged"], about: "forces, torques and gravity leave bodies of infinite mass alone", bounds: "infinite by the entity, by a collider or both, with another collider of finite mass and moment of inertia; force in [-8,8]^3 off the centre, velocity and spin symbolic, step in [1/16,2]" });
    v.push(Harness { prop: "C04", name: "c04_between", run: between, thorough: false, reach: &["judged"], about: "a heavy body hit from both sides in one step", bounds: "times of contact in [1/16,15/16], speeds in [1/8,8], masses in [1/4,8]; infinite by the entity or by the collider" });
    v.push(Harness { prop: "C04", name: "c04_driven", run: driven, thorough: false, reach: &["judged"], about: "a body of infinite mass that moves or spins by itself goes on and never falls asleep", bounds: "infinite by the entity or by a collider; speed, spin or both in [1/64,8], five steps of length in [1/16,1/2], or three fixed paces with a ball that hits it in the fifth step; thresholds of sleep as they are by default or larger" });
    add!("C21", "c21_levers", |cx: &mut Cx| levers(cx, true, true), coulomb, false, "two spinning bodies of several colliders touching away from their centres of mass");
    add!("C21", "c21_balls", |cx: &mut Cx| balls(cx, true, false), coulomb, false, "two free spheres with friction");
    add!("C21", "c21_plane", |cx: &mut Cx| wall(cx, true, false), coulomb, false, "a sphere against an immovable plane with friction");
    add!("C21", "c21_spin", |cx: &mut Cx| rolling(cx), coulomb, false, "a spinning sphere against an immovable plane with friction");
    add!("C21", "c21_frictionless", |cx: &mut Cx| balls(cx, false, true), slippery, false, "two spinning spheres without friction");
    add!("C01", "c01_block", |cx: &mut Cx| block(cx, false), conserve, false, "a sphere against a free box or mesh, with friction");
    add!("C02", "c02_block", |cx: &mut Cx| block(cx, true), bounce, false, "a sphere against a box or a mesh, immovable or free, with friction");
    add!("C03", "c03_block", |cx: &mut Cx| block(cx, true), energy, false, "a sphere against a box or a mesh, immovable or free, with friction");
    add!("C21", "c21_block", |cx: &mut Cx| block(cx, true), coulomb, false, "a sphere against a box or a mesh, immovable or free, with friction");
    macro_rules! units { ($p:expr, $n:expr, $scene:expr, $spec:expr, $as:expr, $about:expr) => {
        v.push(Harness { prop: $p, name: $n, run: |cx| other_units(cx, |cx| if let Some(h) = $scene(cx) { cx.reached("hit"); $spec(cx, &h); }), thorough: false, reach: &["hit"], about: $about, bounds: concat!("in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as ", $as) });
    } }
    units!("C01", "c01_units", |cx: &mut Cx| balls(cx, true, false), conserve, "c01_friction", "two free spheres with friction");
    units!("C01", "c01_units_lopsided", |cx: &mut Cx| lopsided(cx, false), conserve, "c01_lopsided3", "an off-centre blow");
    units!("C02", "c02_units", |cx: &mut Cx| balls(cx, false, false), restitution, "c02_balls", "two free spheres");
    units!("C02", "c02_units_lopsided", |cx: &mut Cx| lopsided(cx, false), restitution, "c02_lopsided3", "an off-centre blow");
    units!("C02", "c02_units_plane", |cx: &mut Cx| wall(cx, false, false), restitution, "c02_plane", "a sphere against an immovable plane");
    units!("C03", "c03_units", |cx: &mut Cx| balls(cx, true, false), energy, "c03_friction", "two free spheres with friction");
    units!("C03", "c03_units_lopsided", |cx: &mut Cx| lopsided(cx, false), energy, "c03_lopsided3", "an off-centre blow");
    units!("C04", "c04_units", |cx: &mut Cx| wall(cx, true, true), immovable, "c04_plane", "a sphere against an immovable plane that may itself move, with friction");
    units!("C04", "c04_units_ball", |cx: &mut Cx| heavy(cx, true), immovable, "c04_grip", "a sphere against a sphere of infinite mass, with friction");
    units!("C21", "c21_units", |cx: &mut Cx| balls(cx, true, false), coulomb, "c21_balls", "two free spheres with friction");
    units!("C21", "c21_units_plane", |cx: &mut Cx| wall(cx, true, false), coulomb, "c21_plane", "a sphere against an immovable plane with friction");
}

pub struct Body { pub h: EntityHandle, pub m: F, pub i: Mat3, pub c: Vec3, pub v: Vec3, pub w: Vec3, pub v2: Vec3, pub w2: Vec3, pub end: Vec3 }
pub struct Hit { pub n: Vec3, pub x: Vec3, pub e: F, pub a: Body, pub b: Body, pub rec: CollisionRecord, pub st: F, pub dy: F, pub thr: F, /// What the normal impulse leaves of the sliding, if it changes it.
    pub slide: Option<Vec3> }

/// Some of the frames stand elsewhere.
fn far(k: usize) -> Away { away([[0.0; 3], [0.0, 64.0, 0.0], [0.0; 3], [-64.0, 32.0, 16.0], [0.0; 3], [16.0, -32.0, 96.0], [128.0, 0.0, 0.0]][k]) }
fn coeffs(cx: &mut Cx) -> (F, F, F, F) { (cx.real("m1", 0.015625, 64.0), cx.real("m2", 0.015625, 64.0), cx.real("e1", 0.0, 1.0), cx.real("e2", 0.0, 1.0)) }
fn grip(cx: &mut Cx, k: &str) -> (F, F, F) { (cx.real(&format!("st{}", k), 0.0, 1.0), cx.real(&format!("dy{}", k), 0.0, 1.0), cx.real(&format!("thr{}", k), 0.0, 2.0)) }
fn slide(cx: &mut Cx, f: &[Vec3; 3]) -> Vec3 { let (a, b, c) = (cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0), cx.real("slip2", -8.0, 8.0)); inframe(f, a, b, c) }

/// A spin about an axis that is in line with none of the vectors of the frame.
fn turn(cx: &mut Cx, name: &str, f: &[Vec3; 3]) -> Vec3 {
    let k = cx.real(name, 0.125, 4.0);
    mul(&inframe(f, frac(2, 3), frac(-1, 3), frac(2, 3)), k)
}
/// Two spheres, each at the centre of its own entity.
fn balls(cx: &mut Cx, friction: bool, spin: bool) -> Option<Hit> {
    let k = cx.int("n", 7);
    let _away = far(k);
    let f = frame_of(k);
    let n = f[0];
    let simple = friction || spin;
    let t = if simple { num(0.5) } else { cx.real("t", 0.0625, 0.9375) };
    let (m1, m2, e1, e2) = coeffs(cx);
    let (r1, r2) = (cx.real("r1", 0.125, 2.0), cx.real("r2", 0.125, 2.0));
    let v2 = if simple { v3(0.25, -0.5, 1.0) } else { vec(cx, "v2", -4.0, 4.0) };
    let v1 = add(&v2, &slide(cx, &f));
    let c1 = v3(0.5, -1.0, 0.25);
    let c2 = add(&c1, &mul(&n, r1 + r2));
    let mut b1 = Ball::new(r1, sub(&c1, &mul(&v1, t)), v1);
    let mut b2 = Ball::new(r2, sub(&c2, &mul(&v2, t)), v2);
    b1.mass = m1; b2.mass = m2; b1.e = e1; b2.e = e2;
    if friction {
        let (s, d, h) = grip(cx, "1"); b1.st = s; b1.dy = d; b1.thr = h;
        let (s, d, h) = grip(cx, "2"); b2.st = s; b2.dy = d; b2.thr = h;
    }
    if spin { b1.spin = turn(cx, "w1", &f); b2.spin = turn(cx, "w2", &[f[1], f[2], f[0]]); }
    let mut s = awake(1);
    let (a, b) = if k % 2 == 1 { let x = b2.put(&mut s); (b1.put(&mut s), x) } else { (b1.put(&mut s), b2.put(&mut s)) };
    let q = num(0.4);
    let (ia, ib) = (scalar(q * m1 * r1 * r1), scalar(q * m2 * r2 * r2));
    run(cx, s, n, add(&c1, &mul(&n, r1)), &b1, &b2, (a, m1, ia, c1), (b, m2, ib, c2))
}
pub fn scalar(k: F) -> Mat3 { Mat3::from_diagonal(&Vec3::new(k, k, k)) }
fn run(cx: &mut Cx, mut s: PhysicsSystem, n: Vec3, x: Vec3, b1: &Ball, b2: &Ball, a: (EntityHandle, F, Mat3, Vec3), b: (EntityHandle, F, Mat3, Vec3)) -> Option<Hit> {
    go(&mut s, one());
    if s.collision_records.is_empty() { cx.check("the bodies meet", boolean(false)); return None; }
    let rec = rec(&s, 0);
    let (ea, eb) = (ent(&s, a.0), ent(&s, b.0));
    Some(Hit { n, x, e: b1.e * b2.e, rec, st: b1.st * b2.st, dy: b1.dy * b2.dy, thr: b1.thr * b2.thr, slide: None,
        a: Body { h: a.0, m: a.1, i: a.2, c: a.3, v: b1.vel, w: b1.spin, v2: ea.velocity, w2: ea.angular_velocity, end: ea.position },
        b: Body { h: b.0, m: b.1, i: b.2, c: b.3, v: b2.vel, w: b2.spin, v2: eb.velocity, w2: eb.angular_velocity, end: eb.position } })
}
/// A massless sphere off the centre of a heavy body (its inertia symbolic) meets a free sphere. `planar`: everything
/// happens in one plane; otherwise the blow is anywhere and the tangential speed is the one it stops.
fn lopsided(cx: &mut Cx, planar: bool) -> Option<Hit> {
    let nk = cx.int("n", 7);
    let _away = far(nk);
    let f = frame_of(nk);
    let n = f[0];
    let t = num(0.5);
    let (m1, m2, e1, e2) = (cx.real("m1", 0.015625, 64.0), cx.real("m2", 0.25, 8.0), cx.real("e1", 0.0, 1.0), num(0.5));
    let (r1, r2) = (num(0.5), num(0.75));
    let o1 = cx.real("off1", -2.0, 2.0);
    let o2 = if planar { zero() } else { cx.real("off2", -2.0, 2.0) };
    let i1 = cx.real("i1", 0.5, 4.0);
    let i2 = if planar { num(1.5) } else { cx.real("i2", 0.5, 4.0) };
    let off = inframe(&f, num(0.25), o1, o2);
    let inertia = spectrum(&f, &Vec3::new(one(), i2, i1));
    let speed = cx.real("speed", 0.125, 8.0);
    let v2 = v3(0.25, -0.5, 1.0);
    let v1 = if planar { inframe(&f, speed, cx.real("slip", -8.0, 8.0), zero()) } else {
        let j = (one() + e1 * e2) * speed / (one() / m1 + one() / m2 + o2 * o2 / i2 + o1 * o1 / i1);
        let k = num(-0.75) * j;
        inframe(&f, speed, k * o1 / i1, k * o2 / i2)
    };
    let v1 = add(&v2, &v1);
    let c1 = v3(0.5, -1.0, 0.25);
    let c2 = add(&c1, &mul(&n, r1 + r2));
    // the centre of mass, seen from the local origin
    let g = if planar { Vec3::zeros() } else { v3(0.75, -0.5, 1.25) };
    let mut b1 = Ball::new(r1, sub(&sub(&sub(&c1, &off), &g), &mul(&v1, t)), v1);
    let mut b2 = Ball::new(r2, sub(&c2, &mul(&v2, t)), v2);
    b1.mass = zero(); b1.center = add(&g, &off); b2.mass = m2; b1.e = e1; b2.e = e2;
    let mut s = awake(1);
    let (a, b) = if nk % 2 == 1 { let x = b2.put(&mut s); (b1.put(&mut s), x) } else { (b1.put(&mut s), b2.put(&mut s)) };
    lump(&mut s, a, m1, &g, &inertia);
    run(cx, s, n, add(&c1, &mul(&n, r1)), &b1, &b2, (a, m1, inertia, sub(&c1, &off)), (b, m2, scalar(num(0.4) * m2 * r2 * r2), c2))
}
/// Two spinning bodies of several colliders each, touching away from their centres of mass at the start of the step. The sliding that the normal
/// impulse leaves is the given one along the second vector of the frame. `few`: fewer symbolic values.
pub struct Arms { nk: usize, f: [Vec3; 3], b1: Ball, b2: Ball, m1: F, m2: F, k1: Vec3, k2: Vec3, g1: Vec3, g2: Vec3, c1: Vec3, c2: Vec3, x: Vec3, slide: F }
impl Arms {
    /// Makes the two bodies, everything faster by a velocity.
    pub fn put(&self, faster: &Vec3) -> (PhysicsSystem, EntityHandle, EntityHandle) {
        let mut s = awake(1);
        let (mut b1, mut b2) = (self.b1, self.b2);
        b1.vel = add(&b1.vel, faster); b2.vel = add(&b2.vel, faster);
        let (a, b) = if self.nk == 1 { let x = b2.put(&mut s); (b1.put(&mut s), x) } else { (b1.put(&mut s), b2.put(&mut s)) };
        for (h, m, k, g) in [(a, self.m1, &self.k1, &self.g1), (b, self.m2, &self.k2, &self.g2)] {
            for share in [num(0.25), num(0.75)] {
                lump(&mut s, h, m * share, g, &mul_mat(&spectrum(&self.f, k), share));
            }
        }
        (s, a, b)
    }
}
fn levers(cx: &mut Cx, friction: bool, few: bool) -> Option<Hit> {
    let l = arms(cx, friction, few);
    let _away = away([[0.0; 3], [96.0, -128.0, 64.0], [-64.0, 0.0, 16.0]][l.nk]);
    let (mut s, a, b) = l.put(&Vec3::zeros());
    go(&mut s, one());
    if s.collision_records.is_empty() { return None; }
    let rec = rec(&s, 0);
    let (ea, eb) = (ent(&s, a), ent(&s, b));
    let (f, b1, b2) = (&l.f, &l.b1, &l.b2);
    Some(Hit { n: f[0], x: l.x, e: b1.e * b2.e, rec, st: b1.st * b2.st, dy: b1.dy * b2.dy, thr: b1.thr * b2.thr, slide: Some(mul(&f[1], l.slide)),
        a: Body { h: a, m: l.m1, i: spectrum(f, &l.k1), c: l.c1, v: b1.vel, w: b1.spin, v2: ea.velocity, w2: ea.angular_velocity, end: ea.position },
        b: Body { h: b, m: l.m2, i: spectrum(f, &l.k2), c: l.c2, v: b2.vel, w: b2.spin, v2: eb.velocity, w2: eb.angular_velocity, end: eb.position } })
}
pub fn arms(cx: &mut Cx, friction: bool, few: bool) -> Arms {
    let nk = cx.int("n", 3);
    let f = frame_of([0, 5, 3][nk]);
    let n = f[0];
    let spin = cx.int("spin", 3);
    let still = spin == 0;
    let wide = still && !few;
    let m1 = if wide { cx.real("m1", 0.015625, 64.0) } else { num([1.5, 24.0, 0.0625][nk]) };
    let (e1, e2) = (cx.real("e1", if still { 0.0 } else { 0.0625 }, 1.0), num(0.5));
    let m2 = num(2.0);
    let (r1, r2) = (num(0.5), num(0.75));
    let o1 = inframe(&f, num(0.25), if wide { cx.real("off1", -2.0, 2.0) } else { num(-1.5) }, if wide { cx.real("off2", -2.0, 2.0) } else { num(0.5) });
    let o2 = inframe(&f, num(-0.5), num(0.75), num(-1.0));
    let k1 = Vec3::new(one(), num(1.5), if wide { cx.real("i1", 0.5, 4.0) } else { num(0.75) });
    let k2 = v3(0.5, 2.0, 1.0);
    let inverse = |k: &Vec3| spectrum(&f, &Vec3::new(one() / k.x, one() / k.y, one() / k.z));
    let (mut w1, mut w2) = (Vec3::zeros(), Vec3::zeros());
    // how far the centres of the spheres swing during the step
    let (mut s1, mut s2) = (Vec3::zeros(), Vec3::zeros());
    if !still {
        let k = cx.real("w", 0.125, 2.0);
        let (sin, cos) = (k * num(0.5)).sin_cos();
        let ax = if spin == 1 { inframe(&f, frac(2, 3), frac(-1, 3), frac(2, 3)) } else { inframe(&f, frac(-1, 3), frac(2, 3), frac(2, 3)) };
        let arm = if spin == 1 { sub(&o1, &mul(&n, r1)) } else { add(&o2, &mul(&n, r2)) };
        let swing = sub(&turned(&arm, &ax, sin, cos), &arm);
        if spin == 1 { w1 = mul(&ax, k); s1 = swing; } else { w2 = mul(&ax, k); s2 = swing; }
    }
    // the approach of the contact points, and what makes of it the one of the spheres' centres over the step
    let speed = cx.real("speed", 0.125, 8.0);
    let chord = speed + dot(&sub(&s1, &s2), &n) - dot(&sub(&cross(&w1, &o1), &cross(&w2, &o2)), &n);
    if !still { cx.assume(gt(chord, zero())); cx.assume(ge(chord, frac(1, 8))); }
    let slide = cx.real("slide", 0.125, 8.0);
    // how the normal impulse changes the velocity at the contact
    let give = |m: F, k: &Vec3, o: &Vec3| add(&mul(&n, one() / m), &cross(&apply(&inverse(k), &cross(o, &n)), o));
    let d = add(&give(m1, &k1, &o1), &give(m2, &k2, &o2));
    let j = (one() + e1 * e2) * speed / dot(&d, &n);
    let u = add(&mul(&f[1], slide), &mul(&d, j));
    let u = add(&mul(&n, speed), &sub(&u, &mul(&n, dot(&u, &n))));
    let v2 = v3(0.25, -0.5, 1.0);
    let v1 = add(&v2, &add(&u, &sub(&cross(&w2, &o2), &cross(&w1, &o1))));
    let x = v3(0.5, -1.0, 0.25);
    let (c1, c2) = (sub(&x, &o1), sub(&x, &o2));
    // the centres of mass, seen from the local origins
    let (g1, g2) = (v3(0.75, -0.5, 1.25), v3(-1.0, 0.5, 0.25));
    let mut b1 = Ball::new(r1, sub(&c1, &g1), v1);
    let mut b2 = Ball::new(r2, sub(&c2, &g2), v2);
    b1.mass = zero(); b1.center = add(&g1, &sub(&o1, &mul(&n, r1))); b1.spin = w1; b1.e = e1;
    b2.mass = zero(); b2.center = add(&g2, &add(&o2, &mul(&n, r2))); b2.spin = w2; b2.e = e2;
    if friction {
        if still { let (s, d, h) = grip(cx, "1"); b1.st = s; b1.dy = d; b1.thr = h; } else { b1.st = one(); b1.dy = cx.real("dy1", 0.0, 1.0); b1.thr = zero(); }
        b2.st = num(0.5); b2.dy = one(); b2.thr = one();
    }
    Arms { nk, f, b1, b2, m1, m2, k1, k2, g1, g2, c1, c2, x, slide }
}
fn mul_mat(m: &Mat3, k: F) -> Mat3 { let mut r = *m; for i in 0..3 { for j in 0..3 { r[(i, j)] = r[(i, j)] * k; } } r }
/// The symmetric matrix with eigenvectors `f` and eigenvalues `k`.
pub fn spectrum(f: &[Vec3; 3], k: &Vec3) -> Mat3 {
    let mut m = Mat3::zeros();
    for i in 0..3 { for j in 0..3 { m[(i, j)] = k.x * f[0][i] * f[0][j] + k.y * f[1][i] * f[1][j] + k.z * f[2][i] * f[2][j]; } }
    m
}
/// A sphere against an immovable plane.
fn wall(cx: &mut Cx, friction: bool, moving: bool) -> Option<Hit> { wall_spin(cx, friction, moving, false) }
fn rolling(cx: &mut Cx) -> Option<Hit> { wall_spin(cx, true, false, true) }
fn wall_spin(cx: &mut Cx, friction: bool, moving: bool, spin: bool) -> Option<Hit> {
    let k = cx.int("n", 7);
    let _away = far(k);
    let f = frame_of(k);
    let n = f[0];
    let t = cx.real("t", 0.0625, 0.9375);
    let (m1, e1, e2) = (cx.real("m1", 0.015625, 64.0), cx.real("e1", 0.0, 1.0), cx.real("e2", 0.0, 1.0));
    let r1 = cx.real("r1", 0.125, 2.0);
    let v2 = if moving { vec(cx, "v2", -4.0, 4.0) } else { Vec3::zeros() };
    let v1 = add(&v2, &slide(cx, &f));
    let x = v3(0.5, -1.0, 0.25);
    let c1 = sub(&x, &mul(&n, r1));
    let mut b1 = Ball::new(r1, sub(&c1, &mul(&v1, t)), v1);
    b1.mass = m1; b1.e = e1;
    let mut w = Wall::new(sub(&add(&x, &mul(&f[1], num(1.5))), &mul(&v2, t)), mul(&n, num(-1.0)));
    w.vel = v2; w.e = e2;
    if friction {
        let (s, d, h) = grip(cx, "1"); b1.st = s; b1.dy = d; b1.thr = h;
        let (s, d, h) = grip(cx, "2"); w.st = s; w.dy = d; w.thr = h;
    }
    if spin { b1.spin = turn(cx, "w1", &f); }
    let mut s = awake(1);
    let (a, b) = if k % 2 == 1 { let x = w.put(&mut s); (b1.put(&mut s), x) } else { (b1.put(&mut s), w.put(&mut s)) };
    let mut b2 = Ball::new(one(), w.pos, v2);
    b2.e = e2; b2.st = w.st; b2.dy = w.dy; b2.thr = w.thr;
    run(cx, s, n, x, &b1, &b2, (a, m1, scalar(num(0.4) * m1 * r1 * r1), c1), (b, inf(), Mat3::zeros(), add(&w.pos, &mul(&v2, t))))
}
/// A sphere against a face of a box or of a mesh, immovable or not; either may be the first body.
fn block(cx: &mut Cx, heavy: bool) -> Option<Hit> {
    let k = [0, 4, 2][cx.int("side", 3)];
    let n = mul(&axis(k % 3), if k < 3 { one() } else { num(-1.0) });
    let f = [n, axis((k + 1) % 3), axis((k + 2) % 3)];
    let mesh = cx.int("mesh", 2) == 1;
    let first = cx.int("order", 2) == 1;
    let fixed = heavy && cx.int("fixed", 2) == 1;
    let (e1, e2) = (cx.real("e1", 0.0, 1.0), cx.real("e2", 0.0, 1.0));
    let m2 = if fixed { inf() } else { cx.real("m2", 0.25, 4.0) };
    let (t, r1, m1) = (num(0.5), num(0.5), num(2.0));
    let v1 = inframe(&f, cx.real("speed", 0.125, 4.0), num(0.75), num(1.0));
    let x = v3(0.5, -1.0, 0.25);
    let c1 = sub(&x, &mul(&n, r1));
    let mut b1 = Ball::new(r1, sub(&c1, &mul(&v1, t)), v1);
    b1.mass = m1; b1.e = e1;
    let (s1, d1, h1) = grip(cx, "1"); b1.st = s1; b1.dy = d1; b1.thr = h1;
    let (s2, d2, h2) = grip(cx, "2");
    let put = |s: &mut PhysicsSystem| {
        let mut e = Entity::new(); e.position = x; e.own_mass = m2;
        let h = s.add_entity(e).unwrap();
        macro_rules! set { ($c:expr) => { $c.restitution_coefficient = e2; $c.static_friction_coefficient = s2; $c.dynamic_friction_coefficient = d2; $c.friction_threshold = h2; } }
        let w = if mesh {
            let mut c = MeshCollider::new();
            set!(c);
            let p = |y: f64, z: f64| inframe(&f, zero(), num(y), num(z));
            c.add_face(&vec![p(-6.0, -6.0), p(6.0, -6.0), p(6.0, 6.0), p(-6.0, 6.0)]);
            ColliderWrapper::Mesh(c)
        } else {
            let mut c = AlignedBoxCollider::new();
            set!(c);
            c.min_corner = inframe(&f, zero(), num(-6.0), num(-6.0)); c.max_corner = inframe(&f, num(4.0), num(6.0), num(6.0));
            ColliderWrapper::AlignedBox(c)
        };
        let c = s.add_collider(w).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    };
    let mut s = awake(1);
    let (a, b) = if first { let y = put(&mut s); (b1.put(&mut s), y) } else { (b1.put(&mut s), put(&mut s)) };
    let mut b2 = Ball::new(one(), x, Vec3::zeros());
    b2.e = e2; b2.st = s2; b2.dy = d2; b2.thr = h2;
    run(cx, s, n, x, &b1, &b2, (a, m1, scalar(num(0.4) * m1 * r1 * r1), c1), (b, m2, Mat3::zeros(), x))
}
/// A sphere against a sphere of infinite mass.
fn heavy(cx: &mut Cx, friction: bool) -> Option<Hit> {
    let k = cx.int("n", 7);
    let _away = far(k);
    let f = frame_of(k);
    let n = f[0];
    let t = cx.real("t", 0.0625, 0.9375);
    let (m1, e1, e2) = (cx.real("m1", 0.015625, 64.0), cx.real("e1", 0.0, 1.0), cx.real("e2", 0.0, 1.0));
    let own = cx.int("own", 2) == 1;
    let (r1, r2) = (num(0.5), num(0.75));
    let v2 = vec(cx, "v2", -4.0, 4.0);
    let v1 = add(&v2, &slide(cx, &f));
    let c1 = v3(0.5, -1.0, 0.25);
    let c2 = add(&c1, &mul(&n, r1 + r2));
    let mut b1 = Ball::new(r1, sub(&c1, &mul(&v1, t)), v1);
    let mut b2 = Ball::new(r2, sub(&c2, &mul(&v2, t)), v2);
    b1.mass = m1; b1.e = e1; b2.e = e2;
    if own { b2.own = inf(); } else { b2.mass = inf(); }
    if friction {
        let (s, d, h) = grip(cx, "1"); b1.st = s; b1.dy = d; b1.thr = h;
        b2.st = num(0.5); b2.dy = one(); b2.thr = one();
    } else { b2.spin = mul(&f[1], cx.real("w2", -2.0, 2.0)); }
    let mut s = awake(1);
    let (a, b) = if k % 2 == 1 { let x = b2.put(&mut s); (b1.put(&mut s), x) } else { (b1.put(&mut s), b2.put(&mut s)) };
    run(cx, s, n, add(&c1, &mul(&n, r1)), &b1, &b2, (a, m1, scalar(num(0.4) * m1 * r1 * r1), c1), (b, inf(), Mat3::zeros(), c2))
}

/// A collider of infinite or of finite mass, so that with the entity's own mass the body is immovable.
fn laden(x: Box<dyn Put>, s: &mut PhysicsSystem) -> EntityHandle {
    let h = x.put(s);
    let mut e = ent(s, h);
    e.own_mass = inf();
    s.update_entity(h, e).unwrap();
    h
}
fn lever(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let kind = cx.int("kind", 3);
    let f = if kind == 2 { frame_of(0) } else { f };
    let n = f[0];
    let t = cx.real("t", 0.0625, 0.9375);
    let (m1, e1, speed) = (cx.real("m1", 0.015625, 64.0), cx.real("e1", 0.0, 1.0), cx.real("speed", 0.125, 8.0));
    let off = inframe(&f, num(0.5), cx.real("off1", -2.0, 2.0), cx.real("off2", -2.0, 2.0));
    let v2 = v3(0.25, -0.5, 1.0);
    let v1 = add(&v2, &inframe(&f, speed, num([0.0, 1.0][cx.int("slip", 2)]), zero()));
    let x = v3(0.5, -1.0, 0.25);
    let mut a = Ball::new(num(0.5), sub(&sub(&x, &mul(&n, num(0.5))), &mul(&v1, t)), v1);
    a.mass = m1; a.e = e1;
    if cx.int("grip", 2) == 1 { a.st = num(0.5); a.dy = num(0.5); a.thr = one(); }
    let y = sub(&x, &mul(&v2, t));
    let mut s = awake(1);
    let h = a.put(&mut s);
    let g = match kind {
        0 => { let mut b = Ball::new(one(), add(&y, &n), v2); b.st = one(); b.dy = one(); b.thr = one(); laden(Box::new(b), &mut s) }
        1 => laden(Box::new(Solid::new(y, v2, vec![vec![mul(&f[1], num(-2.0)), add(&mul(&f[1], num(2.0)), &mul(&f[2], num(-2.0))), add(&mul(&f[1], num(2.0)), &mul(&f[2], num(2.0)))]])), &mut s),
        _ => laden(Box::new(Crate::new(y, v2, v3(0.0, -2.0, -2.0), v3(1.0, 2.0, 2.0))), &mut s),
    };
    // something that moves the centre of mass away and has a moment of inertia
    lump(&mut s, g, num(2.0), &off, &Mat3::from_diagonal(&v3(1.0, 2.0, 3.0)));
    let before = ent(&s, g);
    cx.check("the mass is infinite", boolean(before.get_last_total_mass().is_infinite()));
    go(&mut s, one());
    if s.collision_records.is_empty() { cx.check("the bodies meet", boolean(false)); return; }
    cx.reached("hit");
    let (a2, b2) = (ent(&s, h), ent(&s, g));
    cx.check("the heavy body keeps its velocity", veq(&b2.velocity, &v2));
    cx.check("the heavy body keeps its spin", veq(&b2.angular_velocity, &Vec3::zeros()));
    cx.check("the heavy body moves by its own velocity only", veq(&b2.position, &add(&before.position, &mul(&v2, t))));
    let after = dot(&sub(&add(&a2.velocity, &cross(&a2.angular_velocity, &mul(&n, num(0.5)))), &v2), &n);
    cx.check("the other body bounces off", eq(after, -(e1 * speed)));
}
fn two_heavy(cx: &mut Cx) {
    let how = cx.int("how", 3);
    let k = cx.int("kinds", 6);
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (free, fixed) = (cx.real("d", -4.0, 4.0), [0.0, -1.5, 2.0][cx.int("v", 3)]);
    let (d, v) = if cx.int("free", 2) == 0 { (free, num(fixed)) } else { (num(fixed), free) };
    let (p, v) = (mul(&f[0], d), add(&mul(&f[0], v), &mul(&f[1], num(0.5))));
    let w = v3(0.25, 0.5, 0.0);
    let mut s = awake(2);
    let make = |kind: usize, heavy: bool, s: &mut PhysicsSystem, p: Vec3, v: Vec3| -> EntityHandle {
        let m = if heavy { inf() } else { one() };
        let x: Box<dyn Put> = match kind {
            0 => { let mut b = Ball::new(num(0.5), p, v); b.mass = m; b.dy = one(); b.st = one(); Box::new(b) }
            1 => { let mut b = Wall::new(p, v3(0.0, -1.0, 0.0)); b.vel = v; b.mass = m; Box::new(b) }
            2 => Box::new(Solid::new(p, v, vec![vec![v3(-1.0, 0.0, -1.0), v3(1.0, 0.0, -1.0), v3(0.0, 0.0, 1.0)]])),
            _ => Box::new(Crate::new(p, v, v3(-1.0, -1.0, -1.0), v3(1.0, 1.0, 1.0))),
        };
        if heavy && kind < 2 { x.put(s) } else { laden(x, s) }
    };
    let (a, b) = [(0, 0), (0, 1), (0, 2), (0, 3), (2, 1), (2, 2)][k];
    let g = make(a, how != 1, &mut s, p, v);
    let h = make(b, how != 2, &mut s, Vec3::zeros(), w);
    let (x, y) = (ent(&s, g), ent(&s, h));
    go(&mut s, one());
    cx.reached("judged");
    for (h, x, v) in [(g, x, v), (h, y, w)] {
        let e = ent(&s, h);
        cx.check("the heavy bodies keep their velocities", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &Vec3::zeros())));
        cx.check("the heavy bodies move freely", veq(&e.position, &add(&x.position, &v)));
    }
}
fn driven(cx: &mut Cx) {
    let own = cx.int("own", 2) == 1;
    let way = cx.int("way", 3);
    let company = cx.int("company", 2) == 1;
    let (k, dt) = if company { ([num(0.0625), one(), num(4.0)][cx.int("pace", 3)], num(0.25)) } else { (cx.real("k", 0.015625, 8.0), cx.real("dt", 0.0625, 0.5)) };
    let f = frame_of(5);
    let v = if way != 1 { mul(&f[0], k) } else { Vec3::zeros() };
    let w = if way != 0 { mul(&f[1], if way == 1 { k } else { num(0.25) }) } else { Vec3::zeros() };
    let mut s = world(1);
    if cx.int("lazy", 2) == 1 { s.energy_sleep_threshold = num(1.0e6); s.sleep_time_threshold = zero(); }
    let mut b = Ball::new(one(), v3(0.5, -1.0, 0.25), v);
    b.spin = w; if own { b.own = inf(); } else { b.mass = inf(); }
    let h = if company { b.put(&mut s) } else {
        let mut e = Entity::new();
        e.position = b.pos; e.velocity = v; e.angular_velocity = w;
        if own { e.own_mass = inf(); }
        let h = s.add_entity(e).unwrap();
        let mut c = NullCollider::new();
        c.mass = if own { one() } else { inf() };
        let c = s.add_collider(ColliderWrapper::Null(c)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    };
    for i in 0..5 {
        // something runs into it; the step ends there
        let hit = company && i == 4;
        if hit { Ball::new(num(0.5), add(&add(&b.pos, &mul(&v, dt * num(4.0))), &mul(&f[2], num(1.75))), sub(&v, &mul(&f[2], num(2.0)))).put(&mut s); }
        go(&mut s, dt);
        if hit { cx.check("the other body is hit", boolean(s.collision_records.len() == 1)); }
        let e = ent(&s, h);
        cx.check("the heavy body keeps its velocity", veq(&e.velocity, &v));
        cx.check("the heavy body keeps its spin", veq(&e.angular_velocity, &w));
        cx.check("the heavy body does not fall asleep", boolean(!e.was_asleep()));
        let t = dt * if hit { num(4.5) } else { num(i as f64 + 1.0) };
        cx.check("the heavy body moves by its own velocity only", veq(&e.position, &add(&b.pos, &mul(&v, t))));
    }
    cx.reached("judged");
}
#[derive(Debug)]
struct Shove(Vec3, Vec3);
impl UnaryForceGenerator for Shove { fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force { Force::new(self.0, add(&p.get_entity(h).unwrap().position, &self.1)) } }
fn pushed(cx: &mut Cx) {
    let f = vec(cx, "f", -8.0, 8.0);
    let (v, w) = (vec(cx, "v", -4.0, 4.0), cx.real("w", -2.0, 2.0));
    let dt = cx.real("dt", 0.0625, 2.0);
    let how = cx.int("how", 3);
    let mut s = awake(2);
    s.add_unary_force_generator(Box::new(Shove(f, v3(0.5, 1.0, -0.5)))).unwrap();
    if cx.int("gravity", 2) == 1 { s.add_unary_force_generator(Box::new(GravityGenerator::new(v3(0.0, -9.0, 0.0)))).unwrap(); }
    let mut e = Entity::new();
    e.position = v3(1.0, 2.0, 3.0); e.velocity = v; e.angular_velocity = Vec3::new(zero(), w, zero());
    if how != 1 { e.own_mass = inf(); }
    let h = s.add_entity(e).unwrap();
    for (m, p) in [(num(2.0), v3(1.0, 0.0, 0.0)), (if how != 0 { inf() } else { one() }, v3(0.0, 1.0, 0.0))] {
        let mut c = NullCollider::new();
        c.mass = m; c.position = p; c.moment_of_inertia = Mat3::from_diagonal(&v3(1.0, 2.0, 3.0));
        let c = s.add_collider(ColliderWrapper::Null(c)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    let x = ent(&s, h).position;
    go(&mut s, dt);
    cx.reached("judged");
    let e = ent(&s, h);
    cx.check("forces do not change the velocity", veq(&e.velocity, &v));
    cx.check("forces do not change the spin", veq(&e.angular_velocity, &Vec3::new(zero(), w, zero())));
    cx.check("the body moves by its own velocity", veq(&e.position, &add(&x, &mul(&v, dt))));
}
fn between(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let (t1, t2) = (cx.real("t1", 0.0625, 0.9375), cx.real("t2", 0.0625, 0.9375));
    let (u1, u2) = (cx.real("u1", 0.125, 8.0), num(2.0));
    let x = v3(0.5, -1.0, 0.25);
    let v = v3(0.25, -0.5, 1.0);
    let (v1, v2) = (add(&v, &mul(&f[0], u1)), sub(&v, &mul(&f[0], u2)));
    let at = |k: F, v: &Vec3, t: F| sub(&add(&x, &mul(&f[0], k)), &mul(v, t));
    // places at the time 0 (the heavy one is at x at that time)
    let mut a = Ball::new(num(0.5), add(&at(num(-1.5), &v1, t1), &mul(&v, t1)), v1);
    let mut b = Ball::new(num(0.5), add(&at(num(1.5), &v2, t2), &mul(&v, t2)), v2);
    a.mass = cx.real("m", 0.25, 8.0); b.e = num(0.5);
    let mut c = Ball::new(one(), x, v);
    for b in [&mut a, &mut b, &mut c] { b.st = one(); b.dy = one(); }
    let own = cx.int("own", 2) == 1;
    if own { c.own = inf(); } else { c.mass = inf(); }
    let mut s = awake(4);
    let h = c.put(&mut s);
    let (g, k) = (a.put(&mut s), b.put(&mut s));
    go(&mut s, one());
    cx.reached("judged");
    cx.check("both hit", boolean(s.collision_records.len() == 2));
    let e = ent(&s, h);
    cx.check("the heavy body keeps its velocity", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &Vec3::zeros())));
    cx.check("the heavy body moves by its own velocity only", veq(&e.position, &add(&x, &v)));
    cx.check("the first bounces off", veq(&ent(&s, g).velocity, &sub(&v, &mul(&f[0], u1))));
    cx.check("the second bounces off", veq(&ent(&s, k).velocity, &add(&v, &mul(&f[0], u2 * num(0.5)))));
}

pub fn apply(m: &Mat3, v: &Vec3) -> Vec3 { Vec3::new(m[(0, 0)] * v.x + m[(0, 1)] * v.y + m[(0, 2)] * v.z, m[(1, 0)] * v.x + m[(1, 1)] * v.y + m[(1, 2)] * v.z, m[(2, 0)] * v.x + m[(2, 1)] * v.y + m[(2, 2)] * v.z) }
fn spin_about(b: &Body, x: &Vec3, v: &Vec3, w: &Vec3) -> Vec3 { add(&mul(&cross(&sub(&b.c, x), v), b.m), &apply(&b.i, w)) }
fn immobile(b: &Body) -> bool { b.m.is_infinite() }

fn conserve(cx: &mut Cx, h: &Hit) {
    let before = add(&mul(&h.a.v, h.a.m), &mul(&h.b.v, h.b.m));
    let after = add(&mul(&h.a.v2, h.a.m), &mul(&h.b.v2, h.b.m));
    cx.check("linear momentum is conserved", veq(&after, &before));
    let before = add(&spin_about(&h.a, &h.x, &h.a.v, &h.a.w), &spin_about(&h.b, &h.x, &h.b.v, &h.b.w));
    let after = add(&spin_about(&h.a, &h.x, &h.a.v2, &h.a.w2), &spin_about(&h.b, &h.x, &h.b.v2, &h.b.w2));
    cx.check("angular momentum about the contact is conserved", veq(&after, &before));
}
fn contact_speed(h: &Hit, after: bool) -> Vec3 {
    let p = |b: &Body| if after { add(&b.v2, &cross(&b.w2, &sub(&h.x, &b.c))) } else { add(&b.v, &cross(&b.w, &sub(&h.x, &b.c))) };
    sub(&p(&h.a), &p(&h.b))
}
fn bounce(cx: &mut Cx, h: &Hit) {
    let (before, after) = (dot(&contact_speed(h, false), &h.n), dot(&contact_speed(h, true), &h.n));
    cx.check("relative normal velocity is reversed and scaled", eq(after, -(h.e * before)));
    cx.check("the bodies do not keep approaching", le(after, zero()));
    cx.check("recorded restitution coefficient", eq(h.rec.restitution_coefficient, h.e));
    cx.check("the recorded magnitude is the impulse along the normal", eq(h.rec.impulse_magnitude, dot(&sub(&h.a.v, &h.a.v2), &h.n) * h.a.m));
}
fn restitution(cx: &mut Cx, h: &Hit) {
    bounce(cx, h);
    let j = h.rec.impulse_magnitude;
    cx.check("the impulse on the first is along the normal with the recorded magnitude", veq(&mul(&sub(&h.a.v, &h.a.v2), h.a.m), &mul(&h.n, j)));
    if !immobile(&h.b) { cx.check("the impulse on the second is along the normal with the recorded magnitude", veq(&mul(&sub(&h.b.v2, &h.b.v), h.b.m), &mul(&h.n, j))); }
}
fn kinetic(h: &Hit, after: bool) -> F {
    let k = |b: &Body| if immobile(b) { zero() } else if after { b.m * n2(&b.v2) + dot(&b.w2, &apply(&b.i, &b.w2)) } else { b.m * n2(&b.v) + dot(&b.w, &apply(&b.i, &b.w)) };
    k(&h.a) + k(&h.b)
}
fn energy(cx: &mut Cx, h: &Hit) {
    let (before, after) = (kinetic(h, false), kinetic(h, true));
    cx.check("kinetic energy does not grow", le(after, before));
}
fn immovable(cx: &mut Cx, h: &Hit) {
    cx.check("the heavy body keeps its velocity", veq(&h.b.v2, &h.b.v));
    cx.check("the heavy body keeps its spin", veq(&h.b.w2, &h.b.w));
    cx.check("the heavy body moves by its own velocity only", veq(&h.b.end, &h.b.c));
    cx.check("the other body responds with finite values", boolean(vfinite(&h.a.v2) && vfinite(&h.a.w2) && vfinite(&h.a.end)));
    bounce(cx, h);
}
/// The tangential part of the impulse on the first body.
fn coulomb(cx: &mut Cx, h: &Hit) {
    let j = h.rec.impulse_magnitude;
    let total = mul(&sub(&h.a.v2, &h.a.v), h.a.m);
    let fr = add(&total, &mul(&h.n, j));
    cx.check("friction acts along the contact plane", eq(dot(&fr, &h.n), zero()));
    let before = h.slide.unwrap_or_else(|| contact_speed(h, false));
    let after = contact_speed(h, true);
    let slide = sub(&before, &mul(&h.n, dot(&before, &h.n)));
    let left = sub(&after, &mul(&h.n, dot(&after, &h.n)));
    cx.check("friction is in line with the sliding", veq(&cross(&fr, &slide), &Vec3::zeros()));
    cx.check("friction opposes the sliding", le(dot(&fr, &slide), zero()));
    cx.check("friction does not reverse the sliding", ge(dot(&left, &slide), zero()));
    cx.check("friction obeys the Coulomb bound", le(n2(&fr), sq(h.st * j)).or(le(n2(&fr), sq(h.dy * j))));
    cx.check("friction has the whole strength of a coefficient unless that would be too much", eq(n2(&fr), sq(h.st * j)).or(eq(n2(&fr), sq(h.dy * j))).or(eq(dot(&left, &slide), zero())).or(le(n2(&slide), num(1e-10 / (units().len / units().time).min(1.0).powi(2)))));
    cx.check("friction is a couple of opposite impulses", if immobile(&h.b) { boolean(true) } else { veq(&add(&mul(&sub(&h.b.v2, &h.b.v), h.b.m), &total), &Vec3::zeros()) });
}
fn slippery(cx: &mut Cx, h: &Hit) {
    let (before, after) = (contact_speed(h, false), contact_speed(h, true));
    let slide = sub(&before, &mul(&h.n, dot(&before, &h.n)));
    let left = sub(&after, &mul(&h.n, dot(&after, &h.n)));
    cx.check("without friction the sliding is not damped", veq(&left, &slide));
    cx.check("without friction the spins stay", veq(&h.a.w2, &h.a.w).and(veq(&h.b.w2, &h.b.w)));
}
