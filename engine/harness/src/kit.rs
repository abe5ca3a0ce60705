//! What the harnesses share: vectors, bodies, worlds.
pub use crate::rt::*;
pub use fluffy_tribble::types::{ColliderHandle, EntityHandle, Mat3, Quat, Vec3};
pub use fluffy_tribble::*;

pub fn zero() -> F { num(0.0) }
pub fn one() -> F { num(1.0) }
pub fn v3(x: f64, y: f64, z: f64) -> Vec3 { Vec3::new(num(x), num(y), num(z)) }
/// A symbolic vector with components in [lo, hi].
pub fn vec(cx: &mut Cx, name: &str, lo: f64, hi: f64) -> Vec3 {
    let x = cx.real(&format!("{}.x", name), lo, hi);
    let y = cx.real(&format!("{}.y", name), lo, hi);
    let z = cx.real(&format!("{}.z", name), lo, hi);
    Vec3::new(x, y, z)
}
pub fn axis(i: usize) -> Vec3 { v3([1.0, 0.0, 0.0][i], [0.0, 1.0, 0.0][i], [0.0, 0.0, 1.0][i]) }
/// A vector whose components along axes i, i+1 and i+2 are given.
pub fn along(i: usize, x: F, y: F, z: F) -> Vec3 { let mut v = Vec3::zeros(); v[i] = x; v[(i + 1) % 3] = y; v[(i + 2) % 3] = z; v }
/// One of seven unit vectors and two others that make a frame with it.
pub fn frame(cx: &mut Cx, name: &str) -> [Vec3; 3] {
    let k = cx.int(name, 7);
    frame_of(k)
}
pub fn frame_of(k: usize) -> [Vec3; 3] {
    let f = |a: i64, b: i64, c: i64, d: i64| Vec3::new(frac(a, d), frac(b, d), frac(c, d));
    match k {
        0 => [f(1, 0, 0, 1), f(0, 1, 0, 1), f(0, 0, 1, 1)],
        1 => [f(0, -1, 0, 1), f(0, 0, 1, 1), f(-1, 0, 0, 1)],
        2 => [f(0, 0, 1, 1), f(1, 0, 0, 1), f(0, 1, 0, 1)],
        3 => [f(0, 3, -4, 5), f(1, 0, 0, 1), f(0, -4, -3, 5)],
        4 => [f(-4, 0, -3, 5), f(0, 1, 0, 1), f(3, 0, -4, 5)],
        5 => [f(2, -1, 2, 3), f(2, 2, -1, 3), f(-1, 2, 2, 3)],
        _ => [f(-6, -2, 3, 7), f(2, 3, 6, 7), f(-3, 6, -2, 7)],
    }
}
/// A symbolic frame: its first vector is any unit vector of the half space that `side` names (0: z >= 0, 1: z <= 0), by stereographic projection.
pub fn frame_any(cx: &mut Cx, name: &str) -> [Vec3; 3] {
    let side = cx.int(name, 2);
    let u = cx.real(&format!("{}.u", name), -1.0, 1.0);
    let w = cx.real(&format!("{}.w", name), -1.0, 1.0);
    let (u2, w2, two) = (u * u, w * w, num(2.0));
    let k = one() / (one() + u2 + w2);
    let z = if side == 0 { one() } else { num(-1.0) };
    let x = Vec3::new(two * u * k, two * w * k, z * (one() - u2 - w2) * k);
    let y = Vec3::new((one() - u2 + w2) * k, num(-2.0) * u * w * k, z * num(-2.0) * u * k);
    let t = Vec3::new(num(-2.0) * u * w * k, (one() + u2 - w2) * k, z * num(-2.0) * w * k);
    [x, y, t]
}
/// A vector by its coordinates in a frame.
pub fn inframe(f: &[Vec3; 3], a: F, b: F, c: F) -> Vec3 { add(&mul(&f[0], a), &add(&mul(&f[1], b), &mul(&f[2], c))) }
/// A symbolic unit vector: every direction is covered by one of the six `face`s.
pub fn unit(cx: &mut Cx, name: &str, face: usize) -> Vec3 {
    let x = cx.real(&format!("{}.1", name), -0.875, 0.875);
    let y = cx.real(&format!("{}.2", name), -0.875, 0.875);
    let rest = one() - x * x - y * y;
    cx.assume(ge(rest, num(0.25)));
    let z = rest.sqrt();
    along(face % 3, if face < 3 { z } else { -z }, x, y)
}
/// A symbolic unit vector perpendicular to axis `i`: every such direction is covered by one of the four `face`s.
pub fn unit2(cx: &mut Cx, name: &str, i: usize, face: usize) -> Vec3 {
    let x = cx.real(name, -0.875, 0.875);
    let z = (one() - x * x).sqrt();
    let z = if face < 2 { z } else { -z };
    if face % 2 == 0 { along(i, zero(), x, z) } else { along(i, zero(), z, x) }
}
pub fn sq(x: F) -> F { x * x }
pub fn dot(a: &Vec3, b: &Vec3) -> F { a.x * b.x + a.y * b.y + a.z * b.z }
pub fn n2(a: &Vec3) -> F { dot(a, a) }
pub fn cross(a: &Vec3, b: &Vec3) -> Vec3 { Vec3::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x) }
pub fn add(a: &Vec3, b: &Vec3) -> Vec3 { Vec3::new(a.x + b.x, a.y + b.y, a.z + b.z) }
pub fn sub(a: &Vec3, b: &Vec3) -> Vec3 { Vec3::new(a.x - b.x, a.y - b.y, a.z - b.z) }
pub fn mul(a: &Vec3, k: F) -> Vec3 { Vec3::new(a.x * k, a.y * k, a.z * k) }
pub fn veq(a: &Vec3, b: &Vec3) -> B { eq(a.x, b.x).and(eq(a.y, b.y)).and(eq(a.z, b.z)) }
pub fn vclose(a: &Vec3, b: &Vec3, tol: f64) -> B { close(a.x, b.x, tol).and(close(a.y, b.y, tol)).and(close(a.z, b.z, tol)) }
pub fn meq(a: &Mat3, b: &Mat3) -> B {
    let mut r = boolean(true);
    for i in 0..3 { for j in 0..3 { r = r.and(eq(a[(i, j)], b[(i, j)])); } }
    r
}
pub fn mclose(a: &Mat3, b: &Mat3, tol: f64) -> B {
    let mut r = boolean(true);
    for i in 0..3 { for j in 0..3 { r = r.and(close(a[(i, j)], b[(i, j)], tol)); } }
    r
}
pub fn implies(a: B, b: B) -> B { a.not().or(b) }
pub fn between(x: F, lo: f64, hi: f64) -> B { ge(x, num(lo)).and(le(x, num(hi))) }
pub fn finite(x: F) -> bool { x.is_finite() }
pub fn vfinite(a: &Vec3) -> bool { a.x.is_finite() && a.y.is_finite() && a.z.is_finite() }

/// The units in which the bodies are given to the crate, as powers of two: a length, a mass or a time of 1 is that many of the crate's.
#[derive(Clone, Copy)]
pub struct Units { pub len: f64, pub mass: f64, pub time: f64 }
const PLAIN: Units = Units { len: 1.0, mass: 1.0, time: 1.0 };
thread_local! { static UNITS: std::cell::Cell<Units> = std::cell::Cell::new(PLAIN); }
/// Runs with one of three other choices of units: large, heavy and fast; small, light and slow; large, light and slow.
pub fn other_units<T>(cx: &mut Cx, run: impl FnOnce(&mut Cx) -> T) -> T {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { UNITS.with(|u| u.set(PLAIN)); } }
    let _reset = Reset;
    let k = cx.int("units", 3);
    UNITS.with(|u| u.set([Units { len: 64.0, mass: 1024.0, time: 0.0625 }, Units { len: 0.5, mass: 1.0 / 1024.0, time: 256.0 }, Units { len: 64.0, mass: 1.0 / 1024.0, time: 256.0 }][k]));
    run(cx)
}
fn factor(k: f64) -> F { if k < 1.0 { frac(1, (1.0 / k) as i64) } else { frac(k as i64, 1) } }
fn by(x: F, k: f64) -> F { if k == 1.0 { x } else { x * factor(k) } }
fn vby(x: &Vec3, k: f64) -> Vec3 { if k == 1.0 { *x } else { mul(x, factor(k)) } }
pub fn units() -> Units { UNITS.with(|u| u.get()) }
pub fn in_len(x: F) -> F { by(x, units().len) }
pub fn in_place(x: &Vec3) -> Vec3 { vby(x, units().len) }
pub fn in_speed(x: F) -> F { by(x, units().len / units().time) }
pub fn in_velocity(x: &Vec3) -> Vec3 { vby(x, units().len / units().time) }
pub fn in_spin(x: &Vec3) -> Vec3 { vby(x, 1.0 / units().time) }
pub fn in_mass(x: F) -> F { by(x, units().mass) }
pub fn in_inertia(x: &Mat3) -> Mat3 { let k = units().mass * units().len * units().len; let mut m = *x; for i in 0..3 { for j in 0..3 { m[(i, j)] = by(m[(i, j)], k); } } m }
thread_local! { static AWAY: std::cell::Cell<Option<[f64; 3]>> = std::cell::Cell::new(None); }
/// As long as it lives, bodies are made at another place of the world, and seen from there.
pub struct Away;
impl Drop for Away { fn drop(&mut self) { AWAY.with(|a| a.set(None)); } }
pub fn away(by: [f64; 3]) -> Away { AWAY.with(|a| a.set(Some(by))); Away }
fn from_away(x: Vec3) -> Vec3 { match AWAY.with(|a| a.get()) { Some(d) => sub(&x, &v3(d[0], d[1], d[2])), None => x } }
fn to_away(x: Vec3) -> Vec3 { match AWAY.with(|a| a.get()) { Some(d) => add(&x, &v3(d[0], d[1], d[2])), None => x } }
/// A step in those units.
pub fn go(s: &mut PhysicsSystem, dt: F) { s.step(by(dt, units().time)); }
/// A record in those units.
pub fn rec(s: &PhysicsSystem, i: usize) -> CollisionRecord {
    let (r, u) = (&s.collision_records[i], units());
    CollisionRecord { first_entity: r.first_entity, second_entity: r.second_entity, position: vby(&from_away(r.position), 1.0 / u.len), time: by(r.time, 1.0 / u.time), normal: r.normal, restitution_coefficient: r.restitution_coefficient, impulse_magnitude: by(r.impulse_magnitude, u.time / (u.mass * u.len)) }
}
/// What is known of an entity, its place, velocities and own mass in those units.
pub fn ent(s: &PhysicsSystem, h: EntityHandle) -> Entity {
    let (mut e, u) = (s.get_entity(h).unwrap(), units());
    e.position = vby(&from_away(e.position), 1.0 / u.len); e.velocity = vby(&e.velocity, u.time / u.len); e.angular_velocity = vby(&e.angular_velocity, u.time); e.own_mass = by(e.own_mass, 1.0 / u.mass);
    e
}
/// An entity at the given place.
pub fn made(pos: &Vec3, rot: &Vec3, vel: &Vec3, spin: &Vec3, own: F) -> Entity {
    let mut e = Entity::new();
    e.position = to_away(in_place(pos)); e.rotation = *rot; e.velocity = in_velocity(vel); e.angular_velocity = in_spin(spin); e.own_mass = in_mass(own);
    e
}
/// Gives a body a point mass that has a moment of inertia.
pub fn lump(s: &mut PhysicsSystem, h: EntityHandle, mass: F, pos: &Vec3, inertia: &Mat3) {
    let mut p = NullCollider::new();
    p.mass = in_mass(mass); p.position = in_place(pos); p.moment_of_inertia = in_inertia(inertia);
    let p = s.add_collider(ColliderWrapper::Null(p)).unwrap();
    s.link_collider(p, Some(h)).unwrap();
}

/// A sphere with an entity of its own.
#[derive(Clone, Copy)]
pub struct Ball { pub pos: Vec3, pub vel: Vec3, pub spin: Vec3, pub rot: Vec3, pub r: F, pub mass: F, pub own: F, pub center: Vec3, pub e: F, pub thr: F, pub st: F, pub dy: F }
impl Ball {
    pub fn new(r: F, pos: Vec3, vel: Vec3) -> Ball {
        Ball { pos, vel, spin: Vec3::zeros(), rot: Vec3::zeros(), r, mass: one(), own: zero(), center: Vec3::zeros(), e: one(), thr: num(0.25), st: zero(), dy: zero() }
    }
    pub fn collider(&self) -> SphereCollider {
        let mut s = SphereCollider::new(in_len(self.r));
        s.center = in_place(&self.center);
        s.mass = in_mass(self.mass);
        s.restitution_coefficient = self.e;
        s.friction_threshold = in_speed(self.thr);
        s.static_friction_coefficient = self.st;
        s.dynamic_friction_coefficient = self.dy;
        s
    }
    pub fn entity(&self) -> Entity {
        made(&self.pos, &self.rot, &self.vel, &self.spin, self.own)
    }
    pub fn put(&self, s: &mut PhysicsSystem) -> EntityHandle {
        // if the sphere has the mass, then its centre is that of the body, wherever the local space begins
        let free = self.mass.is_finite() && self.mass != zero() && self.center == Vec3::zeros() && self.rot == Vec3::zeros();
        let g = if free { heart() } else { Vec3::zeros() };
        let h = s.add_entity(made(&sub(&self.pos, &g), &self.rot, &self.vel, &self.spin, self.own)).unwrap();
        let mut c = self.collider();
        c.center = in_place(&add(&self.center, &g));
        let c = s.add_collider(ColliderWrapper::Sphere(c)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    }
}

/// An infinite plane with an entity of its own, at rest.
#[derive(Clone, Copy)]
pub struct Wall { pub pos: Vec3, pub vel: Vec3, pub rot: Vec3, pub spin: Vec3, pub offset: Vec3, pub normal: Vec3, pub e: F, pub own: F, pub mass: F, pub thr: F, pub st: F, pub dy: F, /// The plane gets its values by an update.
    pub later: bool }
pub fn inf() -> F { F::INFINITY }
impl Wall {
    pub fn new(pos: Vec3, normal: Vec3) -> Wall { Wall { pos, vel: Vec3::zeros(), rot: Vec3::zeros(), spin: Vec3::zeros(), offset: Vec3::zeros(), normal, e: one(), own: zero(), mass: inf(), thr: num(0.25), st: zero(), dy: zero(), later: false } }
    pub fn put(&self, s: &mut PhysicsSystem) -> EntityHandle {
        let h = s.add_entity(made(&self.pos, &self.rot, &self.vel, &self.spin, self.own)).unwrap();
        let mut p = PlaneCollider::new();
        p.position = in_place(&self.offset);
        p.normal = self.normal;
        p.mass = in_mass(self.mass);
        p.restitution_coefficient = self.e;
        p.friction_threshold = in_speed(self.thr);
        p.static_friction_coefficient = self.st;
        p.dynamic_friction_coefficient = self.dy;
        if self.later {
            let c = s.add_collider(ColliderWrapper::Plane(PlaneCollider::new())).unwrap();
            s.link_collider(c, Some(h)).unwrap();
            s.update_collider(c, ColliderWrapper::Plane(p)).unwrap();
            return h;
        }
        let c = s.add_collider(ColliderWrapper::Plane(p)).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    }
}

pub fn world(iterations: u8) -> PhysicsSystem { let mut s = PhysicsSystem::new(); s.iteration_max = iterations; s }
/// A world in which nothing falls asleep.
pub fn awake(iterations: u8) -> PhysicsSystem { let mut s = world(iterations); s.energy_sleep_threshold = -inf(); s }

/// Something that can be put into a world.
pub trait Put {
    fn put(&self, s: &mut PhysicsSystem) -> EntityHandle;
    /// The same body elsewhere and with another velocity.
    fn moved(&self, by: &Vec3, faster: &Vec3) -> Box<dyn Put>;
    fn set_e(&mut self, e: F);
}
macro_rules! moved { () => { fn moved(&self, by: &Vec3, faster: &Vec3) -> Box<dyn Put> { let mut x = self.clone(); x.pos = add(&x.pos, by); x.vel = add(&x.vel, faster); Box::new(x) } fn set_e(&mut self, e: F) { self.e = e; } } }
impl Put for Ball { fn put(&self, s: &mut PhysicsSystem) -> EntityHandle { Ball::put(self, s) } moved!(); }
impl Put for Wall { fn put(&self, s: &mut PhysicsSystem) -> EntityHandle { Wall::put(self, s) } moved!(); }

/// Where a plane lies in the local space of its entity.
pub fn aside() -> Vec3 { v3(1.5, -2.0, 0.75) }
/// Where the centre of mass of a body of a mesh or a lever lies in its local space.
fn heart() -> Vec3 { v3(0.75, -0.5, 1.25) }
/// A mesh with an entity of its own, which carries the mass as a point. `pos` and `offset` are those of a local space that begins there.
#[derive(Clone)]
pub struct Solid { pub pos: Vec3, pub vel: Vec3, pub spin: Vec3, pub rot: Vec3, pub offset: Vec3, pub mass: F, pub inertia: Mat3, pub e: F, pub faces: Vec<Vec<Vec3>> }
impl Solid {
    pub fn new(pos: Vec3, vel: Vec3, faces: Vec<Vec<Vec3>>) -> Solid { Solid { pos, vel, spin: Vec3::zeros(), rot: Vec3::zeros(), offset: Vec3::zeros(), mass: one(), inertia: Mat3::from_diagonal(&v3(1.0, 1.0, 1.0)), e: one(), faces } }
    pub fn collider(&self) -> MeshCollider {
        let mut m = MeshCollider::new();
        m.position = in_place(&self.offset);
        m.restitution_coefficient = self.e;
        m.static_friction_coefficient = zero();
        m.dynamic_friction_coefficient = zero();
        for f in &self.faces { m.add_face(&f.iter().map(in_place).collect()); }
        m
    }
}
impl Put for Solid {
    moved!();
    fn put(&self, s: &mut PhysicsSystem) -> EntityHandle {
        let heavy = self.mass.is_infinite();
        let g = if heavy || self.rot != Vec3::zeros() { Vec3::zeros() } else { heart() };
        let h = s.add_entity(made(&sub(&self.pos, &g), &self.rot, &self.vel, &self.spin, if heavy { self.mass } else { zero() })).unwrap();
        let mut m = self.collider();
        m.position = in_place(&add(&self.offset, &g));
        let m = s.add_collider(ColliderWrapper::Mesh(m)).unwrap();
        s.link_collider(m, Some(h)).unwrap();
        if !heavy { lump(s, h, self.mass, &g, &self.inertia); }
        h
    }
}
/// An aligned box with an entity of its own.
#[derive(Clone, Copy)]
pub struct Crate { pub pos: Vec3, pub vel: Vec3, pub spin: Vec3, pub rot: Vec3, pub offset: Vec3, pub lo: Vec3, pub hi: Vec3, pub mass: F, pub own: F, pub e: F }
impl Crate {
    pub fn new(pos: Vec3, vel: Vec3, lo: Vec3, hi: Vec3) -> Crate { Crate { pos, vel, spin: Vec3::zeros(), rot: Vec3::zeros(), offset: Vec3::zeros(), lo, hi, mass: zero(), own: one(), e: one() } }
    pub fn collider(&self) -> AlignedBoxCollider {
        let mut b = AlignedBoxCollider::new();
        b.position = in_place(&self.offset); b.min_corner = in_place(&self.lo); b.max_corner = in_place(&self.hi); b.mass = in_mass(self.mass); b.restitution_coefficient = self.e;
        b.static_friction_coefficient = zero(); b.dynamic_friction_coefficient = zero();
        b
    }
}
impl Put for Crate {
    moved!();
    fn put(&self, s: &mut PhysicsSystem) -> EntityHandle {
        let h = s.add_entity(made(&self.pos, &self.rot, &self.vel, &self.spin, self.own)).unwrap();
        let c = s.add_collider(ColliderWrapper::AlignedBox(self.collider())).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    }
}
/// A massless sphere away from the centre of mass of a body that turns about the axis `n` (a unit vector) at the rate `w`.
#[derive(Clone, Copy)]
pub struct Lever { pub pos: Vec3, pub vel: Vec3, pub n: Vec3, pub w: F, pub off: Vec3, pub r: F, pub mass: F, pub inertia: F, pub e: F }
impl Put for Lever {
    moved!();
    fn put(&self, s: &mut PhysicsSystem) -> EntityHandle {
        let g = heart();
        let mut b = Ball::new(self.r, sub(&self.pos, &g), self.vel);
        b.mass = zero(); b.center = add(&self.off, &g); b.spin = mul(&self.n, self.w); b.e = self.e;
        let h = b.put(s);
        lump(s, h, self.mass, &g, &mul_m(self.inertia));
        h
    }
}
fn mul_m(k: F) -> Mat3 { Mat3::from_diagonal(&Vec3::new(k, k, k)) }
/// `o` turned about the unit vector `n` by twice the angle whose sine and cosine are given.
pub fn turned(o: &Vec3, n: &Vec3, sin: F, cos: F) -> Vec3 {
    let par = mul(n, dot(n, o));
    let perp = sub(o, &par);
    add(&par, &add(&mul(&perp, cos * cos - sin * sin), &mul(&cross(n, &perp), num(2.0) * sin * cos)))
}
