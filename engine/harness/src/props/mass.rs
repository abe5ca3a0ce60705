//! Mass, centre of mass and moment of inertia of entities through histories of bookkeeping (C11, C12).
use crate::kit::*;
use super::impact::apply;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: &["judged"], about: $about, bounds: $b }); } }
    const B: &str = "entity at a position in [-4,4]^3 turned about one of three axes by [1/4,5/2] or not at all, awake or asleep, own mass in [0,64], up to three colliders with masses in [1/4096,4096] or zero, the first one's centre in [-2,2]^3";
    add!("C11", "c11_history", |cx| history(cx, 2, judge_mass), false, "every sequence of two operations (link, unlink, update, remove, relink, update of the entity) on an entity with two massive colliders", B);
    add!("C11", "c11_history3", |cx| history(cx, 3, judge_mass), false, "every sequence of three operations", B);
    add!("C11", "c11_step", |cx| moving(cx, judge_mass), false, "linking and unlinking after a step that moves and turns the entity", B);
    add!("C11", "c11_order", |cx| order(cx, judge_mass), false, "three colliders linked in any order, some of them massless", B);
    add!("C11", "c11_infinite", infinite, false, "an infinite mass, of a collider or of the entity, comes and goes", B);
    add!("C12", "c12_order", |cx| order(cx, judge_inertia), false, "the tensor of a sphere, a box and a point mass linked in any order, in an entity turned about one of three axes", B);
    add!("C12", "c12_history", |cx| history(cx, 2, judge_inertia), false, "the tensor after every sequence of two operations", B);
    add!("C12", "c12_history3", |cx| history(cx, 3, judge_inertia), false, "the tensor after every sequence of three operations", B);
    add!("C12", "c12_step", |cx| moving(cx, judge_inertia), false, "the tensor after a step that moves and turns the entity", B);
    const K: &str = "three colliders, each a point mass without a tensor, a massless tensor, a sphere in the same place as another, a lopsided box, a mesh or a massless sphere, in that order or the opposite one; masses in [1/4096,4096], entity at a position in [-4,4]^3, turned about one of three axes or not";
    add!("C11", "c11_kinds", |cx| kinds(cx, judge_mass), false, "every selection of unusual colliders", K);
    add!("C12", "c12_kinds", |cx| kinds(cx, judge_inertia), false, "the tensor of every selection of unusual colliders", K);
    add!("C12", "c12_response", response, false, "the tensor that the response to a force uses is the one about the centre of mass, turned into the world", B);
}

#[derive(Clone)]
struct Part { m: F, c: Vec3, i: Mat3 }
#[derive(Clone)]
struct Model { origin: Vec3, n: Vec3, half: Option<(F, F)>, own: F, parts: Vec<Option<Part>> }
impl Model {
    fn out(&self, v: &Vec3) -> Vec3 { match self.half { Some((s, c)) => turned(v, &self.n, s, c), None => *v } }
    fn mass(&self) -> F { let mut m = self.own; for p in self.parts.iter().flatten() { m = m + p.m; } m }
    fn center(&self) -> Vec3 {
        let mut m = zero();
        let mut c = Vec3::zeros();
        let mut any = false;
        for p in self.parts.iter().flatten() { m = m + p.m; c = add(&c, &mul(&p.c, p.m)); any = any || f64_of(p.m) != 0.0; }
        if any { mul(&c, one() / m) } else { Vec3::zeros() }
    }
    fn position(&self) -> Vec3 { add(&self.origin, &self.out(&self.center())) }
    fn inertia(&self) -> Mat3 {
        let center = self.center();
        let mut sum = Mat3::zeros();
        for p in self.parts.iter().flatten() {
            let d = sub(&p.c, &center);
            for i in 0..3 { for j in 0..3 { sum[(i, j)] = sum[(i, j)] + p.i[(i, j)] + p.m * (if i == j { n2(&d) } else { zero() } - d[i] * d[j]); } }
        }
        // R I R^T, by columns and then by rows
        let cols: Vec<Vec3> = (0..3).map(|k| self.out(&Vec3::new(sum[(0, k)], sum[(1, k)], sum[(2, k)]))).collect();
        let mut r = Mat3::zeros();
        for i in 0..3 { let row = self.out(&Vec3::new(cols[0][i], cols[1][i], cols[2][i])); for j in 0..3 { r[(i, j)] = row[j]; } }
        r
    }
}
fn judge_mass(cx: &mut Cx, e: &Entity, m: &Model) {
    cx.check("total mass is the sum of the masses", eq(e.get_last_total_mass(), m.mass()));
    cx.check("the position is the centre of mass of the colliders", veq(&e.position, &m.position()));
    let o = e.get_last_orientation();
    cx.check("the local origin stays where it is", veq(&o.local_origin_in_world(), &m.origin));
    for i in 0..3 { cx.check("the rotation stays as it is", veq(&o.direction_into_world(&axis(i)), &m.out(&axis(i)))); }
    cx.reached("judged");
}
fn judge_inertia(cx: &mut Cx, e: &Entity, m: &Model) {
    let got = e.get_last_moment_of_inertia();
    cx.check("the tensor is the sum of the moved and turned tensors", meq(&got, &m.inertia()));
    for i in 0..3 { for j in 0..i { cx.check("the tensor is symmetric", eq(got[(i, j)], got[(j, i)])); } }
    cx.reached("judged");
}

/// An entity without colliders, turned or not.
fn start(cx: &mut Cx, s: &mut PhysicsSystem) -> (EntityHandle, Model) {
    let k = cx.int("axis", 4);
    let n = frame_of([0, 2, 5, 6][k])[0];
    let half = if k == 0 { None } else { let w = cx.real("w", 0.25, 2.5); Some((w, (w * num(0.5)).sin_cos())) };
    let mut e = Entity::new();
    let origin = vec(cx, "pos", -4.0, 4.0);
    let own = cx.real("own", 0.0, 64.0);
    e.position = origin;
    e.own_mass = own;
    if let Some((w, _)) = half { e.rotation = mul(&n, w); }
    let h = s.add_entity(e).unwrap();
    // it may be asleep
    if k == 1 || k == 3 {
        s.energy_sleep_threshold = inf(); s.sleep_time_threshold = zero();
        s.step(num(0.25));
        cx.check("it falls asleep", boolean(ent(s, h).was_asleep()));
        s.energy_sleep_threshold = -inf();
    }
    (h, Model { origin, n, half: half.map(|h| h.1), own, parts: vec![None, None, None] })
}
fn sphere(cx: &mut Cx, name: &str, c: Vec3, r: f64) -> (SphereCollider, Part) {
    let m = cx.real(name, 0.000244140625, 4096.0);
    let mut s = SphereCollider::new(num(r));
    s.center = c;
    s.mass = m;
    let k = num(0.4) * m * num(r) * num(r);
    (s, Part { m, c, i: Mat3::from_diagonal(&Vec3::new(k, k, k)) })
}
fn point(cx: &mut Cx, m: F) -> (NullCollider, Part) {
    let mut p = NullCollider::new();
    p.position = v3(0.5, -1.0, 0.25);
    p.mass = m;
    p.moment_of_inertia = Mat3::new(num(2.0), num(0.25), num(-0.5), num(0.25), num(3.0), num(0.125), num(-0.5), num(0.125), num(2.5));
    let part = Part { m, c: p.position, i: p.moment_of_inertia };
    (p, part)
}
fn cuboid(cx: &mut Cx, m: F) -> (AlignedBoxCollider, Part) {
    let mut b = AlignedBoxCollider::new();
    let (x, y, z) = (cx.real("size", 0.25, 4.0), num(2.0), num(0.5));
    b.position = v3(-1.0, 0.75, 0.5);
    b.min_corner = if cx.int("beyond", 2) == 1 { v3(0.75, 0.5, 0.25) } else { v3(-0.5, -1.5, -1.25) };
    b.max_corner = add(&b.min_corner, &Vec3::new(x, y, z));
    b.mass = m;
    let k = m * frac(1, 12);
    let c = add(&b.position, &mul(&add(&b.min_corner, &b.max_corner), num(0.5)));
    (b, Part { m, c, i: Mat3::from_diagonal(&Vec3::new(k * (y * y + z * z), k * (x * x + z * z), k * (x * x + y * y))) })
}
fn permutation(k: usize) -> [usize; 3] { [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k] }

fn order(cx: &mut Cx, judge: fn(&mut Cx, &Entity, &Model)) {
    let mut s = world(3);
    let (h, mut m) = start(cx, &mut s);
    let c = vec(cx, "c", -2.0, 2.0);
    let weights = cx.int("weights", 4);
    let (mut a, mut pa) = sphere(cx, "m1", c, 0.75);
    if weights == 1 || weights == 3 { a.mass = zero(); pa = Part { m: zero(), c: a.center, i: Mat3::zeros() }; }
    let m2 = if weights == 3 { zero() } else { cx.real("m2", 0.000244140625, 4096.0) };
    let (b, pb) = point(cx, m2);
    let m3 = if weights >= 2 { zero() } else { cx.real("m3", 0.000244140625, 4096.0) };
    let (d, pd) = cuboid(cx, m3);
    let c = [s.add_collider(ColliderWrapper::Sphere(a)).unwrap(), s.add_collider(ColliderWrapper::Null(b)).unwrap(), s.add_collider(ColliderWrapper::AlignedBox(d)).unwrap()];
    let parts = [pa, pb, pd];
    let o = permutation(cx.int("order", 6));
    for &k in o.iter() {
        cx.check("linking succeeds", boolean(s.link_collider(c[k], Some(h)).is_ok()));
        m.parts[k] = Some(parts[k].clone());
    }
    judge(cx, &ent(&s, h), &m);
}
fn kinds(cx: &mut Cx, judge: fn(&mut Cx, &Entity, &Model)) {
    let mut s = world(3);
    let (h, mut m) = start(cx, &mut s);
    m.parts = vec![];
    let places = [v3(1.0, -0.5, 0.25), v3(1.0, -0.5, 0.25), v3(-0.75, 2.0, 1.0)];
    for i in 0..3 {
        let mass = cx.real(&format!("m{}", i), 0.000244140625, 4096.0);
        let c = places[i];
        let (w, part) = match cx.int(&format!("kind{}", i), if i == 2 { 3 } else { 6 }) {
            0 => { let mut p = NullCollider::new(); p.position = c; p.mass = mass; (ColliderWrapper::Null(p), Part { m: mass, c, i: Mat3::zeros() }) }
            1 => { let (mut a, p) = sphere(cx, &format!("s{}", i), c, 0.5); a.radius = num(0.5); (ColliderWrapper::Sphere(a), p) }
            2 => {
                let mut b = AlignedBoxCollider::new();
                b.position = c; b.min_corner = v3(0.25, 3.0, -0.5); b.max_corner = v3(-1.0, 0.5, 1.0); b.mass = mass;
                let (x, y, z) = (num(1.25), num(2.5), num(1.5));
                let k = mass * frac(1, 12);
                (ColliderWrapper::AlignedBox(b), Part { m: mass, c: add(&c, &v3(-0.375, 1.75, 0.25)), i: Mat3::from_diagonal(&Vec3::new(k * (y * y + z * z), k * (x * x + z * z), k * (x * x + y * y))) })
            }
            3 => { let mut p = NullCollider::new(); p.position = c; p.moment_of_inertia = Mat3::from_diagonal(&Vec3::new(mass, num(2.0), num(1.5))); let i = p.moment_of_inertia; (ColliderWrapper::Null(p), Part { m: zero(), c, i }) }
            4 => { let mut a = MeshCollider::new(); a.position = c; a.add_face(&vec![v3(0.0, 0.0, 0.0), v3(1.0, 0.0, 0.0), v3(0.0, 1.0, 0.0)]); (ColliderWrapper::Mesh(a), Part { m: zero(), c, i: Mat3::zeros() }) }
            _ => { let mut a = SphereCollider::new(num(0.5)); a.center = c; a.mass = zero(); (ColliderWrapper::Sphere(a), Part { m: zero(), c, i: Mat3::zeros() }) }
        };
        let c = s.add_collider(w).unwrap();
        cx.check("linking succeeds", boolean(s.link_collider(c, Some(h)).is_ok()));
        m.parts.push(Some(part));
    }
    judge(cx, &ent(&s, h), &m);
}
fn history(cx: &mut Cx, len: usize, judge: fn(&mut Cx, &Entity, &Model)) {
    let mut s = world(3);
    let (h, mut m) = start(cx, &mut s);
    let other = s.add_entity(Entity::new()).unwrap();
    let c = vec(cx, "c", -2.0, 2.0);
    let (a, pa) = sphere(cx, "m1", c, 0.75);
    let (m2, m3) = (cx.real("m2", 0.000244140625, 4096.0), num(1.5));
    let (b, pb) = point(cx, m2);
    let (d, pd) = cuboid(cx, m3);
    let ha = s.add_collider(ColliderWrapper::Sphere(a)).unwrap();
    let hb = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    let hd = s.add_collider(ColliderWrapper::AlignedBox(d)).unwrap();
    for (k, (x, p)) in vec![(ha, &pa), (hb, &pb)].into_iter().enumerate() {
        s.link_collider(x, Some(h)).unwrap();
        m.parts[k] = Some(p.clone());
    }
    let mut pa = pa;
    let mut gone = false;
    for i in 0..len {
        match cx.int(&format!("op{}", i), 9) {
            0 => { cx.check("linking succeeds", boolean(s.link_collider(hd, Some(h)).is_ok())); m.parts[2] = Some(pd.clone()); }
            1 => { cx.check("unlinking succeeds", boolean(s.link_collider(ha, None).is_ok())); m.parts[0] = None; }
            2 => {
                let (mut a, p) = sphere(cx, &format!("m1b{}", i), v3(1.5, 0.25, -0.5), 0.5);
                a.restitution_coefficient = num(0.25);
                cx.check("updating succeeds", boolean(s.update_collider(ha, ColliderWrapper::Sphere(a)).is_ok()));
                pa = p;
                if m.parts[0].is_some() { m.parts[0] = Some(pa.clone()); }
            }
            3 => { s.remove_collider(hb); m.parts[1] = None; gone = true; }
            4 => { cx.check("relinking succeeds", boolean(s.link_collider(ha, Some(other)).is_ok())); m.parts[0] = None; }
            5 => {
                let mut e = ent(&s, h);
                m.own = cx.real(&format!("own2{}", i), 0.0, 64.0);
                e.own_mass = m.own;
                let d = v3(0.5, -0.75, 1.25);
                e.position = add(&e.position, &d);
                m.origin = add(&m.origin, &d);
                cx.check("updating the entity succeeds", boolean(s.update_entity(h, e).is_ok()));
            }
            6 => { cx.check("linking again succeeds", boolean(s.link_collider(ha, Some(h)).is_ok())); m.parts[0] = Some(pa.clone()); }
            7 => { if !gone { let (b, p) = point(cx, zero()); let p = Part { m: zero(), ..p }; cx.check("updating succeeds", boolean(s.update_collider(hb, ColliderWrapper::Null(b)).is_ok())); m.parts[1] = Some(p); } }
            _ => {
                // a refused update changes nothing
                let (mut a, _) = sphere(cx, &format!("m1b{}", i), v3(1.5, 0.25, -0.5), 0.5);
                a.radius = num(0.01);
                cx.check("an invalid update is refused", boolean(s.update_collider(ha, ColliderWrapper::Sphere(a)).is_err()));
                let mut e = ent(&s, h);
                e.own_mass = num(-1.0);
                e.position = v3(9.0, 9.0, 9.0);
                cx.check("an invalid update of the entity is refused", boolean(s.update_entity(h, e).is_err()));
            }
        }
    }
    judge(cx, &ent(&s, h), &m);
}
/// Links a second collider after a step that moves and turns the entity, then takes the first one away.
fn moving(cx: &mut Cx, judge: fn(&mut Cx, &Entity, &Model)) {
    let k = cx.int("axis", 3);
    let n = frame_of([2, 5, 6][k])[0];
    let mut s = awake(3);
    let mut e = Entity::new();
    let (w, dt) = (cx.real("w", 0.25, 2.5), one());
    let (sin, cos) = (w * dt * num(0.5)).sin_cos();
    e.position = vec(cx, "pos", -4.0, 4.0);
    e.velocity = v3(1.0, -2.0, 0.5);
    e.angular_velocity = mul(&n, w);
    let mut m = Model { origin: e.position, n, half: None, own: zero(), parts: vec![None, None, None] };
    let h = s.add_entity(e).unwrap();
    let c = vec(cx, "c", -2.0, 2.0);
    let (a, pa) = sphere(cx, "m1", c, 0.75);
    let ha = s.add_collider(ColliderWrapper::Sphere(a)).unwrap();
    s.link_collider(ha, Some(h)).unwrap();
    m.parts[0] = Some(pa);
    s.step(dt);
    // the centre of mass moves straight, the origin is carried around it
    let center = add(&m.position(), &mul(&v3(1.0, -2.0, 0.5), dt));
    m.half = Some((sin, cos));
    m.origin = sub(&center, &m.out(&m.center()));
    judge(cx, &ent(&s, h), &m);
    let m2 = cx.real("m2", 0.000244140625, 4096.0);
    let (b, pb) = point(cx, m2);
    let hb = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(hb, Some(h)).unwrap();
    m.parts[1] = Some(pb);
    judge(cx, &ent(&s, h), &m);
    s.remove_collider(ha);
    m.parts[0] = None;
    judge(cx, &ent(&s, h), &m);
}
fn infinite(cx: &mut Cx) {
    let mut s = world(3);
    let (h, mut m) = start(cx, &mut s);
    let c = vec(cx, "c", -2.0, 2.0);
    let (a, pa) = sphere(cx, "m1", c, 0.75);
    let (b, _) = point(cx, inf());
    let ha = s.add_collider(ColliderWrapper::Sphere(a)).unwrap();
    let hb = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    let first = cx.int("first", 2);
    let heavy = |cx: &mut Cx, s: &PhysicsSystem| {
        let e = ent(s, h);
        cx.check("an infinite mass makes the entity infinitely massive", boolean(e.get_last_total_mass().is_infinite() && e.get_last_total_mass() > zero()));
        cx.check("the local origin stays where it is", veq(&e.get_last_orientation().local_origin_in_world(), &m.origin));
        cx.check("the position is finite", boolean(vfinite(&e.position)));
        let i = e.get_last_moment_of_inertia();
        let mut fin = true;
        for k in 0..9 { fin = fin && i[(k / 3, k % 3)].is_finite(); }
        cx.check("the tensor is finite", boolean(fin));
    };
    s.link_collider(if first == 0 { ha } else { hb }, Some(h)).unwrap();
    s.link_collider(if first == 0 { hb } else { ha }, Some(h)).unwrap();
    heavy(cx, &s);
    if cx.int("leave", 2) == 0 { s.remove_collider(hb); } else { s.link_collider(hb, None).unwrap(); }
    m.parts[0] = Some(pa);
    judge_mass(cx, &ent(&s, h), &m);
    judge_inertia(cx, &ent(&s, h), &m);
    // and by the entity's own mass
    let mut e = ent(&s, h);
    e.own_mass = inf();
    cx.check("infinite mass is accepted", boolean(s.update_entity(h, e).is_ok()));
    let e = ent(&s, h);
    cx.check("an infinite mass makes the entity infinitely massive", boolean(e.get_last_total_mass().is_infinite()));
    cx.check("the local origin stays where it is", veq(&e.get_last_orientation().local_origin_in_world(), &m.origin));
    let mut e = ent(&s, h);
    e.own_mass = m.own;
    cx.check("finite mass is accepted", boolean(s.update_entity(h, e).is_ok()));
    judge_mass(cx, &ent(&s, h), &m);
}
#[derive(Debug)]
struct Push { f: Vec3, at: Vec3 }
impl UnaryForceGenerator for Push { fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force { Force::new(self.f, add(&p.get_entity(h).unwrap().position, &self.at)) } }
/// A force at a lever: the tensor times the change of spin is the torque.
fn response(cx: &mut Cx) {
    let mut s = awake(3);
    let k = cx.int("axis", 3);
    let n = frame_of([0, 2, 5][k])[0];
    let half = if k == 0 { None } else { let w = cx.real("w", 0.25, 2.5); Some((w, (w * num(0.5)).sin_cos())) };
    let mut e = Entity::new();
    e.position = v3(0.5, -1.0, 2.0);
    if let Some((w, _)) = half { e.rotation = mul(&n, w); }
    let h = s.add_entity(e).unwrap();
    let mut m = Model { origin: v3(0.5, -1.0, 2.0), n, half: half.map(|h| h.1), own: zero(), parts: vec![None, None, None] };
    // a pair of equal point masses with tensors that share their main axes, one of which joins them
    let g = frame_of([5, 3, 6][k]);
    let (mass, d) = (cx.real("m1", 0.000244140625, 4096.0), cx.real("d", 0.125, 2.0));
    let (i1, i2, i3) = (cx.real("i1", 0.25, 4.0), num(1.25), num(0.5));
    let center = v3(1.0, 0.5, -0.25);
    for side in 0..2 {
        let mut p = NullCollider::new();
        p.position = add(&center, &mul(&g[0], if side == 0 { d } else { -d }));
        p.mass = mass;
        p.moment_of_inertia = super::impact::spectrum(&g, &Vec3::new(i1, i2, i3));
        m.parts[side] = Some(Part { m: mass, c: p.position, i: p.moment_of_inertia });
        let p = s.add_collider(ColliderWrapper::Null(p)).unwrap();
        s.link_collider(p, Some(h)).unwrap();
    }
    // a torque, made of one force along each axis, that turns the body about a given axis
    let spin = mul(&frame_of([6, 0, 2][cx.int("about", 3)])[0], cx.real("spin", 0.25, 2.5));
    let torque = mul(&apply(&m.inertia(), &spin), num(2.0));
    for i in 0..3 { s.add_unary_force_generator(Box::new(Push { f: mul(&axis((i + 2) % 3), torque[i]), at: axis((i + 1) % 3) })).unwrap(); }
    s.step(num(0.5));
    let e = ent(&s, h);
    cx.reached("judged");
    cx.check("a torque spins the body by the inverse of the tensor", veq(&e.angular_velocity, &spin));
}
