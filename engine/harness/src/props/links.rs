//! Handles, links (C13) and validity (C14).
use crate::kit::*;
use std::collections::BTreeSet;

pub fn register(v: &mut Vec<Harness>) {
    const B: &str = "two entities and three colliders at first, symbolic masses; handles of removed things stay in use; every choice of operations";
    v.push(Harness { prop: "C13", name: "c13_two", run: |cx| histories(cx, 2, true), thorough: false, reach: &["judged"], about: "every history of two operations out of all, from four starting configurations", bounds: B });
    v.push(Harness { prop: "C13", name: "c13_three", run: |cx| histories(cx, 3, false), thorough: false, reach: &["judged"], about: "every history of three operations (without the variants that two cover)", bounds: B });
    v.push(Harness { prop: "C13", name: "c13_four", run: |cx| histories(cx, 4, false), thorough: false, reach: &["judged"], about: "every history of four operations", bounds: B });
    v.push(Harness { prop: "C13", name: "c13_sleep", run: sleepers, thorough: false, reach: &["judged"], about: "removals and updates while bodies rest on each other asleep", bounds: "a ball asleep on a plane or on another ball; the mass in [1/8,8]; every history of two operations and a step" });
    v.push(Harness { prop: "C13", name: "c13_kinds", run: kinds, thorough: false, reach: &["judged"], about: "colliders of every kind, copies of what was read back, and entities read back before a link changed", bounds: "two colliders of any two of the five kinds, one added as a copy of what was read back, symbolic masses; every sequence of three links, unlinks or updates" });
    v.push(Harness { prop: "C13", name: "c13_failed", run: failed, thorough: false, reach: &["failed"], about: "an operation that reports failure changes nothing: the world goes on like one in which it was not tried", bounds: "two moving bodies, one with two colliders, symbolic masses, place, velocity, spin and step; twelve failing operations, with symbolic data of what is refused, before or after the first step" });
    const V: &str = "every field symbolic over a range that holds valid and invalid values; masses also infinite and not a number";
    v.push(Harness { prop: "C14", name: "c14_entity", run: v_entity, thorough: false, reach: &["accepted", "refused"], about: "entities are accepted exactly with a mass that is not negative and read back as given", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_null", run: v_null, thorough: false, reach: &["accepted", "refused"], about: "null colliders", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_sphere", run: v_sphere, thorough: false, reach: &["accepted", "refused"], about: "spheres are accepted exactly above the minimum radius and with a mass that is not negative", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_plane", run: v_plane, thorough: false, reach: &["accepted", "refused"], about: "planes are accepted exactly with a normal and a mass that is not negative; the normal becomes a unit vector of the same direction", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_box", run: v_box, thorough: false, reach: &["accepted", "refused"], about: "boxes are accepted exactly with a size along every axis and a mass that is not negative; the corners are sorted", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_mesh", run: v_mesh, thorough: false, reach: &["accepted", "refused"], about: "meshes are accepted exactly with geometry", bounds: V });
    v.push(Harness { prop: "C14", name: "c14_kind", run: v_kind, thorough: false, reach: &["refused"], about: "a collider is not updated with another kind, nor one that does not exist", bounds: V });
}

fn owner(w: &ColliderWrapper) -> Option<EntityHandle> {
    match w { ColliderWrapper::Null(c) => c.get_entity(), ColliderWrapper::Sphere(c) => c.get_entity(), ColliderWrapper::Plane(c) => c.get_entity(), ColliderWrapper::Mesh(c) => c.get_entity(), ColliderWrapper::AlignedBox(c) => c.get_entity() }
}
struct World { s: PhysicsSystem, e: Vec<(EntityHandle, bool)>, c: Vec<(ColliderHandle, bool, Option<usize>, usize)>, m: F }
impl World {
    fn wrap(&self, kind: usize) -> ColliderWrapper {
        match kind {
            0 => { let mut s = SphereCollider::new(num(0.5)); s.mass = self.m; s.center = v3(0.25, 0.0, 0.5); ColliderWrapper::Sphere(s) }
            1 => { let mut b = AlignedBoxCollider::new(); b.mass = num(2.0); ColliderWrapper::AlignedBox(b) }
            _ => { let mut p = NullCollider::new(); p.position = v3(1.0, 1.0, 0.0); ColliderWrapper::Null(p) }
        }
    }
    fn add_e(&mut self, y: f64) { let mut e = Entity::new(); e.position = v3(0.0, y, 0.0); e.velocity = v3(0.5, 0.0, 0.0); let h = self.s.add_entity(e).unwrap(); self.e.push((h, true)); }
    fn add_c(&mut self, kind: usize) { let w = self.wrap(kind); let h = self.s.add_collider(w).unwrap(); self.c.push((h, true, None, kind)); }
    fn link(&mut self, cx: &mut Cx, c: usize, e: Option<usize>) {
        let ok = self.c[c].1 && e.map(|e| self.e[e].1).unwrap_or(true);
        let r = self.s.link_collider(self.c[c].0, e.map(|e| self.e[e].0));
        cx.check("linking succeeds exactly for existing handles", boolean(r.is_ok() == ok));
        if ok { self.c[c].2 = e; }
    }
    fn drop_c(&mut self, c: usize) { self.s.remove_collider(self.c[c].0); self.c[c].1 = false; self.c[c].2 = None; }
    fn drop_e(&mut self, cx: &mut Cx, e: usize) {
        let r = self.s.remove_entity(self.e[e].0);
        cx.check("removing an entity tells whether it existed", boolean(r == self.e[e].1));
        self.e[e].1 = false;
        for c in self.c.iter_mut() { if c.2 == Some(e) { c.1 = false; c.2 = None; } }
    }
    fn judge(&self, cx: &mut Cx) {
        for (i, &(h, alive)) in self.e.iter().enumerate() {
            match self.s.get_entity(h) {
                None => cx.check("an entity exists until it is removed", boolean(!alive)),
                Some(e) => {
                    cx.check("a removed entity is gone", boolean(alive));
                    let want: BTreeSet<String> = self.c.iter().filter(|c| c.2 == Some(i)).map(|c| format!("{:?}", c.0)).collect();
                    let got: BTreeSet<String> = e.get_colliders().iter().map(|c| format!("{:?}", c)).collect();
                    cx.check("an entity lists exactly the colliders that name it", boolean(want == got));
                }
            }
        }
        for &(h, alive, e, kind) in self.c.iter() {
            match self.s.get_collider(h) {
                None => cx.check("a collider exists until it or its entity is removed", boolean(!alive)),
                Some(w) => {
                    cx.check("a removed collider is gone", boolean(alive));
                    cx.check("a collider names the entity that it was linked to last", boolean(owner(&w) == e.map(|e| self.e[e].0)));
                    let same = match (&w, kind) { (ColliderWrapper::Sphere(_), 0) | (ColliderWrapper::AlignedBox(_), 1) | (ColliderWrapper::Null(_), 2) => true, _ => false };
                    cx.check("a handle keeps standing for the same collider", boolean(same));
                }
            }
        }
    }
}
fn histories(cx: &mut Cx, len: usize, all: bool) {
    let m = cx.real("m", 0.125, 8.0);
    let mut w = World { s: world(2), e: vec![], c: vec![], m };
    w.add_e(0.0);
    w.add_e(20.0);
    for k in 0..3 { w.add_c(k); }
    match cx.int("start", if all { 4 } else { 2 }) {
        0 => { w.link(cx, 0, Some(0)); w.link(cx, 1, Some(0)); }
        1 => { w.link(cx, 0, Some(0)); w.link(cx, 1, Some(1)); w.link(cx, 2, Some(1)); }
        2 => { w.link(cx, 0, Some(0)); w.drop_c(2); }
        _ => { w.link(cx, 0, Some(1)); w.drop_e(cx, 0); }
    }
    w.judge(cx);
    for i in 0..len {
        let (e0, c0) = (w.e.len() - 2, w.c.len() - 3);
        match cx.int(&format!("op{}", i), if all { 20 } else { 13 }) {
            0 => w.link(cx, 0, Some(1)),
            1 => w.link(cx, 0, None),
            2 => w.link(cx, 1, Some(0)),
            3 => w.drop_c(0),
            4 => w.drop_e(cx, 0),
            5 => { w.add_e(40.0); }
            6 => { w.add_c(0); let c = w.c.len() - 1; let e = w.e.len() - 1; w.link(cx, c, Some(e)); }
            7 => { w.s.step(num(0.25)); }
            8 => w.drop_e(cx, 1),
            9 => { let c = w.c.len() - 1; w.link(cx, c, Some(0)); }
            10 => { let e = w.e.len() - 1; w.link(cx, 0, Some(e)); }
            11 => {
                let ok = w.c[0].1;
                let x = w.wrap(0);
                cx.check("updating succeeds exactly for existing handles", boolean(w.s.update_collider(w.c[0].0, x).is_ok() == ok));
                let x = w.wrap(1);
                cx.check("updating with another kind is refused", boolean(w.s.update_collider(w.c[0].0, x).is_err()));
            }
            12 => {
                let ok = w.e[0].1;
                let mut e = Entity::new(); e.position = v3(1.0, 2.0, 3.0); e.own_mass = num(2.0);
                cx.check("updating an entity succeeds exactly for existing handles", boolean(w.s.update_entity(w.e[0].0, e).is_ok() == ok));
                let mut e = Entity::new(); e.own_mass = num(-2.0);
                cx.check("an invalid update is refused", boolean(w.s.update_entity(w.e[0].0, e).is_err()));
            }
            13 => w.link(cx, 1, None),
            14 => w.link(cx, 1, Some(1)),
            15 => w.drop_c(1),
            16 => w.link(cx, 2, Some(0)),
            17 => w.drop_c(2),
            18 => { w.add_c(2); }
            _ => { let r = w.s.add_entity({ let mut e = Entity::new(); e.own_mass = num(-1.0); e }); cx.check("an invalid entity is refused", boolean(r.is_err())); let mut b = SphereCollider::new(num(0.01)); b.mass = one(); cx.check("an invalid collider is refused", boolean(w.s.add_collider(ColliderWrapper::Sphere(b)).is_err())); }
        }
        w.judge(cx);
    }
    cx.reached("judged");
    w.s.step(num(0.25));
    w.judge(cx);
    // everything that is left can be removed
    for e in 0..w.e.len() { w.drop_e(cx, e); }
    for c in 0..w.c.len() { w.drop_c(c); }
    w.judge(cx);
    w.s.step(num(0.25));
}
/// Bodies with the given data; also a handle of a removed entity and one of a removed collider.
fn furnished(m: F, o: F, p: &Vec3, v: &Vec3, w: F) -> (PhysicsSystem, Vec<EntityHandle>, Vec<ColliderHandle>, EntityHandle, ColliderHandle) {
    let mut s = world(2);
    let gone = s.add_entity(Entity::new()).unwrap();
    let lost = s.add_collider(ColliderWrapper::Null(NullCollider::new())).unwrap();
    s.remove_entity(gone);
    s.remove_collider(lost);
    let mut e = Entity::new();
    e.position = *p; e.velocity = *v; e.angular_velocity = Vec3::new(w, zero(), zero()); e.own_mass = o;
    let a = s.add_entity(e).unwrap();
    let mut c = SphereCollider::new(num(0.5)); c.mass = m; c.center = v3(0.0, 1.0, 0.0);
    let c = s.add_collider(ColliderWrapper::Sphere(c)).unwrap();
    let mut d = AlignedBoxCollider::new(); d.mass = num(2.0); d.min_corner = v3(-1.0, -1.0, -1.0); d.max_corner = v3(1.0, 1.0, 1.0);
    let d = s.add_collider(ColliderWrapper::AlignedBox(d)).unwrap();
    s.link_collider(c, Some(a)).unwrap();
    s.link_collider(d, Some(a)).unwrap();
    let mut e = Entity::new();
    e.position = v3(32.0, 0.0, 0.0); e.velocity = v3(0.0, 1.0, 0.0);
    let b = s.add_entity(e).unwrap();
    let mut k = PlaneCollider::new(); k.mass = one(); k.normal = v3(-1.0, 0.0, 0.0);
    let k = s.add_collider(ColliderWrapper::Plane(k)).unwrap();
    s.link_collider(k, Some(b)).unwrap();
    (s, vec![a, b], vec![c, d, k], gone, lost)
}
fn failed(cx: &mut Cx) {
    let (m, o, w) = (cx.real("m", 0.125, 8.0), cx.real("o", 0.0, 4.0), cx.real("w", -2.0, 2.0));
    let (p, v) = (vec(cx, "p", -4.0, 4.0), vec(cx, "v", -2.0, 2.0));
    let dt = cx.real("dt", 0.0625, 1.0);
    let (bad, any) = (cx.real("bad", -4.0, -0.0625), cx.real("any", -4.0, 4.0));
    let (mut s, h, c, _, _) = furnished(m, o, &p, &v, w);
    let (mut z, g, d, gone, lost) = furnished(m, o, &p, &v, w);
    let when = cx.int("when", 2);
    let what = cx.int("what", 12);
    for i in 0..2 {
        if i == when {
            let ok = match what {
                0 => z.link_collider(lost, Some(g[0])).is_ok(),
                1 => z.link_collider(d[0], Some(gone)).is_ok(),
                2 => z.link_collider(lost, None).is_ok(),
                3 => { let mut e = z.get_entity(g[0]).unwrap(); e.own_mass = bad; e.position = Vec3::new(any, any, any); e.velocity = Vec3::new(any, any, any); z.update_entity(g[0], e).is_ok() }
                4 => { let mut e = Entity::new(); e.position = Vec3::new(any, any, any); z.update_entity(gone, e).is_ok() }
                5 => { let mut b = SphereCollider::new(num(0.5)); b.mass = bad; b.center = Vec3::new(any, any, any); z.update_collider(d[0], ColliderWrapper::Sphere(b)).is_ok() }
                6 => { let mut b = SphereCollider::new(num(0.5)); b.radius = bad; b.mass = any * any; z.update_collider(d[0], ColliderWrapper::Sphere(b)).is_ok() }
                7 => { let mut b = AlignedBoxCollider::new(); b.min_corner = Vec3::new(any, any, any); b.max_corner = Vec3::new(any, any + one(), any - one()); z.update_collider(d[1], ColliderWrapper::AlignedBox(b)).is_ok() }
                8 => { let mut b = PlaneCollider::new(); b.normal = Vec3::zeros(); b.position = Vec3::new(any, any, any); b.mass = any * any; z.update_collider(d[2], ColliderWrapper::Plane(b)).is_ok() }
                9 => { let mut b = NullCollider::new(); b.mass = any * any; b.position = Vec3::new(any, any, any); z.update_collider(d[0], ColliderWrapper::Null(b)).is_ok() }
                10 => z.remove_entity(gone),
                _ => { let mut b = PlaneCollider::new(); b.normal = axis(0); b.mass = bad; z.update_collider(d[2], ColliderWrapper::Plane(b)).is_ok() }
            };
            cx.reached("failed");
            cx.check("what cannot be done reports failure", boolean(!ok));
        }
        for (x, y) in c.iter().zip(d.iter()) {
            let (x, y) = (s.get_collider(*x), z.get_collider(*y));
            match (x, y) {
                (Some(ColliderWrapper::Sphere(x)), Some(ColliderWrapper::Sphere(y))) => cx.check("the colliders read back as before", eq(x.mass, y.mass).and(eq(x.radius, y.radius)).and(veq(&x.center, &y.center)).and(boolean(y.get_entity() == Some(g[0])))),
                (Some(ColliderWrapper::AlignedBox(x)), Some(ColliderWrapper::AlignedBox(y))) => cx.check("the colliders read back as before", eq(x.mass, y.mass).and(veq(&x.min_corner, &y.min_corner)).and(veq(&x.max_corner, &y.max_corner)).and(boolean(y.get_entity() == Some(g[0])))),
                (Some(ColliderWrapper::Plane(x)), Some(ColliderWrapper::Plane(y))) => cx.check("the colliders read back as before", eq(x.mass, y.mass).and(veq(&x.position, &y.position)).and(veq(&x.normal, &y.normal)).and(boolean(y.get_entity() == Some(g[1])))),
                _ => cx.check("the colliders are still there", boolean(false)),
            }
        }
        s.step(dt);
        z.step(dt);
        for (x, y) in h.iter().zip(g.iter()) {
            let (x, y) = (ent(&s, *x), ent(&z, *y));
            cx.check("the bodies move as before", veq(&x.position, &y.position).and(veq(&x.rotation, &y.rotation)).and(veq(&x.velocity, &y.velocity)).and(veq(&x.angular_velocity, &y.angular_velocity)));
            cx.check("the masses are as before", eq(x.get_last_total_mass(), y.get_last_total_mass()).and(meq(&x.get_last_moment_of_inertia(), &y.get_last_moment_of_inertia())));
        }
    }
}
fn sleepers(cx: &mut Cx) {
    let m = cx.real("m", 0.125, 8.0);
    let mut s = world(4);
    s.sleep_time_threshold = num(0.25);
    let g = s.add_unary_force_generator(Box::new(GravityGenerator::new(v3(0.0, -1.0, 0.0)))).unwrap();
    let mut below = Ball::new(one(), v3(0.0, -1.0, 0.0), Vec3::zeros());
    below.mass = inf(); below.e = zero();
    let mut wall = Wall::new(Vec3::zeros(), v3(0.0, 1.0, 0.0));
    wall.e = zero();
    let floor = if cx.int("floor", 2) == 0 { wall.put(&mut s) } else { below.put(&mut s) };
    let mut b = Ball::new(num(0.5), v3(0.0, 0.5, 0.0), Vec3::zeros());
    b.mass = m; b.e = zero();
    let ball = b.put(&mut s);
    for _ in 0..4 { s.step(num(0.25)); }
    cx.check("the ball has gone to sleep", boolean(ent(&s, ball).was_asleep()));
    let mut alive = [true, true];
    for i in 0..2 {
        match cx.int(&format!("op{}", i), 7) {
            0 => { cx.check("removal tells whether it existed", boolean(s.remove_entity(floor) == alive[0])); alive[0] = false; }
            1 => { cx.check("removal tells whether it existed", boolean(s.remove_entity(ball) == alive[1])); alive[1] = false; }
            2 => { if alive[1] { let mut e = ent(&s, ball); e.velocity = v3(0.0, 2.0, 0.0); s.update_entity(ball, e).unwrap(); } }
            3 => { if alive[0] { let mut e = ent(&s, floor); e.velocity = v3(0.0, 1.0, 0.0); s.update_entity(floor, e).unwrap(); } }
            4 => { if alive[1] { let c: Vec<_> = ent(&s, ball).get_colliders().into_iter().collect(); for c in c { s.remove_collider(c); } } }
            5 => { if alive[0] { let c: Vec<_> = ent(&s, floor).get_colliders().into_iter().collect(); for c in c { s.link_collider(c, None).unwrap(); } } }
            _ => s.step(num(0.25)),
        }
    }
    s.step(num(0.25));
    s.add_entity(Entity::new()).unwrap();
    s.step(num(0.25));
    cx.check("an entity exists until it is removed", boolean(s.get_entity(floor).is_some() == alive[0] && s.get_entity(ball).is_some() == alive[1]));
    cx.reached("judged");
}

fn any_kind(kind: usize, m: F) -> ColliderWrapper {
    match kind {
        0 => { let mut c = NullCollider::new(); c.mass = m; ColliderWrapper::Null(c) }
        1 => { let mut c = SphereCollider::new(num(0.5)); c.mass = m; ColliderWrapper::Sphere(c) }
        2 => { let mut c = PlaneCollider::new(); c.mass = m; ColliderWrapper::Plane(c) }
        3 => { let mut c = AlignedBoxCollider::new(); c.mass = m; ColliderWrapper::AlignedBox(c) }
        _ => { let mut c = MeshCollider::new(); c.add_face(&vec![Vec3::zeros(), axis(0), axis(1)]); ColliderWrapper::Mesh(c) }
    }
}
/// Two colliders of any kinds, of which one may be a copy of the other one, go from entity to entity.
fn kinds(cx: &mut Cx) {
    let m = cx.real("m", 0.125, 8.0);
    let mut s = world(1);
    let (k1, k2) = (cx.int("kind1", 5), cx.int("kind2", 6));
    let mut e = Entity::new(); e.own_mass = one(); e.velocity = v3(0.5, 0.0, 0.0);
    let early = s.add_entity(e).unwrap();
    let before = ent(&s, early);
    let a = s.add_collider(any_kind(k1, m)).unwrap();
    s.link_collider(a, Some(early)).unwrap();
    // the second collider may be a copy of the linked one, the second entity is one of the entity that it's linked to
    let b = if k2 == 5 { let w = s.get_collider(a).unwrap(); s.add_collider(w).unwrap() } else { s.add_collider(any_kind(k2, m)).unwrap() };
    let late = { let w = ent(&s, early); s.add_entity(w).unwrap() };
    let es = [early, late];
    let mut at = [Some(0), None];
    let weight = |c: usize| { let k = if c == 0 || k2 == 5 { k1 } else { k2 }; if k == 4 { zero() } else { m } };
    for i in 0..4 {
        for c in 0..2 {
            let w = s.get_collider([a, b][c]).unwrap();
            cx.check("a collider names exactly the entity it was linked to last", boolean(owner(&w) == at[c].map(|x: usize| es[x])));
        }
        for x in 0..2 {
            let got = ent(&s, es[x]);
            let want: BTreeSet<String> = (0..2).filter(|&c| at[c] == Some(x)).map(|c| format!("{:?}", [a, b][c])).collect();
            let have: BTreeSet<String> = got.get_colliders().iter().map(|c| format!("{:?}", c)).collect();
            cx.check("an entity lists exactly the colliders that name it", boolean(want == have));
            let mut total = one();
            for c in 0..2 { if at[c] == Some(x) { total = total + weight(c); } }
            cx.check("an entity weighs as much as what is linked to it", eq(got.get_last_total_mass(), total));
        }
        if i == 3 { break; }
        match cx.int(&format!("op{}", i), 5) {
            0 => { let c = cx.int(&format!("which{}", i), 2); s.link_collider([a, b][c], Some(late)).unwrap(); at[c] = Some(1); }
            1 => { s.link_collider(b, Some(early)).unwrap(); at[1] = Some(0); }
            2 => { s.link_collider(a, None).unwrap(); at[0] = None; }
            // what was read back before the link must not bring it back or undo it
            3 => { let mut w = ent(&s, early); if i == 0 { w = before.clone(); } s.update_entity([early, late][cx.int(&format!("whom{}", i), 2)], w).unwrap(); }
            _ => { let (c, o) = [(a, b), (b, a)][cx.int(&format!("from{}", i), 2)]; let w = s.get_collider(o).unwrap(); let _ = s.update_collider(c, w); }
        }
    }
    cx.reached("judged");
}
/// A mass: symbolic, infinite or not a number; and whether it is valid.
fn mass(cx: &mut Cx, name: &str) -> (F, B) {
    match cx.int(&format!("{}.kind", name), 4) {
        0 => { let m = cx.real(name, -2.0, 4.0); (m, ge(m, zero())) }
        1 => (inf(), boolean(true)),
        2 => (F::NAN, boolean(false)),
        _ => (-inf(), boolean(false)),
    }
}
fn same(a: F, b: F) -> B { if a.is_infinite() || b.is_infinite() { boolean(a == b) } else { eq(a, b) } }
/// The outcome of adding and of updating is the same: accepted exactly if `valid`.
fn route(cx: &mut Cx, valid: B, good: ColliderWrapper, make: &dyn Fn() -> ColliderWrapper, read: &dyn Fn(&mut Cx, &ColliderWrapper), read_good: &dyn Fn(&mut Cx, &ColliderWrapper)) {
    let mut s = world(1);
    if cx.int("route", 2) == 0 {
        match s.add_collider(make()) {
            Ok(h) => { cx.reached("accepted"); cx.check("what is added is valid", valid); read(cx, &s.get_collider(h).unwrap()); }
            Err(()) => { cx.reached("refused"); cx.check("what is refused is invalid", valid.not()); }
        }
    } else {
        let h = s.add_collider(good).unwrap();
        let e = s.add_entity(Entity::new()).unwrap();
        s.link_collider(h, Some(e)).unwrap();
        match s.update_collider(h, make()) {
            Ok(()) => { cx.reached("accepted"); cx.check("an accepted update is valid", valid); read(cx, &s.get_collider(h).unwrap()); }
            Err(()) => { cx.reached("refused"); cx.check("a refused update is invalid", valid.not()); read_good(cx, &s.get_collider(h).unwrap()); }
        }
        cx.check("an update keeps the link", boolean(owner(&s.get_collider(h).unwrap()) == Some(e)));
    }
}
fn coefficients(cx: &mut Cx) -> [F; 4] { [cx.real("e", -1.0, 4.0), cx.real("thr", -1.0, 64.0), cx.real("st", -1.0, 4.0), cx.real("dy", -1.0, 4.0)] }
macro_rules! coefs { ($x:expr, $k:expr) => { { $x.restitution_coefficient = $k[0]; $x.friction_threshold = $k[1]; $x.static_friction_coefficient = $k[2]; $x.dynamic_friction_coefficient = $k[3]; } } }
macro_rules! judge_coefs { ($cx:expr, $x:expr, $k:expr) => { $cx.check("the coefficients read back", eq($x.restitution_coefficient, $k[0]).and(eq($x.friction_threshold, $k[1])).and(eq($x.static_friction_coefficient, $k[2])).and(eq($x.dynamic_friction_coefficient, $k[3]))) } }
const PLAIN: [f64; 4] = [1.0, 0.25, 1.0, 0.3];
fn plain() -> [F; 4] { [one(), num(0.25), one(), num(0.3)] }

fn v_null(cx: &mut Cx) {
    let (m, valid) = mass(cx, "mass");
    let p = vec(cx, "p", -4.0, 4.0);
    let i = vec(cx, "i", 0.0, 4.0);
    let make = || { let mut n = NullCollider::new(); n.mass = m; n.position = p; n.moment_of_inertia = Mat3::from_diagonal(&i); ColliderWrapper::Null(n) };
    let mut good = NullCollider::new();
    let had = [num(3.0), zero()][cx.int("had", 2)];
    good.mass = had; good.position = v3(1.0, 2.0, 3.0);
    route(cx, valid, ColliderWrapper::Null(good), &make,
        &|cx, w| if let ColliderWrapper::Null(n) = w { cx.check("everything reads back", same(n.mass, m).and(veq(&n.position, &p)).and(meq(&n.moment_of_inertia, &Mat3::from_diagonal(&i)))); cx.check("its centre of mass is where it is", veq(&n.get_center_of_mass(), &p)); } else { cx.check("the kind reads back", boolean(false)) },
        &|cx, w| if let ColliderWrapper::Null(n) = w { cx.check("a refused update changes nothing", eq(n.mass, had).and(veq(&n.position, &v3(1.0, 2.0, 3.0))).and(meq(&n.moment_of_inertia, &Mat3::zeros()))) } else { cx.check("the kind reads back", boolean(false)) });
}
fn v_sphere(cx: &mut Cx) {
    let (m, ok) = mass(cx, "mass");
    // the minimum itself is too small
    let least = cx.int("least", 2) == 1;
    let r = if least { num(0.05) } else { cx.real("r", -1.0, 2.0) };
    let p = vec(cx, "p", -4.0, 4.0);
    let k = coefficients(cx);
    let valid = if least { boolean(false) } else { ok.and(gt(r, num(0.05))) };
    let make = || { let mut n = SphereCollider::new(r); n.mass = m; n.center = p; coefs!(n, k); ColliderWrapper::Sphere(n) };
    let mut good = SphereCollider::new(num(0.75));
    let had = [num(3.0), zero()][cx.int("had", 2)];
    good.mass = had; good.center = v3(1.0, 2.0, 3.0);
    route(cx, valid, ColliderWrapper::Sphere(good), &make,
        &|cx, w| if let ColliderWrapper::Sphere(n) = w { cx.check("everything reads back", same(n.mass, m).and(veq(&n.center, &p)).and(eq(n.radius, r))); judge_coefs!(cx, n, k); cx.check("its centre of mass is its centre", veq(&n.get_center_of_mass(), &p)); } else { cx.check("the kind reads back", boolean(false)) },
        &|cx, w| if let ColliderWrapper::Sphere(n) = w { cx.check("a refused update changes nothing", eq(n.mass, had).and(veq(&n.center, &v3(1.0, 2.0, 3.0))).and(eq(n.radius, num(0.75)))); judge_coefs!(cx, n, plain()) } else { cx.check("the kind reads back", boolean(false)) });
}
fn v_plane(cx: &mut Cx) {
    let (m, ok) = mass(cx, "mass");
    let f = frame(cx, "n");
    let l = cx.real("length", 0.0, 4.0);
    let p = vec(cx, "p", -4.0, 4.0);
    let k = coefficients(cx);
    let valid = ok.and(gt(l, num(1e-6)));
    let make = || { let mut n = PlaneCollider::new(); n.mass = m; n.position = p; n.normal = mul(&f[0], l); coefs!(n, k); ColliderWrapper::Plane(n) };
    let mut good = PlaneCollider::new();
    let had = [num(3.0), zero()][cx.int("had", 2)];
    good.mass = had; good.position = v3(1.0, 2.0, 3.0);
    route(cx, valid, ColliderWrapper::Plane(good), &make,
        &|cx, w| if let ColliderWrapper::Plane(n) = w { cx.check("everything reads back", same(n.mass, m).and(veq(&n.position, &p))); cx.check("the normal is the unit vector of its direction", veq(&n.normal, &f[0])); judge_coefs!(cx, n, k); cx.check("its centre of mass is its position", veq(&n.get_center_of_mass(), &p)); } else { cx.check("the kind reads back", boolean(false)) },
        &|cx, w| if let ColliderWrapper::Plane(n) = w { cx.check("a refused update changes nothing", eq(n.mass, had).and(veq(&n.position, &v3(1.0, 2.0, 3.0))).and(veq(&n.normal, &v3(0.0, 1.0, 0.0)))); judge_coefs!(cx, n, plain()) } else { cx.check("the kind reads back", boolean(false)) });
}
fn v_box(cx: &mut Cx) {
    let (m, ok) = mass(cx, "mass");
    let p = vec(cx, "p", -4.0, 4.0);
    let a = vec(cx, "a", -4.0, 4.0);
    // far apart along two axes (in either order), anything along the third
    let i = cx.int("axis", 3);
    let x = cx.real("b", -4.0, 4.0);
    let (y, z) = if cx.int("swap", 2) == 0 { (num(1.5), num(-0.75)) } else { (num(-1.25), num(0.5)) };
    let mut b = a;
    b[i] = x; b[(i + 1) % 3] = a[(i + 1) % 3] + y; b[(i + 2) % 3] = a[(i + 2) % 3] + z;
    let size = x - a[i];
    let valid = ok.and(gt(size, num(1e-6)).or(lt(size, num(-1e-6))));
    let mut lo = a;
    let mut hi = b;
    for j in 0..3 { if (b[j] < a[j]) { lo[j] = b[j]; hi[j] = a[j]; } }
    let k = coefficients(cx);
    let make = || { let mut n = AlignedBoxCollider::new(); n.mass = m; n.position = p; n.min_corner = a; n.max_corner = b; coefs!(n, k); ColliderWrapper::AlignedBox(n) };
    let mut good = AlignedBoxCollider::new();
    let had = [num(3.0), zero()][cx.int("had", 2)];
    good.mass = had; good.position = v3(1.0, 2.0, 3.0);
    route(cx, valid, ColliderWrapper::AlignedBox(good), &make,
        &|cx, w| if let ColliderWrapper::AlignedBox(n) = w { cx.check("everything reads back", same(n.mass, m).and(veq(&n.position, &p))); cx.check("the corners read back sorted", veq(&n.min_corner, &lo).and(veq(&n.max_corner, &hi))); judge_coefs!(cx, n, k); cx.check("its centre of mass is its middle", veq(&n.get_center_of_mass(), &add(&p, &mul(&add(&a, &b), num(0.5))))); } else { cx.check("the kind reads back", boolean(false)) },
        &|cx, w| if let ColliderWrapper::AlignedBox(n) = w { cx.check("a refused update changes nothing", eq(n.mass, had).and(veq(&n.position, &v3(1.0, 2.0, 3.0))).and(veq(&n.min_corner, &Vec3::zeros())).and(veq(&n.max_corner, &v3(1.0, 1.0, 1.0)))); judge_coefs!(cx, n, plain()) } else { cx.check("the kind reads back", boolean(false)) });
}
fn v_mesh(cx: &mut Cx) {
    let p = vec(cx, "p", -4.0, 4.0);
    let k = coefficients(cx);
    let faces = cx.int("faces", 3);
    let size = cx.real("size", 0.25, 4.0);
    let make = || {
        let mut n = MeshCollider::new();
        n.position = p;
        coefs!(n, k);
        if faces > 0 { n.add_face(&vec![Vec3::zeros(), mul(&axis(0), size), mul(&axis(1), size)]); }
        if faces > 1 { n.add_face(&vec![Vec3::zeros(), mul(&axis(1), size), mul(&axis(2), size)]); }
        ColliderWrapper::Mesh(n)
    };
    let mut good = MeshCollider::new();
    good.position = v3(1.0, 2.0, 3.0);
    good.add_face(&vec![Vec3::zeros(), axis(0), v3(1.0, 1.0, 0.0), axis(1)]);
    let counts = [(0, 0, 0), (3, 3, 1), (4, 5, 2)][faces];
    route(cx, boolean(faces > 0), ColliderWrapper::Mesh(good), &make,
        &|cx, w| if let ColliderWrapper::Mesh(n) = w { cx.check("everything reads back", veq(&n.position, &p).and(boolean((n.vertex_count(), n.edge_count(), n.face_count()) == counts))); judge_coefs!(cx, n, k); cx.check("its centre of mass is its position", veq(&n.get_center_of_mass(), &p)); } else { cx.check("the kind reads back", boolean(false)) },
        &|cx, w| if let ColliderWrapper::Mesh(n) = w { cx.check("a refused update changes nothing", veq(&n.position, &v3(1.0, 2.0, 3.0)).and(boolean((n.vertex_count(), n.edge_count(), n.face_count()) == (4, 4, 1)))); judge_coefs!(cx, n, plain()) } else { cx.check("the kind reads back", boolean(false)) });
}
fn v_kind(cx: &mut Cx) {
    let mut s = world(1);
    let r = cx.real("r", 0.125, 2.0);
    let make = |k: usize| match k {
        0 => ColliderWrapper::Null(NullCollider::new()), 1 => ColliderWrapper::Sphere(SphereCollider::new(r)), 2 => ColliderWrapper::Plane(PlaneCollider::new()), 3 => ColliderWrapper::AlignedBox(AlignedBoxCollider::new()),
        _ => { let mut m = MeshCollider::new(); m.add_face(&vec![Vec3::zeros(), axis(0), axis(1)]); ColliderWrapper::Mesh(m) }
    };
    let kind = |w: &ColliderWrapper| match w { ColliderWrapper::Null(_) => 0, ColliderWrapper::Sphere(_) => 1, ColliderWrapper::Plane(_) => 2, ColliderWrapper::AlignedBox(_) => 3, ColliderWrapper::Mesh(_) => 4 };
    let (a, b) = (cx.int("a", 5), cx.int("b", 5));
    let h = s.add_collider(make(a)).unwrap();
    cx.check("an update is accepted exactly with the same kind", boolean(s.update_collider(h, make(b)).is_ok() == (a == b)));
    cx.check("the kind stays", boolean(kind(&s.get_collider(h).unwrap()) == a));
    s.remove_collider(h);
    cx.check("what was removed is not updated", boolean(s.update_collider(h, make(a)).is_err()));
    let g = s.add_collider(make(b)).unwrap();
    cx.check("an old handle does not stand for the new collider", boolean(s.update_collider(h, make(b)).is_err() && s.get_collider(h).is_none() && s.get_collider(g).is_some()));
    cx.reached("refused");
}
fn v_entity(cx: &mut Cx) {
    let (m, valid) = mass(cx, "own");
    let (p, v, w) = (vec(cx, "p", -4.0, 4.0), vec(cx, "v", -4.0, 4.0), vec(cx, "w", -4.0, 4.0));
    let k = cx.int("axis", 3);
    let n = frame_of([1, 3, 5][k])[0];
    let turn = mul(&n, cx.real("turn", 0.25, 3.0));
    let fill = |e: &mut Entity| { e.position = p; e.velocity = v; e.angular_velocity = w; e.rotation = turn; e.own_mass = m; };
    let mut s = world(1);
    let read = |cx: &mut Cx, e: &Entity| {
        cx.check("position, velocity and spin read back", veq(&e.position, &p).and(veq(&e.velocity, &v)).and(veq(&e.angular_velocity, &w)));
        cx.check("the rotation reads back", turned_alike(&e.rotation, &turn));
        cx.check("the own mass reads back", same(e.own_mass, m));
        cx.check("the total mass is the own mass", same(e.get_last_total_mass(), m));
        cx.check("it is awake and has no colliders", boolean(!e.was_asleep() && e.get_colliders().is_empty()));
    };
    if cx.int("route", 2) == 0 {
        let mut e = Entity::new();
        fill(&mut e);
        match s.add_entity(e) {
            Ok(h) => { cx.reached("accepted"); cx.check("what is added is valid", valid); read(cx, &ent(&s, h)); }
            Err(()) => { cx.reached("refused"); cx.check("what is refused is invalid", valid.not()); }
        }
    } else {
        let mut e = Entity::new();
        e.position = v3(1.0, 2.0, 3.0); e.own_mass = num(3.0); e.velocity = v3(4.0, 5.0, 6.0);
        let h = s.add_entity(e).unwrap();
        let mut e = ent(&s, h);
        fill(&mut e);
        match s.update_entity(h, e) {
            Ok(()) => { cx.reached("accepted"); cx.check("an accepted update is valid", valid); read(cx, &ent(&s, h)); }
            Err(()) => {
                cx.reached("refused"); cx.check("a refused update is invalid", valid.not());
                let e = ent(&s, h);
                cx.check("a refused update changes nothing", veq(&e.position, &v3(1.0, 2.0, 3.0)).and(veq(&e.velocity, &v3(4.0, 5.0, 6.0))).and(veq(&e.angular_velocity, &Vec3::zeros())).and(veq(&e.rotation, &Vec3::zeros())).and(eq(e.own_mass, num(3.0))).and(eq(e.get_last_total_mass(), num(3.0))));
            }
        }
    }
}
/// Both rotation vectors stand for the same rotation.
fn turned_alike(a: &Vec3, b: &Vec3) -> B {
    let (p, q) = (Quat::from_scaled_axis(*a), Quat::from_scaled_axis(*b));
    let mut r = boolean(true);
    for i in 0..3 { r = r.and(veq(&(p * axis(i)), &(q * axis(i)))); }
    r
}
