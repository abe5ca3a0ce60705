//! Sleepers on which forces act: they lie still until something hits them.
use crate::kit::*;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    const B: &str = "contact at a time in [1/16,3/2] of a step of length 1, approach in [1/4,8], mass of the sleeper in [1/4,4], acceleration in [1/8,2] towards, away, aside or aslant, bodies stop where they meet, another pair that meets before, later or not at all, two turned frames, both orders";
    add!("C05", "c05_asleep", |cx| doze(cx, What::Contact), false, &["hit", "missed"], "a sphere hits a sleeping sphere on which a force acts", B);
    add!("C20", "c20_asleep", |cx| doze(cx, What::Records), false, &["hit", "missed"], "a sphere hits a sleeping sphere on which a force acts: the records", B);
    add!("C22", "c22_asleep", |cx| doze(cx, What::Apart), false, &["hit", "missed"], "a sphere does not pass through a sleeping sphere on which a force acts", B);
    add!("C26", "c26_asleep", |cx| doze(cx, What::Alone), false, &["hit", "missed"], "what becomes of a sleeper that is hit does not depend on others", B);
    add!("C16", "c16_asleep", |cx| doze(cx, What::Motion), false, &["hit", "missed"], "the force on a sleeper that is hit acts from then on", B);
    const C: &str = "what comes does so with [1/64,1], the force on the sleeper gives it more than that right away, contact at a time in [1/16,15/16], from a light or an infinitely heavy sphere or an infinitely heavy plane, masses in [1/4,4], two steps, two turned frames, both orders";
    add!("C22", "c22_creep", |cx| creep(cx), false, &["woken"], "what comes slowly does not pass through a sleeper that a force drives away from it", C);
    add!("C18", "c18_creep", |cx| creep(cx), false, &["woken"], "a sleeper that a force drives away wakes when something comes slowly and touches it", C);
    add!("C02", "c02_creep", |cx| creep(cx), false, &["woken"], "a contact never pulls bodies together", C);
    const R: &str = "the neighbour accelerates away with [1/8,2], another pair that meets before, later or not at all; the hit at a time in [1/16,15/16], speed in [1/4,8], two turned frames";
    add!("C26", "c26_asleep_chain", |cx| beside(cx, true), false, &["woken"], "what becomes of the neighbour of a sleeper that is hit does not depend on others", R);
    add!("C17", "c17_asleep_chain", |cx| beside(cx, false), false, &["woken"], "a sleeper on which a force acts lies still until what it rests against is hit", R);
    add!("C18", "c18_asleep_chain", |cx| beside(cx, false), false, &["woken"], "the neighbour of a sleeper that is hit moves from then on as the force on it has it", R);
    const P: &str = "a sphere slides off the one it touches, which falls asleep, and is sent back in a later step with a speed in [5/16,8], mass of the sleeper in [1/4,64], two turned frames, both orders";
    add!("C05", "c05_parted", |cx| parted(cx), false, &["hit"], "a sphere that left a sleeping sphere comes back", P);
    add!("C18", "c18_parted", |cx| parted(cx), false, &["hit"], "a sleeper is hit by what touched it when it fell asleep but moved on", P);
    add!("C22", "c22_parted", |cx| parted(cx), false, &["hit"], "a sphere that left a sleeping sphere does not pass through it when it comes back", P);
    const L: &str = "an infinitely heavy plane or sphere rises with a speed of [1/64,1], lifts a sphere that falls asleep on it, three steps of length 1/2, mass in [1/4,4], two turned frames, both orders";
    add!("C22", "c22_lift", |cx| lift(cx), false, &["lifted"], "a heavy body does not pass through what sleeps on it", L);
    add!("C18", "c18_lift", |cx| lift(cx), false, &["lifted"], "a sleeper is lifted by the heavy body that it lies on", L);
}
#[derive(Clone, Copy, PartialEq)]
enum What { Contact, Records, Apart, Alone, Motion }

#[derive(Debug)]
struct Pull { f: Vec3, who: EntityHandle }
impl UnaryForceGenerator for Pull {
    fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force { Force::new(if h == self.who { self.f } else { Vec3::zeros() }, p.get_entity(h).unwrap().position) }
}
/// Another pair that meets far away at 1/4 or 3/4.
fn others(s: &mut PhysicsSystem, k: usize) {
    if k == 0 { return; }
    let t = [0.25, 0.75][k - 1];
    Ball::new(num(0.5), v3(50.0, 0.0, 2.0 * -t - 1.0), v3(0.0, 0.0, 2.0)).put(s);
    Ball::new(num(0.5), v3(50.0, 0.0, 0.0), Vec3::zeros()).put(s);
}
/// Puts everything to sleep that is there.
fn night(s: &mut PhysicsSystem) {
    s.energy_sleep_threshold = inf(); s.sleep_time_threshold = zero();
    s.step(num(0.25));
    s.energy_sleep_threshold = -inf();
    s.step(num(0.25));
}
fn doze(cx: &mut Cx, what: What) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let n = f[0];
    let (t, u, m) = (cx.real("t", 0.0625, 1.5), cx.real("speed", 0.25, 8.0), cx.real("m", 0.25, 4.0));
    let a = cx.real("a", 0.125, 2.0);
    let pull = mul(&[mul(&n, num(-1.0)), n, f[1], inframe(&f, num(0.5), num(-1.0), num(0.75))][cx.int("way", 4)], a);
    // it comes faster than what is hit would move away
    let w = u - dot(&pull, &n);
    cx.assume(ge(w, num(0.125)));
    let other = cx.int("other", 3);
    // not both at the same time
    let early = other > 0 && cx.int("late", 2) == 1;
    if other > 0 { let k = num([0.25, 0.75][other - 1]); if early { cx.assume(ge(t, k + num(0.0625))); } else { cx.assume(le(t, k - num(0.0625))); } }
    let first = cx.int("order", 2) == 1;
    let (r1, r2) = (num(0.5), num(0.75));
    let o = v3(0.5, -1.0, 0.25);
    let c2 = add(&o, &mul(&n, r1 + r2));
    let v1 = inframe(&f, u, num(0.5), zero());
    let run = |other: usize| {
        let mut s = world(4);
        let mut b2 = Ball::new(r2, c2, Vec3::zeros()); b2.mass = m; b2.e = num(0.5);
        let b1 = Ball::new(r1, sub(&o, &mul(&v1, t)), v1);
        // for the other order something else is asleep first and makes room
        let room = if first { Some(Ball::new(r1, v3(0.0, -90.0, 0.0), Vec3::zeros()).put(&mut s)) } else { None };
        let h = b2.put(&mut s);
        night(&mut s);
        if let Some(x) = room { s.remove_entity(x); }
        let g = b1.put(&mut s);
        others(&mut s, other);
        s.add_unary_force_generator(Box::new(Pull { f: mul(&pull, m), who: h })).unwrap();
        // everything stops where the two meet
        s.iteration_max = if other > 0 && early { 2 } else { 1 };
        let slept = ent(&s, h).was_asleep();
        s.step(one());
        (s, h, g, slept)
    };
    let (s, h, g, slept) = run(other);
    cx.check("it was asleep", boolean(slept));
    let (x2, x1) = (ent(&s, h), ent(&s, g));
    let due = t < one();
    let count = s.collision_records.len();
    if what == What::Apart {
        let d = sub(&x1.position, &x2.position);
        cx.check("they do not overlap at the end", ge(n2(&d), sq(r1 + r2 - frac(1, 1024))));
        cx.reached(if due { "hit" } else { "missed" });
        return;
    }
    if what == What::Alone {
        let (w, k, l, _) = run(0);
        cx.reached(if due { "hit" } else { "missed" });
        for (a, b) in [(h, k), (g, l)] {
            let (a, b) = (ent(&s, a), ent(&w, b));
            cx.check("the same place", veq(&a.position, &b.position));
            cx.check("the same velocity", veq(&a.velocity, &b.velocity));
            cx.check("as much asleep", boolean(a.was_asleep() == b.was_asleep()));
        }
        return;
    }
    let expected = early as usize + due as usize;
    cx.check("as many records as collisions", boolean(count == expected));
    if count != expected { return; }
    if !due {
        cx.check("it sleeps on", boolean(x2.was_asleep()));
        cx.check("the sleeper lies still", veq(&x2.position, &c2).and(veq(&x2.velocity, &Vec3::zeros())));
        cx.check("the other one moves freely", veq(&x1.position, &add(&o, &mul(&v1, one() - t))));
        cx.reached("missed");
        return;
    }
    cx.reached("hit");
    let i = if count > 1 && rec(&s, 0).first_entity != h && rec(&s, 0).second_entity != h { 1 } else { 0 };
    let r = rec(&s, i);
    let forth = r.first_entity == g;
    if what == What::Contact || what == What::Records {
        cx.check("the record names the two that meet", boolean(forth && r.second_entity == h || r.first_entity == h && r.second_entity == g));
        cx.check("the record has the time of the contact", eq(r.time, t));
        cx.check("the record has the place of the contact", veq(&r.position, &add(&o, &mul(&n, r1))));
        cx.check("the normal points off the first", veq(&r.normal, &mul(&n, if forth { one() } else { num(-1.0) })));
        if what == What::Records { for k in 1..count { cx.check("the records are in order", le(rec(&s, k - 1).time, rec(&s, k).time)); } }
    }
    if what == What::Motion || what == What::Records {
        let j = num(1.5) * w / (one() + one() / m);
        let (v1, v2) = (sub(&v1, &mul(&n, j)), add(&pull, &mul(&n, j / m)));
        cx.check("velocities after the collision", veq(&x1.velocity, &v1).and(veq(&x2.velocity, &v2)));
        cx.check("they are where they met", veq(&x1.position, &o).and(veq(&x2.position, &c2)));
    }
}
fn beside(cx: &mut Cx, alone: bool) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let n = f[0];
    let (t, u) = (cx.real("t", 0.0625, 0.9375), cx.real("speed", 0.25, 8.0));
    let a = cx.real("a", 0.125, 2.0);
    let other = cx.int("other", 3);
    if other > 0 { let k = num([0.25, 0.75][other - 1]); if cx.int("late", 2) == 1 { cx.assume(ge(t, k + num(0.0625))); } else { cx.assume(le(t, k - num(0.0625))); } }
    let r = num(0.5);
    let o = v3(0.5, -1.0, 0.25);
    let (c1, c2) = (add(&o, &n), add(&add(&o, &n), &f[1]));
    let pull = mul(&f[1], a);
    let run = |other: usize| {
        let mut s = world(1);
        let mut b1 = Ball::new(r, c1, Vec3::zeros()); b1.e = one();
        let mut b2 = Ball::new(r, add(&c2, &mul(&f[1], num(0.25))), mul(&f[1], num(-2.0))); b2.e = zero();
        let (h, k) = (b1.put(&mut s), b2.put(&mut s));
        night(&mut s);
        s.iteration_max = 4;
        let v = mul(&n, u);
        let mut b = Ball::new(r, sub(&o, &mul(&v, t)), v); b.e = one();
        let g = b.put(&mut s);
        others(&mut s, other);
        s.add_unary_force_generator(Box::new(Pull { f: pull, who: k })).unwrap();
        let slept = ent(&s, h).was_asleep() && ent(&s, k).was_asleep();
        s.step(one());
        (s, h, k, g, slept)
    };
    let (s, h, k, g, slept) = run(other);
    cx.check("both were asleep", boolean(slept));
    cx.check("as many records as collisions", boolean(s.collision_records.len() == 1 + (other > 0) as usize));
    if s.collision_records.len() != 1 + (other > 0) as usize { return; }
    cx.reached("woken");
    if alone {
        let (w, p, q, o, _) = run(0);
        for (a, b) in [(h, p), (k, q), (g, o)] {
            let (a, b) = (ent(&s, a), ent(&w, b));
            cx.check("the same place", veq(&a.position, &b.position));
            cx.check("the same velocity", veq(&a.velocity, &b.velocity));
        }
        return;
    }
    let x = ent(&s, k);
    cx.check("the neighbour wakes", boolean(!x.was_asleep()));
    cx.check("it has the velocity that the force gives it", veq(&x.velocity, &pull));
    cx.check("it lies still until then", veq(&x.position, &add(&c2, &mul(&pull, one() - t))));
}
/// One sphere falls asleep against another one that slides on and comes back.
fn parted(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let m = cx.real("m", 0.25, 64.0);
    let speed = cx.real("speed", 0.3125, 8.0);
    let r = num(0.5);
    let (k, side) = (num(0.125), num(1.5));
    let v = inframe(&f, k, side, zero());
    let o = v3(0.5, -1.0, 0.25);
    let mut a = Ball::new(r, add(&o, &f[0]), Vec3::zeros());
    let mut b = Ball::new(r, sub(&o, &mul(&v, num(0.5))), v);
    a.mass = m; a.e = zero(); b.e = zero();
    let mut s = world(1);
    s.iteration_max = 3;
    s.energy_sleep_threshold = num(0.5); s.sleep_time_threshold = zero();
    let (ha, hb) = if cx.int("order", 2) == 0 { let x = a.put(&mut s); (x, b.put(&mut s)) } else { let x = b.put(&mut s); (a.put(&mut s), x) };
    s.step(one());
    cx.check("one sleeps, the other moves on", boolean(ent(&s, ha).was_asleep() && !ent(&s, hb).was_asleep() && s.collision_records.len() == 1));
    s.energy_sleep_threshold = -inf();
    let (x, y) = (ent(&s, ha), ent(&s, hb));
    // it comes back along the line of the centres
    let n = inframe(&f, frac(4, 5), frac(-3, 5), zero());
    cx.check("it has slid off at the side", veq(&sub(&x.position, &y.position), &mul(&n, num(1.25))));
    let (w, t) = (mul(&n, speed), num(0.25) / speed);
    // the force that gives it this velocity
    s.add_unary_force_generator(Box::new(Pull { f: sub(&w, &y.velocity), who: hb })).unwrap();
    s.iteration_max = 1;
    let start = y.position;
    s.step(one());
    cx.reached("hit");
    cx.check("the two collide", boolean(s.collision_records.len() == 1));
    if s.collision_records.len() != 1 { return; }
    let (p, q) = (ent(&s, ha), ent(&s, hb));
    cx.check("the record has the time of the contact", eq(rec(&s, 0).time, t));
    cx.check("the sleeper wakes", boolean(!p.was_asleep()));
    cx.check("the sleeper lay still", veq(&p.position, &x.position));
    cx.check("the other one gets as far as the contact", veq(&q.position, &add(&start, &mul(&w, t))));
    cx.check("they do not overlap", ge(n2(&sub(&p.position, &q.position)), num(0.99)));
}
/// Something comes to a sleeper more slowly than the force on it would drive it away.
fn creep(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let n = f[0];
    let (t, u, m) = (cx.real("t", 0.0625, 0.9375), cx.real("speed", 0.015625, 1.0), cx.real("m", 0.25, 4.0));
    let a = u + cx.real("more", 0.015625, 2.0);
    let kind = cx.int("kind", 3);
    let first = cx.int("order", 2) == 1;
    let (r1, r2) = (num(0.5), num(0.75));
    let o = v3(0.5, -1.0, 0.25);
    let v1 = mul(&n, u);
    let mut s = world(4);
    let room = if first { Some(Ball::new(r1, v3(0.0, -90.0, 0.0), Vec3::zeros()).put(&mut s)) } else { None };
    let mut b = Ball::new(r2, add(&o, &mul(&n, r1 + r2)), Vec3::zeros()); b.mass = m;
    let h = b.put(&mut s);
    night(&mut s);
    if let Some(x) = room { s.remove_entity(x); }
    let start = sub(&o, &mul(&v1, t));
    let g = if kind == 2 {
        let mut e = Entity::new(); e.position = add(&start, &mul(&n, r1)); e.velocity = v1;
        let g = s.add_entity(e).unwrap();
        let mut c = PlaneCollider::new(); c.normal = n; c.mass = inf();
        let c = s.add_collider(ColliderWrapper::Plane(c)).unwrap();
        s.link_collider(c, Some(g)).unwrap();
        g
    } else {
        let mut b = Ball::new(r1, start, v1);
        b.mass = if kind == 1 { inf() } else { num(2.0) };
        b.put(&mut s)
    };
    s.add_unary_force_generator(Box::new(Pull { f: mul(&n, a * m), who: h })).unwrap();
    for _ in 0..2 {
        s.step(one());
        let (p, q) = (ent(&s, h), ent(&s, g));
        cx.check("the sleeper wakes", boolean(!p.was_asleep()));
        cx.check("what comes is neither pulled nor turned", le_tol(dot(&q.velocity, &n), u, 0.001).and(veq(&sub(&q.velocity, &mul(&n, dot(&q.velocity, &n))), &Vec3::zeros())));
        cx.check("they do not approach any more", ge(dot(&p.velocity, &n), dot(&q.velocity, &n) - frac(1, 1024)));
        cx.check("they do not overlap", ge(dot(&sub(&p.position, &q.position), &n), (if kind == 2 { r2 } else { r1 + r2 }) - frac(1, 1024)));
    }
    cx.reached("woken");
}
/// A sphere falls asleep on something infinitely heavy that moves.
fn lift(cx: &mut Cx) {
    let f = frame_of([0, 5][cx.int("n", 2)]);
    let n = f[0];
    let k = cx.real("rise", 0.015625, 1.0);
    let m = cx.real("m", 0.25, 4.0);
    let v = mul(&n, k);
    let o = v3(0.5, -1.0, 0.25);
    let r = num(0.5);
    let mut s = world(1);
    s.iteration_max = 4;
    s.energy_sleep_threshold = num(4.0); s.sleep_time_threshold = zero();
    let flat = cx.int("flat", 2) == 1;
    let swap = cx.int("order", 2) == 1;
    // what rises reaches the sphere after a quarter
    let at = sub(&o, &mul(&v, num(0.25)));
    let floor = |s: &mut PhysicsSystem| {
        let mut e = Entity::new(); e.position = at; e.velocity = v;
        let h = s.add_entity(e).unwrap();
        let c = if flat { let mut c = PlaneCollider::new(); c.normal = n; c.mass = inf(); c.restitution_coefficient = zero(); ColliderWrapper::Plane(c) }
            else { let mut c = SphereCollider::new(one()); c.center = mul(&n, num(-1.0)); c.mass = inf(); c.restitution_coefficient = zero(); ColliderWrapper::Sphere(c) };
        let c = s.add_collider(c).unwrap();
        s.link_collider(c, Some(h)).unwrap();
        h
    };
    let mut b = Ball::new(r, add(&o, &mul(&n, r)), Vec3::zeros()); b.e = zero(); b.mass = m;
    let (hf, hb) = if swap { let x = b.put(&mut s); (floor(&mut s), x) } else { let x = floor(&mut s); (x, b.put(&mut s)) };
    s.step(num(0.5));
    cx.check("the sphere falls asleep on it", boolean(ent(&s, hb).was_asleep() && s.collision_records.len() == 1));
    let gap = sub(&ent(&s, hb).position, &ent(&s, hf).position);
    for _ in 0..2 {
        s.step(num(0.5));
        let (p, q) = (ent(&s, hb), ent(&s, hf));
        let d = sub(&p.position, &q.position);
        cx.check("the heavy body goes on rising", veq(&q.velocity, &v));
        cx.check("the sphere stays above it", ge(dot(&d, &n), dot(&gap, &n) - frac(1, 1024)));
    }
    cx.reached("lifted");
}
