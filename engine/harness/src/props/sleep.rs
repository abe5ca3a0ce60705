//! Falling asleep (C17) and waking up (C18).
use crate::kit::*;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    const T: &str = "energy threshold in [1/8,1], time threshold in [0,3/2], steps of length in [1/8,1], masses in [1/16,4] (and with them the energies) that may change before each step";
    add!("C17", "c17_timer", |cx| timer(cx, 3), false, &["slept", "stayed awake"], "every way in which the energy may rise and sink over three steps", T);
    add!("C17", "c17_timer4", |cx| timer(cx, 4), false, &["slept", "stayed awake"], "every way in which the energy may rise and sink over four steps", T);
    add!("C17", "c17_timer5", |cx| timer(cx, 5), true, &["slept", "stayed awake"], "every way in which the energy may rise and sink over five steps", T);
    add!("C17", "c17_copied", copied, false, &["copied"], "what is added as a copy of a sleeper is awake and moves", "mass in [1/4,4], velocity in [-2,2]");
    add!("C17", "c17_spin", spin, false, &["slept", "stayed awake"], "the energy of the spin counts, about the centre of mass", "mass and moment of inertia in [1/16,4], energy threshold in [1/8,4], one or two steps");
    add!("C17", "c17_still", still, false, &["judged"], "a sleeper does not move, whatever forces act", "forces in [-4,4]^3, three steps of length in [1/8,1], any of four kinds of bodies");
    add!("C17", "c17_heavy", heavy, false, &["slept", "stayed awake"], "an infinite mass falls asleep only at rest", "velocity or spin in [1/64,4] along one of three axes or none");
    add!("C17", "c17_rest", rest, false, &["slept", "stayed awake"], "a ball that gravity holds on a plane falls asleep there, in time", "gravity in [1/4,4], mass in [1/8,8], four steps of length in [1/8,1], time threshold in [1/8,2], restitution 0");
    const W: &str = "a row of four touching balls that fell asleep together and one alone, every ball disturbed; changes of at least 1/256 along any axis";
    add!("C18", "c18_update", update, false, &["woken", "left alone"], "a changed pose, velocity, spin or mass wakes the whole row and nothing else; an update that changes nothing wakes nothing", W);
    add!("C18", "c18_late", late, false, &["woken"], "bodies that touch but fall asleep one after the other wake together", "which of two touching balls sleeps first, which one is disturbed and how; masses in [1/4,4], changes of at least 1/256 along any axis");
    add!("C18", "c18_late_star", late_star, false, &["woken"], "bodies asleep against one that falls asleep a step later wake with it, and it with them", "two or three balls around a spinning one, masses in [1/4,4], speeds in [1/4,2], which one is removed or given a velocity of at least 1/256 along any axis");
    add!("C18", "c18_turned_far", turned_far, false, &["left alone", "woken"], "a sleeper that has turned by more or less than half a turn: an update with its own copy, or with the turn it was given, is no change; turning it back is one", "turn in [1/4,3] or [13/4,6] about an axis of three frames, given or gained by a spin over a step of 1, 1/2 or 1/4");
    add!("C18", "c18_remove", remove, false, &["woken"], "removing one wakes all that rested on it, through chains", W);
    add!("C18", "c18_hit", |cx| hit(cx, false), false, &["woken", "missed"], "a ball that hits one of the row wakes the row; one that comes too late wakes nothing", "hit at a time in [1/16,3/2] of a step of length 1 with a speed in [1/4,8]");
    add!("C18", "c18_hit_heavy", |cx| hit(cx, true), false, &["woken", "missed"], "the same for a moving body of infinite mass", "hit at a time in [1/16,3/2] of a step of length 1 with a speed in [1/4,8]");
    add!("C18", "c18_floor", floor, false, &["woken"], "balls asleep on an infinite floor do not wake each other through it; they collide with it again once awake", "ball masses in [1/8,8], velocities in [1/4,4], three disturbances");
    add!("C18", "c18_floor_gone", floor_gone, false, &["woken"], "moving or removing the floor wakes what lies on it", "changes of at least 1/256, gravity in [1/4,4]");
    add!("C18", "c18_again", again, false, &["judged"], "rows that wake fall asleep again and wake again", "disturbed ball, kind of disturbance; velocities in [1/4,4]");
}

fn asleep(s: &PhysicsSystem, h: EntityHandle) -> bool { ent(s, h).was_asleep() }
/// Along a unit vector, so that half the mass is the energy.
fn pace() -> Vec3 { Vec3::new(frac(2, 3), frac(-1, 3), frac(2, 3)) }

fn timer(cx: &mut Cx, steps: usize) {
    let mut s = world(2);
    let (limit, wait) = (cx.real("energy", 0.125, 1.0), cx.real("wait", 0.0, 1.5));
    s.energy_sleep_threshold = limit;
    s.sleep_time_threshold = wait;
    let mut m = cx.real("m", 0.0625, 4.0);
    let mut e = Entity::new();
    e.position = v3(1.0, 2.0, 3.0); e.velocity = pace(); e.own_mass = m;
    let h = s.add_entity(e).unwrap();
    // how long the energy has been low at the ends of steps, if it has; whether it woke up in the meantime
    let mut low: Option<F> = None;
    let (mut sleeps, mut woken) = (false, false);
    for i in 0..steps {
        let dt = cx.real(&format!("dt{}", i), 0.125, 1.0);
        if i > 0 && cx.int(&format!("change{}", i), 2) == 1 {
            let old = m;
            m = cx.real(&format!("m{}", i), 0.0625, 4.0);
            let mut e = ent(&s, h);
            e.own_mass = m; e.velocity = pace();
            cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
            if sleeps {
                sleeps = asleep(&s, h);
                woken = !sleeps;
                if sleeps { cx.check("a changed mass wakes", eq(m, old)); }
            }
        }
        let before = ent(&s, h);
        s.step(dt);
        let e = ent(&s, h);
        if sleeps {
            cx.check("a sleeper that is left alone sleeps on", boolean(e.was_asleep()));
            cx.check("a sleeper does not move", veq(&e.position, &before.position));
            cx.check("a sleeper has no velocity", veq(&e.velocity, &Vec3::zeros()));
            cx.reached("slept");
            continue;
        }
        cx.check("who is awake moves", veq(&e.position, &add(&before.position, &mul(&pace(), dt))));
        if (m * num(0.5) > limit) {
            cx.check("nobody falls asleep above the energy threshold", boolean(!e.was_asleep()));
            cx.reached("stayed awake");
            low = None;
            woken = false;
            continue;
        }
        let so_far = match low { Some(x) => x + dt, None => zero() };
        low = Some(so_far);
        if e.was_asleep() { cx.check("nobody falls asleep before the time", ge(so_far, wait)); sleeps = true; cx.check("who falls asleep stands still", veq(&e.velocity, &Vec3::zeros()).and(veq(&e.angular_velocity, &Vec3::zeros()))); cx.reached("slept"); }
        else if !woken { cx.check("who is slow for long enough falls asleep", lt(so_far, wait)); cx.reached("stayed awake"); }
    }
}
fn spin(cx: &mut Cx) {
    let mut s = world(2);
    let limit = cx.real("energy", 0.125, 4.0);
    s.energy_sleep_threshold = limit;
    s.sleep_time_threshold = zero();
    let (m, i) = (cx.real("m", 0.0625, 4.0), cx.real("i", 0.0625, 4.0));
    let j = cx.real("j", 0.0625, 4.0);
    let k = cx.int("axis", 3);
    let slide = cx.int("slide", 2) == 1;
    let mut e = Entity::new();
    e.rotation = mul(&axis((k + 1) % 3), num(0.75));
    if slide { e.velocity = pace(); }
    e.angular_velocity = mul(&axis(k), num(0.5));
    let h = s.add_entity(e).unwrap();
    let mut b = NullCollider::new();
    b.mass = m; b.position = v3(1.0, 0.5, -1.0); 
    // about the axis next to that of the spin the moment is another one
    let mut d = Vec3::new(i, i, i);
    d[(k + 2) % 3] = j;
    b.moment_of_inertia = Mat3::from_diagonal(&d);
    let c = s.add_collider(ColliderWrapper::Null(b)).unwrap();
    s.link_collider(c, Some(h)).unwrap();
    // seen from the turned body, the spin is between those axes
    let (sn, cn) = (num(0.375)).sin_cos();
    let u = turned(&axis(k), &axis((k + 1) % 3), -sn, cn);
    let e = (i * (u[k] * u[k]) + j * (u[(k + 2) % 3] * u[(k + 2) % 3])) * num(0.125) + if slide { m * num(0.5) } else { zero() };
    s.step(num(0.5));
    if asleep(&s, h) { cx.reached("slept"); cx.check("only slow entities fall asleep", le(e, limit)); } else { cx.reached("stayed awake"); cx.check("slow entities fall asleep", gt(e, limit)); }
    let (p, o) = (ent(&s, h).position, ent(&s, h).rotation);
    if asleep(&s, h) {
        s.step(num(0.5));
        cx.check("a sleeper does not move", veq(&ent(&s, h).position, &p).and(veq(&ent(&s, h).rotation, &o)));
        cx.check("a sleeper has no velocity", veq(&ent(&s, h).velocity, &Vec3::zeros()).and(veq(&ent(&s, h).angular_velocity, &Vec3::zeros())));
    }
}
/// What is added as a copy of a sleeper is awake.
fn copied(cx: &mut Cx) {
    let mut s = world(1);
    let m = cx.real("m", 0.25, 4.0);
    let mut b = Ball::new(num(0.5), v3(0.5, -1.0, 0.25), Vec3::zeros()); b.mass = m;
    let h = b.put(&mut s);
    s.energy_sleep_threshold = inf(); s.sleep_time_threshold = zero();
    s.step(num(0.25));
    s.energy_sleep_threshold = -inf();
    s.step(num(0.25));
    cx.check("it fell asleep", boolean(asleep(&s, h)));
    let mut e = ent(&s, h);
    e.velocity = vec(cx, "v", -2.0, 2.0);
    e.position = v3(30.0, 0.0, 0.0);
    let g = s.add_entity(e.clone()).unwrap();
    cx.check("what was just added is awake", boolean(!asleep(&s, g)));
    s.step(num(0.5));
    cx.check("it moves", veq(&ent(&s, g).position, &add(&e.position, &mul(&e.velocity, num(0.5)))));
    cx.check("the sleeper lies still", boolean(asleep(&s, h)).and(veq(&ent(&s, h).position, &v3(0.5, -1.0, 0.25))));
    // how long the sleeper was slow doesn't count for the copy
    s.energy_sleep_threshold = inf(); s.sleep_time_threshold = num(0.375);
    s.step(num(0.25));
    cx.check("it was not slow for long enough", boolean(!asleep(&s, g)));
    cx.reached("copied");
}
#[derive(Debug)]
struct Wind(Vec3, Vec3);
impl UnaryForceGenerator for Wind { fn make_force(&mut self, _dt: F, _p: &PhysicsSystem, _h: EntityHandle) -> Force { Force::new(self.0, self.1) } }
fn still(cx: &mut Cx) {
    let mut s = world(3);
    s.energy_sleep_threshold = inf();
    s.sleep_time_threshold = zero();
    let f = vec(cx, "f", -4.0, 4.0);
    s.add_unary_force_generator(Box::new(Wind(f, v3(1.0, 1.0, 0.0)))).unwrap();
    let mut e = Entity::new();
    e.position = v3(0.5, 0.0, -1.0); e.rotation = v3(0.0, 0.0, 0.75); e.own_mass = one();
    let h = s.add_entity(e).unwrap();
    let kind = cx.int("kind", 4);
    let w = match kind {
        1 => { let mut b = SphereCollider::new(num(0.5)); b.center = v3(1.0, 0.5, 0.0); Some(ColliderWrapper::Sphere(b)) }
        2 => { let mut b = AlignedBoxCollider::new(); b.mass = num(2.0); b.position = v3(1.0, 0.5, 0.0); Some(ColliderWrapper::AlignedBox(b)) }
        3 => { let mut m = MeshCollider::new(); m.add_face(&vec![v3(0.0, 0.0, 0.0), v3(1.0, 0.0, 0.0), v3(0.0, 1.0, 0.0)]); Some(ColliderWrapper::Mesh(m)) }
        _ => None,
    };
    if let Some(w) = w { let c = s.add_collider(w).unwrap(); s.link_collider(c, Some(h)).unwrap(); }
    // falls asleep at the end of a first step whose movement is not followed
    s.step(num(1e-5));
    cx.check("it falls asleep", boolean(asleep(&s, h)));
    let a = ent(&s, h);
    for i in 0..3 {
        let dt = cx.real(&format!("dt{}", i), 0.125, 1.0);
        s.step(dt);
        let b = ent(&s, h);
        cx.check("a sleeper sleeps on", boolean(b.was_asleep()));
        cx.check("a sleeper does not move", veq(&b.position, &a.position));
        for j in 0..3 { cx.check("a sleeper does not turn", veq(&b.get_last_orientation().direction_into_world(&axis(j)), &a.get_last_orientation().direction_into_world(&axis(j)))); }
        cx.check("a sleeper has no velocity", veq(&b.velocity, &Vec3::zeros()).and(veq(&b.angular_velocity, &Vec3::zeros())));
    }
    cx.reached("judged");
}
fn heavy(cx: &mut Cx) {
    let mut s = world(2);
    s.sleep_time_threshold = zero();
    let k = cx.int("axis", 3);
    let v = cx.real("v", 0.015625, 4.0);
    let mut e = Entity::new();
    let moving = match cx.int("motion", 3) { 1 => { e.velocity = mul(&axis(k), v); true } 2 => { e.angular_velocity = mul(&axis(k), v * num(0.5)); true } _ => false };
    let linked = cx.int("linked", 2) == 1;
    if !linked { e.own_mass = inf(); }
    let h = s.add_entity(e).unwrap();
    if linked {
        let c = s.add_collider(ColliderWrapper::Plane({ let mut p = PlaneCollider::new(); p.mass = inf(); p })).unwrap();
        s.link_collider(c, Some(h)).unwrap();
    }
    s.step(num(0.5));
    if moving { cx.reached("stayed awake"); } else { cx.reached("slept"); }
    cx.check("an infinite mass falls asleep exactly at rest", boolean(asleep(&s, h) != moving));
    s.step(num(0.5));
    cx.check("an infinite mass stays so", boolean(asleep(&s, h) != moving));
    cx.check("it moves by its velocity", veq(&ent(&s, h).position, &ent(&s, h).velocity));
}
fn rest(cx: &mut Cx) {
    let mut s = world(3);
    let wait = cx.real("wait", 0.125, 2.0);
    s.sleep_time_threshold = wait;
    let g = cx.real("g", 0.25, 4.0);
    s.add_unary_force_generator(Box::new(GravityGenerator::new(Vec3::new(zero(), -g, zero())))).unwrap();
    let wall = Wall::new(Vec3::zeros(), v3(0.0, 1.0, 0.0)).put(&mut s);
    let mut b = Ball::new(num(0.5), v3(0.25, 0.5, -1.0), Vec3::zeros());
    b.e = zero(); b.mass = cx.real("m", 0.125, 8.0); b.thr = one(); b.st = num(0.5); b.dy = num(0.5);
    let b = b.put(&mut s);
    let mut low: Option<F> = None;
    let mut sleeps = false;
    for i in 0..4 {
        let dt = cx.real(&format!("dt{}", i), 0.125, 1.0);
        s.step(dt);
        let e = ent(&s, b);
        cx.check("it stays in place", veq(&e.position, &v3(0.25, 0.5, -1.0)));
        cx.check("it comes to rest", veq(&e.velocity, &Vec3::zeros()));
        if sleeps { cx.check("it sleeps on", boolean(e.was_asleep())); cx.check("the floor is not hit by sleepers", boolean(s.collision_records.is_empty())); continue; }
        let so_far = match low { Some(x) => x + dt, None => zero() };
        low = Some(so_far);
        if e.was_asleep() { cx.reached("slept"); cx.check("not before the time", ge(so_far, wait)); sleeps = true; }
        else { cx.reached("stayed awake"); cx.check("in time", lt(so_far, wait)); }
    }
    cx.check("the plane stays in place", veq(&ent(&s, wall).position, &Vec3::zeros()));
}

/// Four balls that touch in a row that bends (each meets the next along another axis) and one alone, all asleep. From then on nothing falls asleep.
fn row(cx: &mut Cx, m: F) -> (PhysicsSystem, Vec<EntityHandle>, EntityHandle) {
    let mut s = world(3);
    s.energy_sleep_threshold = inf();
    s.sleep_time_threshold = zero();
    let mut hs = vec![];
    let places = [v3(0.0, 0.0, 0.0), v3(1.0, 0.0, 0.0), v3(1.0, 1.0, 0.0), v3(1.0, 1.0, 1.0)];
    for i in 0..4 {
        let v = match i { 0 => axis(0), 1 => Vec3::zeros(), _ => mul(&axis(i - 1), num(-1.0)) };
        let mut b = Ball::new(num(0.5), sub(&places[i], &mul(&v, num(0.25))), v);
        b.e = zero(); b.mass = if i == 2 { m } else { one() };
        hs.push(b.put(&mut s));
    }
    let alone = Ball::new(num(0.5), v3(0.0, 50.0, 0.0), Vec3::zeros()).put(&mut s);
    s.step(one());
    cx.check("all fall asleep", boolean(hs.iter().all(|&h| asleep(&s, h)) && asleep(&s, alone) && s.collision_records.len() == 3));
    s.energy_sleep_threshold = -inf();
    s.step(num(0.25));
    cx.check("they rest", boolean(hs.iter().all(|&h| asleep(&s, h)) && s.collision_records.is_empty()));
    for (&h, p) in hs.iter().zip(&places) { cx.check("they rest where they met", veq(&ent(&s, h).position, p)); }
    (s, hs, alone)
}
/// Changes one thing about an entity.
fn change(cx: &mut Cx, s: &mut PhysicsSystem, h: EntityHandle, kind: usize, axis_name: &str) {
    let mut e = ent(s, h);
    let k = cx.int(axis_name, 3);
    let mut d = cx.real("change", 0.00390625, 1.0);
    if cx.int("sign", 2) == 1 { d = -d; }
    match kind {
        0 => { e.position[k] = e.position[k] + d; }
        1 => { e.velocity[k] = e.velocity[k] + d; }
        2 => { e.angular_velocity[k] = e.angular_velocity[k] + d; }
        3 => { e.rotation[k] = e.rotation[k] + d; }
        _ => { e.own_mass = e.own_mass + if f64_of(d) < 0.0 { -d } else { d }; }
    }
    cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
}
fn update(cx: &mut Cx) {
    let m = cx.real("m", 0.25, 4.0);
    let (mut s, hs, alone) = row(cx, m);
    let at = cx.int("at", 5);
    let h = if at == 4 { alone } else { hs[at] };
    // first without a change
    let e = ent(&s, h);
    cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
    cx.check("an update without a change wakes nobody", boolean(hs.iter().all(|&h| asleep(&s, h)) && asleep(&s, alone)));
    cx.reached("left alone");
    let kind = cx.int("kind", 5);
    change(cx, &mut s, h, kind, "axis");
    cx.check("an update with a change wakes", boolean(!asleep(&s, h)));
    let want = at != 4;
    cx.check("the row wakes together", boolean(hs.iter().all(|&h| asleep(&s, h) != want)));
    cx.check("others sleep on", boolean(asleep(&s, alone) == want));
    cx.reached("woken");
    s.iteration_max = 0;
    s.step(num(0.5));
    cx.check("they stay awake", boolean(hs.iter().all(|&h| asleep(&s, h) != want) && asleep(&s, alone) == want));
}
/// Two balls that meet and stay; one of them has been slow for longer and falls asleep at once, the other later.
fn late(cx: &mut Cx) {
    let mut s = world(2);
    s.energy_sleep_threshold = num(32.0);
    s.sleep_time_threshold = num(0.5);
    let m = cx.real("m", 0.25, 4.0);
    let early = cx.int("early", 2);
    let n = frame_of([0, 2, 5][cx.int("along", 3)])[0];
    let w = cx.real("w", 0.25, 2.0);
    let ball = |i: usize| {
        let v = mul(&n, if i == 0 { w } else { -w });
        let mut b = Ball::new(num(0.5), sub(&mul(&n, num(if i == 0 { -0.5 } else { 0.5 })), &mul(&v, num(0.75))), v);
        b.e = zero(); b.mass = m;
        b
    };
    let mut hs = vec![];
    for i in 0..2 {
        let mut b = ball(i);
        // the other one comes from elsewhere, fast
        if i != early { b.pos = v3(50.0, 50.0, 50.0); b.vel = v3(0.0, 100.0, 0.0); }
        hs.push(b.put(&mut s));
    }
    s.step(num(0.5));
    let b = ball(1 - early);
    let mut e = ent(&s, hs[1 - early]);
    e.position = add(&b.pos, &mul(&b.vel, num(0.5))); e.velocity = b.vel;
    s.update_entity(hs[1 - early], e).unwrap();
    s.step(num(0.5));
    cx.check("they meet", boolean(s.collision_records.len() == 1));
    cx.check("one falls asleep before the other", boolean(asleep(&s, hs[early]) && !asleep(&s, hs[1 - early])));
    s.step(num(0.5));
    cx.check("then the other", boolean(asleep(&s, hs[early]) && asleep(&s, hs[1 - early])));
    cx.check("they stay where they met", veq(&ent(&s, hs[0]).position, &mul(&n, num(-0.5))).and(veq(&ent(&s, hs[1]).position, &mul(&n, num(0.5)))));
    s.energy_sleep_threshold = -inf();
    let (at, kind) = (cx.int("at", 2), cx.int("kind", 6));
    if kind == 5 { cx.check("it is removed", boolean(s.remove_entity(hs[at]))); cx.check("what rested on it wakes", boolean(!asleep(&s, hs[1 - at]))); }
    else { change(cx, &mut s, hs[at], kind, "axis"); for &h in &hs { cx.check("they wake together", boolean(!asleep(&s, h))); } }
    cx.reached("woken");
}
/// Balls that fall asleep against one in their midst, which has too much energy to sleep until the next step.
fn late_star(cx: &mut Cx) {
    let mut s = world(2);
    let around = 2 + cx.int("around", 2);
    let f = frame_of([0, 5][cx.int("along", 2)]);
    let (m, w) = (cx.real("m", 0.25, 4.0), cx.real("w", 0.25, 2.0));
    let mut mid = Ball::new(num(0.5), Vec3::zeros(), Vec3::zeros());
    mid.e = zero(); mid.spin = mul(&f[0], num(64.0));
    let last = cx.int("last", 2) == 1;
    let mut hm = None;
    if !last { hm = Some(mid.put(&mut s)); }
    // all of them touch at once; each pushes it away from the others, so nothing overlaps later
    let mut hs = vec![];
    for i in 0..around {
        let mut b = Ball::new(num(0.5), mul(&f[i], num(-1.0)), mul(&f[i], w));
        b.e = zero(); b.mass = m;
        hs.push(b.put(&mut s));
    }
    let mid = match hm { Some(h) => h, None => mid.put(&mut s) };
    s.sleep_time_threshold = zero();
    s.energy_sleep_threshold = num(64.0);
    s.iteration_max = around as u8;
    s.step(num(0.25));
    cx.check("all of them meet", boolean(s.collision_records.len() == around));
    cx.check("those around it fall asleep before it", boolean(hs.iter().all(|&h| asleep(&s, h)) && !asleep(&s, mid)));
    s.energy_sleep_threshold = inf();
    s.step(frac(1, 64));
    cx.check("then the one in the middle", boolean(hs.iter().all(|&h| asleep(&s, h)) && asleep(&s, mid)));
    s.energy_sleep_threshold = -inf();
    let at = cx.int("at", around + 1);
    let h = if at < around { hs[at] } else { mid };
    if cx.int("gone", 2) == 1 {
        cx.check("it is removed", boolean(s.remove_entity(h)));
        for &x in hs.iter().chain(&[mid]) { if x != h { cx.check("what rested on it wakes", boolean(!asleep(&s, x))); } }
    } else {
        change(cx, &mut s, h, 1, "axis");
        for &x in hs.iter().chain(&[mid]) { cx.check("they wake together", boolean(!asleep(&s, x))); }
    }
    cx.reached("woken");
}
/// A body whose turn is more than half a turn (or less), asleep: its own copy is no change, another turn is one.
fn turned_far(cx: &mut Cx) {
    let mut s = world(1);
    s.sleep_time_threshold = zero();
    s.energy_sleep_threshold = inf();
    let n = frame_of([0, 2, 5][cx.int("along", 3)])[cx.int("row", 2)];
    let angle = if cx.int("far", 2) == 1 { cx.real("angle", 3.25, 6.0) } else { cx.real("angle", 0.25, 3.0) };
    cx.assume(ge((angle * num(0.5)).sin(), num(0.0625))); // holds for all of them
    let dt = num([1.0, 0.5, 0.25][cx.int("dt", 3)]);
    let mut b = Ball::new(num(0.5), v3(1.0, 2.0, -1.0), Vec3::zeros());
    let spun = cx.int("spun", 2) == 1;
    if spun { b.spin = mul(&n, angle / dt); } else { b.rot = mul(&n, angle); }
    let h = b.put(&mut s);
    s.step(dt);
    cx.check("it falls asleep", boolean(asleep(&s, h)));
    s.energy_sleep_threshold = -inf();
    let e = ent(&s, h);
    let (place, turn) = (e.position, e.rotation);
    cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
    cx.check("an update without a change does not wake", boolean(asleep(&s, h)));
    let mut e = ent(&s, h);
    cx.check("an update without a change leaves it", veq(&e.position, &place).and(veq(&e.rotation, &turn)));
    // the same turn the other way round, which is none
    if cx.int("round", 2) == 1 && !spun {
        e.rotation = mul(&n, angle);
        cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
        cx.check("the turn it was given does not wake", boolean(asleep(&s, h)));
        cx.reached("left alone");
        return;
    }
    // a turn back to none
    e.rotation = Vec3::zeros();
    cx.check("the update is accepted", boolean(s.update_entity(h, e).is_ok()));
    cx.check("another turn wakes", boolean(!asleep(&s, h)));
    cx.check("it is taken over", veq(&ent(&s, h).rotation, &Vec3::zeros()));
    cx.reached("woken");
}
fn remove(cx: &mut Cx) {
    let m = cx.real("m", 0.25, 4.0);
    let (mut s, hs, alone) = row(cx, m);
    let at = cx.int("at", 4);
    cx.check("it is removed", boolean(s.remove_entity(hs[at])));
    for (i, &h) in hs.iter().enumerate() { if i != at { cx.check("what rested on it wakes", boolean(!asleep(&s, h))); } }
    cx.check("others sleep on", boolean(asleep(&s, alone)));
    cx.reached("woken");
    let g = cx.real("g", 0.125, 4.0);
    let g = mul(&[v3(0.0, -1.0, 0.0), v3(0.6, 0.0, -0.8), v3(-0.36, 0.48, 0.8)][cx.int("down", 3)], g);
    let places: Vec<Vec3> = hs.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, &h)| ent(&s, h).position).collect();
    // all fall together: nothing collides
    s.add_unary_force_generator(Box::new(GravityGenerator::new(g))).unwrap();
    s.step(num(0.5));
    for (&h, p) in hs.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, h)| h).zip(&places) {
        cx.check("who is awake falls", veq(&ent(&s, h).position, &add(p, &mul(&g, num(0.25)))));
    }
}
fn hit(cx: &mut Cx, massive: bool) {
    let m = cx.real("m", 0.25, 4.0);
    let (mut s, hs, alone) = row(cx, m);
    s.iteration_max = 1;
    let at = cx.int("at", 5);
    let h = if at == 4 { alone } else { hs[at] };
    let (t, v) = (cx.real("t", 0.0625, 1.5), cx.real("speed", 0.25, 8.0));
    let p = ent(&s, h).position;
    let n = match at { 0 => axis(0), 3 => mul(&axis(2), num(-1.0)), _ => Vec3::new(zero(), frac(-3, 5), frac(4, 5)) };
    let center = sub(&p, &mul(&n, num(0.75)));
    let mut b = Ball::new(num(0.25), sub(&center, &mul(&n, v * t)), mul(&n, v));
    if massive { b.mass = inf(); }
    let b = b.put(&mut s);
    s.step(one());
    let all: Vec<EntityHandle> = if at == 4 { vec![alone] } else { hs.clone() };
    let rest: Vec<EntityHandle> = if at == 4 { hs.clone() } else { vec![alone] };
    cx.check("others sleep on", boolean(rest.iter().all(|&h| asleep(&s, h))));
    if s.collision_records.is_empty() {
        cx.check("a hit in time is reported", ge(t, one()));
        cx.check("what is not hit sleeps on", boolean(all.iter().all(|&h| asleep(&s, h))));
        cx.check("what is not hit does not move", veq(&ent(&s, h).position, &p));
        cx.reached("missed");
        return;
    }
    cx.check("the sleeper is hit", boolean(s.collision_records[0].first_entity == h && s.collision_records[0].second_entity == b));
    cx.check("the row wakes together", boolean(all.iter().all(|&h| !asleep(&s, h))));
    let mass = ent(&s, h).get_last_total_mass();
    let w = if massive { v * num(1.0) } else { v / (mass + one()) };
    // the restitution of a row's balls is none, that of the one alone is one
    let w = if at == 4 { num(2.0) * w } else { w };
    cx.check("the sleeper takes the blow", veq(&ent(&s, h).velocity, &mul(&n, w)));
    cx.reached("woken");
    // the next step carries it away
    s.iteration_max = 0;
    s.step(one());
    cx.check("awake again", boolean(!asleep(&s, h)));
}
/// Balls lying on a floor.
fn on_floor(cx: &mut Cx) -> (PhysicsSystem, [EntityHandle; 2], EntityHandle, F) {
    let mut s = world(2);
    s.energy_sleep_threshold = inf();
    s.sleep_time_threshold = zero();
    let m = cx.real("m", 0.125, 8.0);
    let order = cx.int("order", 2);
    let wall = Wall::new(Vec3::zeros(), v3(0.0, 1.0, 0.0));
    let ball = |x: f64, y: f64| { let mut b = Ball::new(num(0.5), v3(x, y, 0.0), v3(0.0, -1.0, 0.0)); b.e = zero(); b.mass = m; b };
    let (floor, a, b);
    if order == 0 { floor = wall.put(&mut s); a = ball(0.0, 0.75).put(&mut s); b = ball(5.0, 1.0).put(&mut s); }
    else { a = ball(0.0, 0.75).put(&mut s); floor = wall.put(&mut s); b = ball(5.0, 1.0).put(&mut s); }
    s.step(one());
    cx.check("all fall asleep", boolean([a, b, floor].iter().all(|&h| asleep(&s, h)) && s.collision_records.len() == 2));
    s.energy_sleep_threshold = -inf();
    (s, [a, b], floor, m)
}
fn floor(cx: &mut Cx) {
    let (mut s, balls, floor, m) = on_floor(cx);
    let at = cx.int("at", 2);
    let (h, other) = (balls[at], balls[1 - at]);
    let v = cx.real("v", 0.25, 4.0);
    let p = ent(&s, h).position;
    match cx.int("kind", 3) {
        0 => { let mut e = ent(&s, h); e.velocity = Vec3::new(v, -v, zero()); s.update_entity(h, e).unwrap(); }
        1 => {
            // hit from the side
            let mut b = Ball::new(num(0.5), sub(&p, &Vec3::new(zero(), zero(), v + one())), Vec3::new(zero(), zero(), num(2.0) * v)); b.mass = m; b.put(&mut s);
            s.step(one());
            cx.check("it is hit", boolean(s.collision_records.len() >= 1));
            cx.check("it takes the blow", veq(&ent(&s, h).velocity, &Vec3::new(zero(), zero(), v)));
        }
        _ => { let mut e = ent(&s, h); e.own_mass = one(); s.update_entity(h, e).unwrap(); }
    }
    cx.check("it wakes", boolean(!asleep(&s, h)));
    cx.check("the floor stays in place, asleep", boolean(asleep(&s, floor)).and(veq(&ent(&s, floor).position, &Vec3::zeros())));
    cx.check("the other sleeps on", boolean(asleep(&s, other)));
    cx.reached("woken");
    let q = ent(&s, other).position;
    s.add_unary_force_generator(Box::new(GravityGenerator::new(v3(0.0, -1.0, 0.0)))).unwrap();
    s.step(num(0.5));
    cx.check("the floor holds who is awake", eq(ent(&s, h).position.y, num(0.5)));
    cx.check("the collision is reported", boolean(s.collision_records.len() >= 1));
    cx.check("the other sleeps on, in place", boolean(asleep(&s, other)).and(veq(&ent(&s, other).position, &q)));
}
fn floor_gone(cx: &mut Cx) {
    let (mut s, balls, floor, _) = on_floor(cx);
    let kind = cx.int("gone", 6);
    if kind == 5 { cx.check("it is removed", boolean(s.remove_entity(floor))); }
    else { change(cx, &mut s, floor, kind, "axis"); }
    for &h in &balls { cx.check("what lay on it wakes", boolean(!asleep(&s, h))); }
    cx.reached("woken");
    if kind != 5 { return; }
    let g = cx.real("g", 0.25, 4.0);
    s.add_unary_force_generator(Box::new(GravityGenerator::new(Vec3::new(zero(), -g, zero())))).unwrap();
    s.step(one());
    for &h in &balls { cx.check("it falls", eq(ent(&s, h).position.y, num(0.5) - g)); }
}
fn again(cx: &mut Cx) {
    let m = cx.real("m", 0.25, 4.0);
    let (mut s, hs, alone) = row(cx, m);
    for round in 0..2 {
        let at = cx.int(&format!("at{}", round), 4);
        let v = cx.real(&format!("v{}", round), 0.25, 4.0);
        // pushed against a neighbour, or away at the end of the row
        let left = cx.int(&format!("left{}", round), 2) == 1;
        let mut e = ent(&s, hs[at]);
        e.velocity = if left { mul(&axis(at.max(1) - 1), -v) } else { mul(&axis(at.min(2)), v) };
        s.update_entity(hs[at], e).unwrap();
        cx.check("the row wakes together", boolean(hs.iter().all(|&h| !asleep(&s, h)) == (round == 0) || !asleep(&s, hs[at])));
        if round == 1 { break; }
        s.energy_sleep_threshold = inf();
        s.iteration_max = 1;
        s.step(num(0.5));
        cx.check("all fall asleep again", boolean(hs.iter().all(|&h| asleep(&s, h))));
        s.energy_sleep_threshold = -inf();
        let next = if left { at.checked_sub(1) } else if at < 3 { Some(at + 1) } else { None };
        cx.check("who pushes hits the next", boolean(s.collision_records.len() == next.iter().count()));
        // the links of before are gone: only the two that touched belong together
        let who = cx.int("who", 4);
        let mut e = ent(&s, hs[who]);
        e.own_mass = e.own_mass + num(0.5);
        s.update_entity(hs[who], e).unwrap();
        let pair = next.map(|n| who == n || who == at).unwrap_or(false);
        for (i, &h) in hs.iter().enumerate() {
            let together = i == who || (pair && (i == at || Some(i) == next));
            cx.check("who touched last wakes together", boolean(asleep(&s, h) != together));
        }
        s.iteration_max = 0;
        s.energy_sleep_threshold = inf();
        s.step(num(0.5));
        cx.check("and falls asleep again", boolean(hs.iter().all(|&h| asleep(&s, h))));
        s.energy_sleep_threshold = -inf();
    }
    cx.check("others sleep on", boolean(asleep(&s, alone)));
    cx.reached("judged");
}
