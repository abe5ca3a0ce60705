//! Larger worlds: more bodies, colliders, faces, forces, collisions and steps than elsewhere, with less of it symbolic.
use crate::kit::*;
use super::impact::scalar;
use super::scenes::*;

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $run:expr, $t:expr, $reach:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: $run, thorough: $t, reach: $reach, about: $about, bounds: $b }); } }
    const C: &str = "first contact at a time in [1/16,3/4] of a step of length 2, then every 1/8, speed 2, seven balls, iteration limit 4, 6 or 9, three orders of the bodies";
    add!("C20", "c20_many", |cx| cradle(cx, Judge::Records), false, &["all", "limit"], "a ball hits a row of six, each of which hits the next", C);
    add!("C01", "c01_many", |cx| cradle(cx, Judge::Momentum), false, &["all", "limit"], "a ball hits a row of six, each of which hits the next", C);
    add!("C03", "c03_many", |cx| cradle(cx, Judge::Energy), false, &["all", "limit"], "a ball hits a row of six, each of which hits the next", C);
    add!("C22", "c22_many", |cx| cradle(cx, Judge::Apart), false, &["all", "limit"], "a ball hits a row of six, each of which hits the next", C);
    const P: &str = "five pairs (ten bodies), any of which meets first, at a time in [1/16,3/4] and then every 1/16, iteration limit 3, 5 or 8, three orders of the bodies";
    add!("C20", "c20_pairs", |cx| pairs(cx, false), false, &["all", "limit"], "many collisions of separate pairs in a step", P);
    add!("C26", "c26_pairs", |cx| pairs(cx, true), false, &["all"], "every pair moves as if it was alone", P);
    add!("C26", "c26_spinner", spinner, false, &["judged"], "a spinning body moves freely while other pairs collide, one after another, in the same step", "one or five pairs, collisions at fixed times; spin of [1/4,2] about one of three axes, velocity in [-4,4]^3, with or without a collider off its centre, added first, in between or last");
    const M: &str = "contact at a time in [1/16,3/2] of a step of length 1, straight approach with speed 2, radius 1/4, every one of the 10 faces, 24 edges and 16 corners, one turned frame";
    add!("C07", "c07_many", prism_touch, false, &["hit", "too late"], "a sphere meets an octagonal prism", M);
    add!("C08", "c08_many", prism_land, false, &["hit", "too late"], "an octagonal prism lands on any of its faces, edges or corners", "contact at a time in [1/16,3/2] of a step of length 1, speed 2 aslant, every one of the 10 faces, 24 edges and 16 corners lowest, one turned frame");
    add!("C27", "c27_many", |cx| { let s = prism_poke(cx); exact(cx, s) }, false, &["hit", "too late"], "any corner of an octagonal prism meets the inside of an octagon, or any corner of a triangle meets any face of the prism", "contact at a time in [1/16,3/2] of a step of length 1, speed 2, both orders, one turned frame");
    add!("C23", "c23_many", prism_build, false, &["counted"], "an octagonal prism and an octagon have the right numbers of corners, edges and faces", "symbolic sizes in [1/4,4], the faces in any of five orders, each from another corner and every other one the other way around");
    add!("C11", "c11_many", |cx| load(cx, false), false, &["judged"], "six colliders come and go", "symbolic masses of two of them in [1/64,64], position in [-4,4]^3, three orders of linking, any one unlinked, removed or relinked");
    add!("C12", "c12_many", |cx| load(cx, true), false, &["judged"], "the tensor of six colliders that come and go", "symbolic masses of two of them in [1/64,64], position in [-4,4]^3, three orders of linking, any one unlinked, removed or relinked");
    add!("C13", "c13_many", crowd, false, &["judged"], "five entities with six colliders each: removing any of them takes away exactly its own, slots are used again, steps go on", "any entity, then any of its neighbours in the list");
    add!("C16", "c16_many", forces, false, &["judged"], "six generators act on five entities, any one of them removed", "symbolic masses in [1/64,64], one symbolic force in [-4,4]^3, step of length in [1/16,2]");
    add!("C15", "c15_many", drift, false, &["judged"], "eight entities with three colliders each move freely for six steps", "symbolic velocity of one of them in [-4,4]^3, steps of length in [1/16,1]");
    add!("C17", "c17_many", naps, false, &["asleep", "awake"], "eight steps with one disturbance before any one of them", "steps of length in [1/16,1/2], time threshold in [1/8,4], disturbance by a velocity above or below the threshold");
    add!("C18", "c18_many", |cx| web(cx), false, &["judged"], "eight balls that fell asleep in a row or as a star, or four as a tripod: any one disturbed wakes them all, removing one wakes those that rested on it", "velocities in [1/4,4], masses of two of them in [1/4,4]");
}

#[derive(Clone, Copy, PartialEq)]
enum Judge { Records, Momentum, Energy, Apart }
const SHUFFLE: [[usize; 7]; 3] = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [3, 0, 5, 1, 6, 2, 4]];
fn cradle(cx: &mut Cx, judge: Judge) {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 0.75);
    let limit = [4, 6, 9][cx.int("limit", 3)];
    let o = SHUFFLE[cx.int("order", 3)];
    let r = num(0.5);
    let at = |k: F| add(&v3(0.5, -1.0, 0.25), &mul(&f[0], k));
    let mut s = awake(limit as u8);
    let mut hs: Vec<Option<EntityHandle>> = vec![None; 7];
    // the first is at 0 at its contact; then the others are hit when they stand 1/4 further
    let place = |i: usize| if i == 0 { num(-2.0) * t } else { num(1.0 + 1.25 * (i as f64 - 1.0)) };
    for &i in o.iter() { hs[i] = Some(Ball::new(r, at(place(i)), if i == 0 { mul(&f[0], num(2.0)) } else { Vec3::zeros() }).put(&mut s)); }
    let h: Vec<EntityHandle> = hs.into_iter().map(|x| x.unwrap()).collect();
    go(&mut s, num(2.0));
    // the collisions: ball i hits ball i + 1 at t + i/8, the last at t + 5/8
    let n = limit.min(6);
    cx.reached(if limit <= 6 { "limit" } else { "all" });
    let when = |i: usize| t + num(i as f64 * 0.125);
    let e: Vec<Entity> = h.iter().map(|&h| ent(&s, h)).collect();
    match judge {
        Judge::Records => {
            cx.check("as many records as collisions", boolean(s.collision_records.len() == n));
            if s.collision_records.len() != n { return; }
            for i in 0..n {
                let rec = rec(&s, i);
                let forth = rec.first_entity == h[i] && rec.second_entity == h[i + 1];
                cx.check("the record names the two that meet", boolean(forth || rec.first_entity == h[i + 1] && rec.second_entity == h[i]));
                cx.check("the record has the time of the contact", eq(rec.time, when(i)));
                cx.check("the record has the place of the contact", veq(&rec.position, &at(num(0.5 + 1.25 * i as f64))));
                cx.check("the normal points off the first", veq(&rec.normal, &mul(&f[0], if forth { one() } else { num(-1.0) })));
                cx.check("the record has the restitution and the impulse", eq(rec.restitution_coefficient, one()).and(eq(rec.impulse_magnitude, num(2.0))));
            }
            // after the last collision that was resolved, its second ball moves on
            let end = if limit <= 6 { when(n - 1) } else { num(2.0) };
            for i in 0..7 {
                let moving = i == n;
                let rest = if i < n { num(1.25 * i as f64) } else { num(1.0 + 1.25 * (i as f64 - 1.0)) };
                cx.check("velocities after the collisions", veq(&e[i].velocity, &mul(&f[0], if moving { num(2.0) } else { zero() })));
                let along = if moving { rest + num(2.0) * (end - when(n - 1)) } else { rest };
                cx.check("places at the end", veq(&e[i].position, &at(along)));
            }
        }
        Judge::Momentum => {
            let mut p = Vec3::zeros();
            for x in &e { p = add(&p, &x.velocity); }
            cx.check("linear momentum", veq(&p, &mul(&f[0], num(2.0))));
        }
        Judge::Energy => {
            let mut k = zero();
            for x in &e { k = k + n2(&x.velocity) + n2(&x.angular_velocity); }
            cx.check("the energy is kept", eq(k, num(4.0)));
        }
        Judge::Apart => for i in 0..6 {
            cx.check("the balls do not pass through each other", ge(dot(&sub(&e[i + 1].position, &e[i].position), &f[0]), one() - num(1.0 / 65536.0)));
        },
    }
}
/// Five pairs of balls in lanes far from each other. `alone`: compared with the same pairs in worlds of their own.
fn pairs(cx: &mut Cx, alone: bool) {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 0.75);
    let first = cx.int("first", 5);
    let limit = if alone { 8 } else { [3, 5, 8][cx.int("limit", 3)] };
    let order = cx.int("order", 3);
    let r = num(0.5);
    let o = v3(0.5, -1.0, 0.25);
    let speed = |i: usize| num([2.0, 1.0, 4.0, 3.0, 0.5][i]);
    // the rank of the pair among the collisions
    let rank = |i: usize| (i * 2 + 5 - first * 2 % 5) % 5;
    let when = |i: usize| t + num(rank(i) as f64 * 0.0625);
    let lane = |i: usize| {
        let c = add(&o, &mul(&f[1], num(16.0 * i as f64)));
        let v = mul(&f[0], speed(i));
        (Ball::new(r, before(&c, &v, when(i)), v), Ball::new(r, add(&c, &f[0]), Vec3::zeros()), c, v)
    };
    let put = |s: &mut PhysicsSystem, which: &[usize]| {
        let mut h: Vec<Option<EntityHandle>> = vec![None; 10];
        let list: Vec<usize> = match order { 0 => (0..10).collect(), 1 => (0..10).rev().collect(), _ => (0..10).map(|k| k * 3 % 10).collect() };
        for k in list { if which.contains(&(k / 2)) { let l = lane(k / 2); h[k] = Some(if k % 2 == 0 { l.0.put(s) } else { l.1.put(s) }); } }
        h
    };
    let mut s = awake(limit as u8);
    let h = put(&mut s, &[0, 1, 2, 3, 4]);
    go(&mut s, num(1.5));
    let n = limit.min(5);
    cx.reached(if limit <= 5 { "limit" } else { "all" });
    cx.check("as many records as collisions", boolean(s.collision_records.len() == n));
    if s.collision_records.len() != n { return; }
    if alone {
        for i in 0..5 {
            let mut w = awake(8);
            let g = put(&mut w, &[i]);
            go(&mut w, num(1.5));
            for k in [2 * i, 2 * i + 1] {
                let (a, b) = (ent(&w, g[k].unwrap()), ent(&s, h[k].unwrap()));
                cx.check("the same place", veq(&a.position, &b.position));
                cx.check("the same velocity", veq(&a.velocity, &b.velocity));
                cx.check("the same rotation and spin", veq(&a.rotation, &b.rotation).and(veq(&a.angular_velocity, &b.angular_velocity)));
            }
        }
        return;
    }
    let end = if limit <= 5 { t + num((n - 1) as f64 * 0.0625) } else { num(1.5) };
    for i in 0..5 {
        let (_, _, c, v) = lane(i);
        let (a, b) = (h[2 * i].unwrap(), h[2 * i + 1].unwrap());
        let (ea, eb) = (ent(&s, a), ent(&s, b));
        if rank(i) < n {
            let rec = rec(&s, rank(i));
            let forth = rec.first_entity == a && rec.second_entity == b;
            cx.check("the record names the two that meet", boolean(forth || rec.first_entity == b && rec.second_entity == a));
            cx.check("the record has the time of the contact", eq(rec.time, when(i)));
            cx.check("the record has the place of the contact", veq(&rec.position, &add(&c, &mul(&f[0], r))));
            cx.check("velocities after the collisions", veq(&ea.velocity, &Vec3::zeros()).and(veq(&eb.velocity, &v)));
            cx.check("places at the end", veq(&ea.position, &c).and(veq(&eb.position, &add(&add(&c, &f[0]), &mul(&v, end - when(i))))));
        } else {
            cx.check("who has not met moves on", veq(&ea.velocity, &v).and(veq(&ea.position, &add(&c, &mul(&v, end - when(i))))).and(veq(&eb.position, &add(&c, &f[0]))));
        }
    }
}

/// An octagon with sides of length 4 and 5, counterclockwise seen against the first vector of the frame.
const OCT: [(f64, f64); 8] = [(-2.0, -6.0), (2.0, -6.0), (5.0, -2.0), (5.0, 2.0), (2.0, 6.0), (-2.0, 6.0), (-5.0, 2.0), (-5.0, -2.0)];
/// The outward normals of its sides, times 5.
const OUT: [(i64, i64); 8] = [(0, -5), (4, -3), (5, 0), (4, 3), (0, 5), (-4, 3), (-5, 0), (-4, -3)];
const DEEP: f64 = 3.0;
fn corner(f: &[Vec3; 3], k: usize) -> Vec3 { inframe(f, num(if k < 8 { 0.0 } else { -DEEP }), num(OCT[k % 8].0), num(OCT[k % 8].1)) }
fn prism_list() -> Vec<Vec<usize>> {
    let mut v = vec![(0..8).collect::<Vec<_>>(), (8..16).rev().collect()];
    for i in 0..8 { let j = (i + 1) % 8; v.push(vec![i, i + 8, j + 8, j]); }
    v
}
fn prism(f: &[Vec3; 3]) -> Vec<Vec<Vec3>> { prism_list().iter().map(|l| l.iter().map(|&k| corner(f, k)).collect()).collect() }
fn out(i: usize) -> (F, F) { (frac(OUT[i].0, 5), frac(OUT[i].1, 5)) }
/// Between the normals of the sides before and after a corner.
fn out_corner(k: usize) -> (F, F) { let m = out((k + 7) % 8); let (c, s) = (frac(15, 17), frac(8, 17)); (m.0 * c - m.1 * s, m.0 * s + m.1 * c) }
/// The feature: its corners and a unit vector that points out of it, strictly between the normals of the faces there.
fn feature(k: usize) -> (Vec<usize>, (F, F, F)) {
    let cap = |k: usize| if k < 8 { one() } else { num(-1.0) };
    if k < 10 { let l = prism_list()[k].clone(); let n = if k == 0 { (one(), zero(), zero()) } else if k == 1 { (num(-1.0), zero(), zero()) } else { let m = out(k - 2); (zero(), m.0, m.1) }; return (l, n); }
    let k = k - 10;
    if k < 16 { let m = out(k % 8); return (vec![k, k / 8 * 8 + (k + 1) % 8], (cap(k) * frac(3, 5), m.0 * frac(4, 5), m.1 * frac(4, 5))); }
    let k = k - 16;
    if k < 8 { let m = out_corner(k); return (vec![k, k + 8], (zero(), m.0, m.1)); }
    let k = k - 8;
    let m = out_corner(k % 8);
    (vec![k], (cap(k) * frac(3, 5), m.0 * frac(4, 5), m.1 * frac(4, 5)))
}
/// A place on the feature: off the middle for faces and edges.
fn on(f: &[Vec3; 3], l: &[usize]) -> Vec3 {
    let w: Vec<f64> = match l.len() { 1 => vec![1.0], 2 => vec![0.25, 0.75], 4 => vec![0.125, 0.25, 0.5, 0.125], _ => vec![0.0625, 0.125, 0.25, 0.0625, 0.125, 0.125, 0.125, 0.125] };
    let mut p = Vec3::zeros();
    for (&k, &w) in l.iter().zip(&w) { p = add(&p, &mul(&corner(f, k), num(w))); }
    p
}
fn prism_touch(cx: &mut Cx) {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let (l, n) = feature(cx.int("feature", 50));
    let (r, speed) = (num(0.25), num(2.0));
    let n = mul(&inframe(&f, n.0, n.1, n.2), num(-1.0));
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&n, r));
    let offset = v3(0.5, -2.0, 1.0);
    let o = sub(&x, &add(&on(&f, &l), &offset));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &mul(&n, speed));
    let mut m = Solid::new(before(&o, &vb, t), vb, prism(&f));
    m.inertia = Mat3::zeros(); m.offset = offset;
    exact(cx, Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(m), t, dt: one(), x, n, ca: c1, cb: o, va, vb, deep: false })
}
fn prism_land(cx: &mut Cx) {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let (l, n) = feature(cx.int("feature", 50));
    let n = inframe(&f, n.0, n.1, n.2);
    let mut mid = Vec3::zeros();
    for &k in &l { mid = add(&mid, &mul(&corner(&f, k), frac(1, l.len() as i64))); }
    let o = v3(0.5, -1.0, 0.25);
    let x = add(&o, &mid);
    let (va, vb) = (add(&mul(&n, num(2.0)), &v3(0.25, -0.5, 1.0)), v3(0.25, -0.5, 1.0));
    let mut m = Solid::new(before(&o, &va, t), va, prism(&f));
    m.inertia = Mat3::zeros();
    let w = Wall { vel: vb, ..Wall::new(before(&x, &vb, t), mul(&n, num(-1.0))) };
    exact(cx, Scene { a: Box::new(m), b: Box::new(w), t, dt: one(), x, n, ca: o, cb: x, va, vb, deep: true })
}
fn prism_poke(cx: &mut Cx) -> Scene {
    let f = frame_of(5);
    let t = cx.real("t", 0.0625, 1.5);
    let (speed, swap) = (num(2.0), cx.int("swap", 2) == 1);
    let x = v3(0.5, -1.0, 0.25);
    let vb = v3(0.25, -0.5, 1.0);
    let solid = |at: &Vec3, v: &Vec3, faces: Vec<Vec<Vec3>>| { let mut m = Solid::new(before(at, v, t), *v, faces); m.inertia = Mat3::zeros(); m };
    // the poking one moves along n with the given speed
    let (poker, pc, hit, hc, n, va) = if cx.int("corner", 2) == 0 {
        let k = cx.int("which", 16);
        let (_, n) = feature(34 + k);
        let n = inframe(&f, n.0, n.1, n.2);
        let va = add(&vb, &mul(&n, speed));
        let pc = sub(&x, &corner(&f, k));
        // an octagon across the normal
        let g = [n, cross(&n, &f[0]), Vec3::zeros()];
        let g1 = mul(&g[1], frac(5, 4));
        let g2 = cross(&n, &g1);
        let face: Vec<Vec3> = OCT.iter().map(|c| add(&mul(&g1, num(c.0 - 1.0)), &mul(&g2, num(c.1 + 0.5)))).collect();
        (solid(&pc, &va, prism(&f)), pc, solid(&x, &vb, vec![face]), x, n, va)
    } else {
        let k = cx.int("which", 10);
        let (l, m) = feature(k);
        let n = mul(&inframe(&f, m.0, m.1, m.2), num(-1.0));
        let va = add(&vb, &mul(&n, speed));
        let side = if k < 2 { f[1] } else { f[0] };
        let other = cross(&n, &side);
        let tip = vec![Vec3::zeros(), add(&mul(&n, num(-4.0)), &side), add(&mul(&n, num(-3.0)), &other)];
        let hc = sub(&x, &on(&f, &l));
        (solid(&x, &va, vec![tip]), x, solid(&hc, &vb, prism(&f)), hc, n, va)
    };
    if swap { Scene { a: Box::new(hit), b: Box::new(poker), t, dt: one(), x, n: mul(&n, num(-1.0)), ca: hc, cb: pc, va: vb, vb: va, deep: false } }
    else { Scene { a: Box::new(poker), b: Box::new(hit), t, dt: one(), x, n, ca: pc, cb: hc, va, vb, deep: false } }
}
fn prism_build(cx: &mut Cx) {
    let f = frame_of(5);
    let size = cx.real("size", 0.25, 4.0);
    let order = cx.int("order", 5);
    let alone = cx.int("alone", 2) == 1;
    let mut m = MeshCollider::new();
    let l = prism_list();
    let n = if alone { 1 } else { 10 };
    for i in 0..n {
        let i = if alone { 0 } else { (i * [1, 3, 7, 9, 1][order] + [0, 1, 2, 9, 4][order]) % 10 };
        let mut p: Vec<Vec3> = l[i].iter().map(|&k| mul(&corner(&f, k), size)).collect();
        let by = (i * 3 + order * 2) % p.len();
        p.rotate_left(by);
        if (i + order) % 2 == 1 { p.reverse(); }
        m.add_face(&p);
    }
    cx.reached("counted");
    let want = if alone { (8, 8, 1) } else { (16, 24, 10) };
    cx.check("every corner once", boolean(m.vertex_count() == want.0));
    cx.check("every edge once", boolean(m.edge_count() == want.1));
    cx.check("every face", boolean(m.face_count() == want.2));
}

/// An entity with six colliders; afterwards one of them goes or changes.
fn load(cx: &mut Cx, tensor: bool) {
    let mut s = world(3);
    let origin = vec(cx, "pos", -4.0, 4.0);
    let (m1, m2) = (cx.real("m1", 0.015625, 64.0), cx.real("m2", 0.015625, 64.0));
    let mut e = Entity::new();
    e.position = origin; e.own_mass = num(1.5);
    let h = s.add_entity(e).unwrap();
    let other = s.add_entity(Entity::new()).unwrap();
    let ms = [num(2.0), m1, num(0.25), zero(), m2, num(4.0)];
    let place = |i: usize| v3([1.0, -2.0, 0.5, 3.0, -1.0, 0.25][i], [0.0, 1.0, -0.5, 2.0, -1.5, 0.75][i], [-1.0, 0.5, 2.0, 0.0, 1.0, -3.0][i]);
    let make = |i: usize, m: F| { let mut p = NullCollider::new(); p.position = place(i); p.mass = m; p.moment_of_inertia = Mat3::from_diagonal(&v3(1.0 + i as f64, 2.0, 0.5)); ColliderWrapper::Null(p) };
    let c: Vec<ColliderHandle> = (0..6).map(|i| s.add_collider(make(i, ms[i])).unwrap()).collect();
    let order = cx.int("order", 3);
    let list: Vec<usize> = match order { 0 => vec![0, 1, 2, 3, 4, 5], 1 => vec![5, 4, 3, 2, 1, 0], _ => vec![2, 5, 0, 3, 1, 4] };
    for &i in &list { s.link_collider(c[i], Some(h)).unwrap(); }
    let mut there = [true; 6];
    let mut ms = ms;
    let which = cx.int("which", 6);
    match cx.int("then", 5) {
        0 => {}
        1 => { s.link_collider(c[which], None).unwrap(); there[which] = false; }
        2 => { s.remove_collider(c[which]); there[which] = false; }
        3 => { s.link_collider(c[which], Some(other)).unwrap(); there[which] = false; }
        _ => { s.update_collider(c[which], make(which, num(3.0))).unwrap(); ms[which] = num(3.0); }
    }
    cx.reached("judged");
    let e = ent(&s, h);
    let (mut sum, mut at) = (zero(), Vec3::zeros());
    for i in 0..6 { if there[i] { sum = sum + ms[i]; at = add(&at, &mul(&place(i), ms[i])); } }
    let at = mul(&at, one() / sum);
    if !tensor {
        cx.check("the total mass is the sum", eq(e.get_last_total_mass(), sum + num(1.5)));
        cx.check("the position is the centre of mass", veq(&e.position, &add(&origin, &at)));
        cx.check("the local origin stays", veq(&e.get_last_orientation().local_origin_in_world(), &origin));
        cx.check("the colliders", boolean(e.get_colliders().len() == there.iter().filter(|x| **x).count()));
        return;
    }
    let mut want = Mat3::zeros();
    for i in 0..6 {
        if !there[i] { continue; }
        let d = sub(&place(i), &at);
        want = want + Mat3::from_diagonal(&v3(1.0 + i as f64, 2.0, 0.5));
        let dd = n2(&d);
        for a in 0..3 { for b in 0..3 { want[(a, b)] = want[(a, b)] + ms[i] * (if a == b { dd } else { zero() } - d[a] * d[b]); } }
    }
    cx.check("the tensor is the sum of those of the parts about the centre of mass", meq(&e.get_last_moment_of_inertia(), &want));
}
fn crowd(cx: &mut Cx) {
    let mut s = awake(3);
    let m = cx.real("m", 0.25, 4.0);
    let mut es = vec![];
    let mut cs: Vec<Vec<ColliderHandle>> = vec![];
    let fill = |s: &mut PhysicsSystem, k: usize, n: usize| {
        let mut e = Entity::new();
        e.position = v3(0.0, 100.0 * k as f64, 0.0);
        let h = s.add_entity(e).unwrap();
        let mut l = vec![];
        for i in 0..n {
            let w = match i % 3 { 0 => { let mut b = SphereCollider::new(num(0.5)); b.mass = m; ColliderWrapper::Sphere(b) } 1 => { let mut b = NullCollider::new(); b.mass = one(); ColliderWrapper::Null(b) } _ => { let mut b = AlignedBoxCollider::new(); b.mass = one(); ColliderWrapper::AlignedBox(b) } };
            let c = s.add_collider(w).unwrap();
            s.link_collider(c, Some(h)).unwrap();
            l.push(c);
        }
        (h, l)
    };
    for k in 0..5 { let (h, l) = fill(&mut s, k, 6); es.push(h); cs.push(l); }
    let mut alive = vec![true; 5];
    let which = cx.int("which", 5);
    let next = (which + 1 + cx.int("next", 2)) % 5;
    let step = cx.int("step", 2) == 1;
    let judge = |cx: &mut Cx, s: &PhysicsSystem, es: &Vec<EntityHandle>, cs: &Vec<Vec<ColliderHandle>>, alive: &Vec<bool>| {
        for k in 0..es.len() {
            match s.get_entity(es[k]) {
                None => cx.check("an entity exists until it is removed", boolean(!alive[k])),
                Some(e) => {
                    cx.check("a removed entity is gone", boolean(alive[k]));
                    cx.check("an entity lists exactly the colliders that name it", boolean(e.get_colliders().len() == cs[k].len() && cs[k].iter().all(|c| e.get_colliders().contains(c))));
                }
            }
            for c in &cs[k] {
                let owner = s.get_collider(*c).map(|w| match w { ColliderWrapper::Null(c) => c.get_entity(), ColliderWrapper::Sphere(c) => c.get_entity(), ColliderWrapper::Plane(c) => c.get_entity(), ColliderWrapper::Mesh(c) => c.get_entity(), ColliderWrapper::AlignedBox(c) => c.get_entity() });
                cx.check("colliders go with their entity and no others do", boolean(owner == if alive[k] { Some(Some(es[k])) } else { None }));
            }
        }
    };
    cx.check("removing tells that it existed", boolean(s.remove_entity(es[which])));
    alive[which] = false;
    judge(cx, &s, &es, &cs, &alive);
    if step { s.step(num(0.5)); }
    // slots are used again
    let (h, l) = fill(&mut s, 7, 7);
    es.push(h); cs.push(l); alive.push(true);
    judge(cx, &s, &es, &cs, &alive);
    cx.check("removing tells that it existed", boolean(s.remove_entity(es[next]) && !s.remove_entity(es[which])));
    alive[next] = false;
    if step { s.step(num(0.5)); }
    judge(cx, &s, &es, &cs, &alive);
    cx.reached("judged");
}
#[derive(Debug)]
struct Push { f: Vec3, only: Option<EntityHandle> }
impl UnaryForceGenerator for Push {
    fn make_force(&mut self, _dt: F, p: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = p.get_entity(h).unwrap();
        Force::new(if self.only.is_none() || self.only == Some(h) { self.f } else { Vec3::zeros() }, e.position)
    }
}
fn forces(cx: &mut Cx) {
    let mut s = awake(3);
    let dt = cx.real("dt", 0.0625, 2.0);
    let (m1, m2) = (cx.real("m1", 0.015625, 64.0), cx.real("m2", 0.015625, 64.0));
    let f = vec(cx, "f", -4.0, 4.0);
    let ms = [one(), m1, num(0.5), m2, num(3.0)];
    let h: Vec<EntityHandle> = (0..5).map(|i| { let mut e = Entity::new(); e.position = v3(0.0, 10.0 * i as f64, 0.0); e.velocity = v3(0.5, -0.25 * i as f64, 1.0); e.own_mass = ms[i]; s.add_entity(e).unwrap() }).collect();
    let fs = [v3(1.0, 0.0, 0.5), v3(-0.5, 2.0, 0.0), f, v3(0.0, -1.0, 3.0), v3(0.25, 0.25, 0.25), f];
    let whose = [None, Some(3), Some(1), None, Some(4), Some(3)];
    let g: Vec<_> = (0..6).map(|i| s.add_unary_force_generator(Box::new(Push { f: fs[i], only: whose[i].map(|k: usize| h[k]) })).unwrap()).collect();
    let gone = cx.int("gone", 7);
    if gone < 6 { cx.check("a removed generator is returned", boolean(s.remove_unary_force_generator(g[gone]).is_some())); }
    s.step(dt);
    cx.reached("judged");
    for k in 0..5 {
        let mut sum = Vec3::zeros();
        for i in 0..6 { if i != gone && (whose[i].is_none() || whose[i] == Some(k)) { sum = add(&sum, &fs[i]); } }
        let v = add(&v3(0.5, -0.25 * k as f64, 1.0), &mul(&sum, dt / ms[k]));
        let e = ent(&s, h[k]);
        cx.check("the forces on every entity add up", veq(&e.velocity, &v));
        cx.check("positions follow the new velocities", veq(&e.position, &add(&v3(0.0, 10.0 * k as f64, 0.0), &mul(&v, dt))));
        cx.check("no spin", veq(&e.angular_velocity, &Vec3::zeros()));
    }
}
fn drift(cx: &mut Cx) {
    let mut s = awake(3);
    let v = vec(cx, "v", -4.0, 4.0);
    let who = cx.int("who", 8);
    let mut hs = vec![];
    let (mut at, mut vs) = (vec![], vec![]);
    for k in 0..8 {
        let p = v3(0.0, 200.0 * k as f64, 0.0);
        let vel = if k == who { v } else { v3(0.5, 0.25 * k as f64, -1.0) };
        let mut e = Entity::new();
        e.position = p; e.velocity = vel;
        let h = s.add_entity(e).unwrap();
        for i in 0..3 { let mut c = NullCollider::new(); c.position = v3(0.0, 0.0, [1.0, -1.0, 0.0][i]); c.mass = num([0.5, 0.5, k as f64][i]); let c = s.add_collider(ColliderWrapper::Null(c)).unwrap(); s.link_collider(c, Some(h)).unwrap(); }
        hs.push(h); at.push(p); vs.push(vel);
    }
    let dt = cx.real("dt", 0.0625, 1.0);
    for i in 0..6 {
        let d = if i % 2 == 0 { dt } else { num(0.25) };
        s.step(d);
        cx.check("no collisions", boolean(s.collision_records.is_empty()));
        for k in 0..8 {
            at[k] = add(&at[k], &mul(&vs[k], d));
            let e = ent(&s, hs[k]);
            cx.check("everyone moves by velocity times time", veq(&e.position, &at[k]));
            cx.check("everyone keeps the velocity", veq(&e.velocity, &vs[k]).and(veq(&e.angular_velocity, &Vec3::zeros())).and(veq(&e.rotation, &Vec3::zeros())));
        }
    }
    cx.reached("judged");
}
fn naps(cx: &mut Cx) {
    let mut s = world(2);
    s.energy_sleep_threshold = num(0.125);
    let wait = cx.real("wait", 0.125, 4.0);
    s.sleep_time_threshold = wait;
    let dt = cx.real("dt", 0.0625, 0.5);
    let when = cx.int("when", 9);
    let kick = [num(0.25), num(2.0)][cx.int("kick", 2)];
    let mut e = Entity::new();
    e.position = v3(1.0, 2.0, 3.0); e.velocity = v3(0.25, 0.0, 0.0); e.own_mass = one();
    let h = s.add_entity(e).unwrap();
    // how long the energy has been low at the ends of steps, if it has
    let mut low: Option<F> = None;
    let mut sleeps = false;
    for i in 0..8 {
        if i == when {
            let mut e = ent(&s, h);
            e.velocity = Vec3::new(zero(), kick, zero());
            s.update_entity(h, e).unwrap();
            // the time of a sleeper that wakes goes on or starts again
            if sleeps { return; }
        } else if i == when + 1 && kick == num(2.0) {
            let mut e = ent(&s, h);
            e.velocity = v3(0.0, 0.25, 0.0);
            s.update_entity(h, e).unwrap();
        }
        s.step(dt);
        let e = ent(&s, h);
        if i == when && kick == num(2.0) {
            cx.check("only slow entities fall asleep", boolean(!e.was_asleep()));
            low = None;
            continue;
        }
        if sleeps { cx.check("a sleeper sleeps on", boolean(e.was_asleep())); continue; }
        let time = match low { None => zero(), Some(t) => t + dt };
        low = Some(time);
        if e.was_asleep() {
            sleeps = true;
            cx.reached("asleep");
            cx.check("nobody falls asleep before the time", ge(time + dt, wait));
        } else {
            cx.reached("awake");
            cx.check("who has been slow for long enough sleeps", lt(time, wait));
        }
    }
}
/// Eight balls that touch in a row, or six that touch a heavy one, all asleep.
fn web(cx: &mut Cx) {
    // a row, a star about something infinitely heavy, or about something that is put there first or last
    let shape = cx.int("shape", 4);
    let star = shape > 0;
    let n = [8, 7, 4, 4][shape];
    let (m1, m2) = (cx.real("m1", 0.25, 4.0), cx.real("m2", 0.25, 4.0));
    let mut s = world(n as u8 - 1);
    s.energy_sleep_threshold = inf();
    s.sleep_time_threshold = zero();
    let dirs: Vec<Vec3> = if star { (0..n - 1).map(|i| mul(&axis(i % 3), num(if i < 3 { 1.0 } else { -1.0 }))).collect() } else { (0..7).map(|i| axis(i % 3)).collect() };
    let mut places = vec![Vec3::zeros()];
    for d in &dirs { let from = if star { Vec3::zeros() } else { *places.last().unwrap() }; places.push(add(&from, d)); }
    // all come to the first or to the one before at the same time
    let mut hs = vec![EntityHandle::from_raw_parts(0, 0); n];
    for i in 0..n {
        let i = if shape == 3 { n - 1 - i } else { i };
        let v = if i == 0 { Vec3::zeros() } else { mul(&dirs[i - 1], num(-0.5)) };
        let mut b = Ball::new(num(0.5), sub(&places[i], &mul(&v, num(0.25))), v);
        b.e = zero();
        b.mass = match i { 0 if shape == 1 => inf(), 2 => m1, 5 => m2, _ => one() };
        hs[i] = b.put(&mut s);
    }
    s.step(one());
    cx.check("all fall asleep", boolean(hs.iter().all(|&h| asleep(&s, h)) && s.collision_records.len() == n - 1));
    s.energy_sleep_threshold = -inf();
    s.step(num(0.25));
    cx.check("they rest", boolean(hs.iter().all(|&h| asleep(&s, h)) && s.collision_records.is_empty()));
    for (&h, p) in hs.iter().zip(&places) { cx.check("they rest where they met", veq(&ent(&s, h).position, p)); }
    let at = cx.int("at", n);
    let gone = cx.int("gone", 2) == 1;
    if gone { cx.check("it is removed", boolean(s.remove_entity(hs[at]))); }
    else {
        let mut e = ent(&s, hs[at]);
        e.velocity = v3(0.0, 0.125, 0.0);
        cx.check("the update is accepted", boolean(s.update_entity(hs[at], e).is_ok()));
    }
    cx.reached("judged");
    for i in 0..n {
        if gone && i == at { continue; }
        // what rests on something infinitely heavy does not wake others there
        let wakes = if shape != 1 { true } else { at == 0 || (i == at && !gone) };
        cx.check(if wakes { "those that rest on each other wake together" } else { "others sleep on" }, boolean(asleep(&s, hs[i]) != wakes));
    }
}
fn asleep(s: &PhysicsSystem, h: EntityHandle) -> bool { ent(s, h).was_asleep() }

fn spinner(cx: &mut Cx) {
    let n = [1, 5][cx.int("pairs", 2)];
    let m = frame_of([6, 2, 5][cx.int("axis", 3)])[0];
    let (w, v) = (cx.real("w", 0.25, 2.0), vec(cx, "v", -4.0, 4.0));
    let (p, c) = (v3(0.0, -50.0, 0.0), v3(0.5, -1.0, 0.25));
    let when = cx.int("put", 3);
    let off = when == 1;
    let mut s = awake(8);
    let body = |s: &mut PhysicsSystem| {
        let h = s.add_entity(made(&p, &Vec3::zeros(), &v, &mul(&m, w), one())).unwrap();
        if off { lump(s, h, num(2.0), &c, &scalar(num(1.5))); }
        h
    };
    let mut h = None;
    let times = [0.25, 0.5, 0.75, 1.25, 1.375];
    for i in 0..n {
        if i == [0, n / 2, n][when] { h = Some(body(&mut s)); }
        let a = v3(0.0, 16.0 * i as f64, 0.0);
        let u = v3(2.0, 0.0, 0.0);
        Ball::new(num(0.5), before(&a, &u, num(times[i])), u).put(&mut s);
        Ball::new(num(0.5), add(&a, &v3(1.0, 0.0, 0.0)), Vec3::zeros()).put(&mut s);
    }
    let h = h.unwrap_or_else(|| body(&mut s));
    go(&mut s, num(1.5));
    cx.reached("judged");
    cx.check("every pair meets", boolean(s.collision_records.len() == n));
    let mut axes = [axis(0), axis(1), axis(2)];
    let mut last = 0.0;
    for t in times[..n].iter().chain([1.5].iter()) {
        let (sin, cos) = (w * num((t - last) * 0.5)).sin_cos();
        for a in axes.iter_mut() { *a = turned(a, &m, sin, cos); }
        last = *t;
    }
    let e = ent(&s, h);
    let o = e.get_last_orientation();
    let heart = if off { c } else { Vec3::zeros() };
    for i in 0..3 { cx.check("it turns by spin times time", veq(&o.direction_into_world(&axis(i)), &axes[i])); }
    cx.check("it moves by velocity times time", veq(&e.position, &add(&add(&p, &heart), &mul(&v, num(1.5)))));
    cx.check("it keeps its velocities", veq(&e.velocity, &v).and(veq(&e.angular_velocity, &mul(&m, w))));
}
