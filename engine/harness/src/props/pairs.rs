//! The same pair of bodies run twice: in both orders (C10), and elsewhere or with another velocity (C25).
use crate::kit::*;
use super::impact;
use super::meshes::{land, poke, Low};
use super::scenes::*;
use super::touch::{touch, At, Kind, Way};

pub fn register(v: &mut Vec<Harness>) {
    macro_rules! add { ($p:expr, $n:expr, $judge:expr, $scene:expr, $t:expr, $r:expr, $about:expr, $b:expr) => { v.push(Harness { prop: $p, name: $n, run: |cx| { let s = $scene(cx); $judge(cx, s) }, thorough: $t, reach: $r, about: $about, bounds: $b }); } }
    macro_rules! both { ($k:expr, $scene:expr, $t:expr, $about:expr, $b:expr) => { both!($k, $scene, $t, &["hit", "no hit"], $about, $b) }; ($k:expr, $scene:expr, $t:expr, $r:expr, $about:expr, $b:expr) => {
        add!("C10", concat!("c10_", $k), order, $scene, $t, $r, $about, $b);
        add!("C25", concat!("c25_", $k), shift, $scene, $t, $r, $about, concat!($b, "; moved by any vector in [-64,64]^3 and made faster by any in [-8,8]^3"));
    } }
    both!("spheres", |cx: &mut Cx| sphere_sphere(cx, FIXED), false, "two spheres", "contact at a time in [-2,3] of a step of length 1, radii in [1/8,2], approach in [1/8,8], sliding in [-8,8]^2, seven turned frames");
    both!("plane", |cx: &mut Cx| sphere_plane(cx, FIXED), false, "a sphere and a plane", "contact at a time in [-2,3] of a step of length 1, radius in [1/8,2], approach in [1/8,8], sliding in [-8,8]^2, seven turned frames");
    both!("friction", |cx: &mut Cx| rough(cx, false), false, &["hit"], "two spinning spheres with restitution and friction", "contact at a time in [1/16,15/16], masses in [1/4,8], approach in [1/8,8], sliding in [-8,8], coefficients in [0,1], seven turned frames");
    both!("plane_friction", |cx: &mut Cx| rough(cx, true), false, &["hit"], "a spinning sphere and a plane with restitution and friction", "contact at a time in [1/16,15/16], mass in [1/4,8], approach in [1/8,8], sliding in [-8,8], coefficients in [0,1], seven turned frames");
    both!("lever", |cx: &mut Cx| lever_plane(cx), false, "a sphere on a turning lever and a plane", "contact at a time in [1/16,3/2], radius in [1/8,2], speed in [1/8,8], sliding in [-8,8], spin in [1/4,2], seven turned frames");
    both!("levers", |cx: &mut Cx| { let second = cx.int("second", 2) == 1; lever_sphere(cx, second) }, false, "a sphere on a turning lever and a sphere", "contact at a time in [1/16,3/2], radii in [1/8,2], speed in [1/8,8], spin in [1/4,2], seven turned frames");
    both!("mesh", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Tri, at, Way::Plain) }, false, "a sphere and a triangle", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, three places, three turned frames");
    both!("solid", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Solid, at, Way::Plain) }, false, "a sphere and a closed mesh", "contact with face, edge or corner at a time in [1/16,3/2]; straight approach, three places");
    both!("solid_aslant", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Solid, at, Way::Few) }, true, "a sphere and a closed mesh", "contact with face, edge or corner at a time in [1/16,3/2], aslant");
    both!("box", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Box, at, Way::Plain) }, false, "a sphere and a box", "contact with face, edge or corner at a time in [1/16,3/2]; straight approach, three places");
    both!("box_aslant", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; touch(cx, Kind::Box, at, Way::Few) }, true, "a sphere and a box", "contact with face, edge or corner at a time in [1/16,3/2], aslant");
    both!("turned", |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let kind = [Kind::Tri, Kind::Box][cx.int("kind", 2)]; touch(cx, kind, at, Way::Turned) }, false, "a sphere and a turned triangle or box", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, the body turned by [1/4,5/2] about one of three axes");
    both!("land", |cx: &mut Cx| { let low = [Low::Vertex, Low::Edge, Low::Face, Low::Square, Low::Flat][cx.int("low", 5)]; land(cx, low, false) }, false, "a mesh and a plane", "landing on a vertex, an edge or a face at a time in [-2,3], approach in [1/8,8], sliding in [-8,8], seven turned frames");
    both!("poke", |cx: &mut Cx| poke(cx, false, false, false), false, "two triangles, corner into face", "contact at a time in [1/16,3/2], three turned frames");
    both!("pokes", |cx: &mut Cx| poke(cx, true, true, false), false, "two closed meshes, corner into face", "contact at a time in [1/16,3/2], three turned frames");
    macro_rules! afar { ($k:expr, $n:expr, $scene:expr, $r:expr, $about:expr, $b:expr) => { add!("C25", concat!("c25_", $k, "_afar"), |cx: &mut Cx, sc: Scene| shift_far(cx, sc, $n), $scene, false, $r, $about, concat!($b, "; moved by one of a few vectors of up to 640 and made faster by one of a few of up to 96")); } }
    afar!("spheres", 7, |cx: &mut Cx| sphere_sphere(cx, FIXED), &["hit", "no hit"], "two spheres, far away or fast", "contact at a time in [-2,3] of a step of length 1, radii in [1/8,2], approach in [1/8,8], sliding in [-8,8]^2, seven turned frames");
    afar!("spin", 7, |cx: &mut Cx| rough(cx, false), &["hit"], "two spinning spheres with restitution and friction, far away or fast", "contact at a time in [1/16,15/16], masses in [1/4,8], approach in [1/8,8], sliding in [-8,8], coefficients in [0,1], seven turned frames");
    v.push(Harness { prop: "C25", name: "c25_response_afar", run: response, thorough: false, reach: &["judged"], about: "two spinning bodies touch away from their centres of mass, far away or fast", bounds: "speed in [1/8,8], sliding in [1/8,8], spin in [1/8,2], restitution and friction coefficients in [0,1], in three turned frames; moved by one of two vectors of up to 640 and made faster by one of two of up to 74" });
    afar!("lever", 7, |cx: &mut Cx| lever_plane(cx), &["hit", "no hit"], "a sphere on a turning lever and a plane, far away or fast", "contact at a time in [1/16,3/2], radius in [1/8,2], speed in [1/8,8], sliding in [-8,8], spin in [1/4,2], seven turned frames");
    afar!("touch", 2, |cx: &mut Cx| { let at = [At::Face, At::Edge, At::Corner][cx.int("feature", 3)]; let kind = [Kind::Tri, Kind::Solid, Kind::Box][cx.int("kind", 3)]; touch(cx, kind, at, Way::Plain) }, &["hit", "no hit"], "a sphere and a triangle, closed mesh or box, far away or fast", "contact with face, edge or corner at a time in [1/16,3/2], straight approach, three places");
    afar!("land", 3, |cx: &mut Cx| { let low = [Low::Vertex, Low::Edge, Low::Face, Low::Square, Low::Flat][cx.int("low", 5)]; land(cx, low, false) }, &["hit", "no hit"], "a mesh and a plane, far away or fast", "landing on a vertex, an edge or a face at a time in [-2,3], approach in [1/8,8], sliding in [-8,8], seven turned frames");
    afar!("pokes", 2, |cx: &mut Cx| poke(cx, true, true, false), &["hit", "no hit"], "two closed meshes, corner into face, far away or fast", "contact at a time in [1/16,3/2], three turned frames");
}

/// Bodies that bounce, slide and spin.
fn rough(cx: &mut Cx, plane: bool) -> Scene {
    let f = frame(cx, "n");
    let t = cx.real("t", 0.0625, 0.9375);
    let (r1, r2) = (num(0.5), num(0.75));
    let vb = v3(0.25, -0.5, 1.0);
    let (speed, slip) = (cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0));
    let va = add(&vb, &inframe(&f, speed, slip, num(0.5)));
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&f[0], r1));
    let mut a = Ball::new(r1, before(&c1, &va, t), va);
    a.mass = cx.real("m1", 0.25, 8.0); a.e = cx.real("e1", 0.0, 1.0); a.st = cx.real("st", 0.0, 1.0); a.dy = cx.real("dy", 0.0, 1.0); a.thr = num(0.75);
    a.spin = mul(&f[0], num(0.5));
    if plane {
        let cb = sub(&add(&x, &mul(&f[1], num(1.5))), &aside());
        let mut w = Wall { vel: vb, offset: aside(), ..Wall::new(before(&cb, &vb, t), mul(&f[0], num(-1.0))) };
        w.e = num(0.5); w.st = one(); w.dy = num(0.5); w.thr = num(0.5);
        return Scene { a: Box::new(a), b: Box::new(w), t, dt: one(), x, n: f[0], ca: c1, cb, va, vb, deep: true };
    }
    let cb = add(&x, &mul(&f[0], r2));
    let mut b = Ball::new(r2, before(&cb, &vb, t), vb);
    b.mass = cx.real("m2", 0.25, 8.0); b.e = num(0.5); b.st = one(); b.dy = num(0.5); b.thr = num(0.5);
    b.spin = mul(&f[0], num(-0.25));
    Scene { a: Box::new(a), b: Box::new(b), t, dt: one(), x, n: f[0], ca: c1, cb, va, vb, deep: false }
}

struct Outcome { s: PhysicsSystem, a: EntityHandle, b: EntityHandle }
fn run(a: &dyn Put, b: &dyn Put, dt: F, flip: bool) -> Outcome {
    let mut s = awake(1);
    let (a, b) = if flip { let b = b.put(&mut s); (a.put(&mut s), b) } else { let a = a.put(&mut s); (a, b.put(&mut s)) };
    s.step(dt);
    Outcome { s, a, b }
}
/// Judges that the two runs agree but for a shift of places and velocities.
fn agree(cx: &mut Cx, dt: F, p: &Outcome, q: &Outcome, by: &Vec3, faster: &Vec3, flip: bool) {
    let same = p.s.collision_records.len() == q.s.collision_records.len();
    cx.check("the same number of collisions", boolean(same));
    if !same { return; }
    let mut at = dt;
    if p.s.collision_records.is_empty() { cx.reached("no hit"); } else {
        cx.reached("hit");
        let (r, o) = (&p.s.collision_records[0], &q.s.collision_records[0]);
        at = r.time;
        cx.check("same time", eq(r.time, o.time));
        cx.check("same place", veq(&add(&r.position, &add(by, &mul(faster, at))), &o.position));
        cx.check("same normal but for its side", veq(&r.normal, &mul(&o.normal, if flip { num(-1.0) } else { one() })));
        cx.check("same restitution and impulse", eq(r.restitution_coefficient, o.restitution_coefficient).and(eq(r.impulse_magnitude, o.impulse_magnitude)));
        cx.check("roles", boolean(if !flip && r.first_entity == p.b { r.second_entity == p.a && o.first_entity == q.b && o.second_entity == q.a } else { r.first_entity == p.a && r.second_entity == p.b && if flip { o.first_entity == q.b && o.second_entity == q.a } else { o.first_entity == q.a && o.second_entity == q.b } }));
    }
    for (x, y, names) in [(p.a, q.a, ["first: same position", "first: same rotation", "first: same velocity", "first: same spin"]), (p.b, q.b, ["second: same position", "second: same rotation", "second: same velocity", "second: same spin"])] {
        let (x, y) = (ent(&p.s, x), ent(&q.s, y));
        cx.check(names[0], veq(&add(&x.position, &add(by, &mul(faster, at))), &y.position));
        cx.check(names[1], veq(&x.rotation, &y.rotation));
        cx.check(names[2], veq(&add(&x.velocity, faster), &y.velocity));
        cx.check(names[3], veq(&x.angular_velocity, &y.angular_velocity));
    }
}
fn order(cx: &mut Cx, sc: Scene) {
    let p = run(&*sc.a, &*sc.b, sc.dt, false);
    let q = run(&*sc.a, &*sc.b, sc.dt, true);
    agree(cx, sc.dt, &p, &q, &Vec3::zeros(), &Vec3::zeros(), true);
}
fn shift(cx: &mut Cx, sc: Scene) {
    let (by, faster) = (vec(cx, "by", -64.0, 64.0), vec(cx, "faster", -8.0, 8.0));
    let p = run(&*sc.a, &*sc.b, sc.dt, false);
    let q = run(&*sc.a.moved(&by, &faster), &*sc.b.moved(&by, &faster), sc.dt, false);
    agree(cx, sc.dt, &p, &q, &by, &faster, false);
}
/// The vectors are fixed: a change of what happens far away needs no more from the solver than the scene does.
fn shift_far(cx: &mut Cx, sc: Scene, n: usize) {
    let (by, faster, _) = afar(cx, n);
    let p = run(&*sc.a, &*sc.b, sc.dt, false);
    let q = run(&*sc.a.moved(&by, &faster), &*sc.b.moved(&by, &faster), sc.dt, false);
    agree(cx, sc.dt, &p, &q, &by, &faster, false);
}
fn response(cx: &mut Cx) {
    let l = impact::arms(cx, false, true);
    let (by, faster, at) = afar(cx, 2);
    let (s, a, b) = l.put(&Vec3::zeros());
    let mut p = Outcome { s, a, b };
    let (s, a, b) = { let _away = away(at); l.put(&faster) };
    let mut q = Outcome { s, a, b };
    p.s.step(one());
    q.s.step(one());
    if !p.s.collision_records.is_empty() { cx.reached("judged"); }
    agree(cx, one(), &p, &q, &by, &faster, false);
}
fn afar(cx: &mut Cx, n: usize) -> (Vec3, Vec3, [f64; 3]) {
    let k = cx.int("far", n);
    let at = [[64.0, 96.0, 512.0], [0.0, -640.0, 0.0], [128.0, 0.0, 0.0], [0.0; 3], [-512.0, -320.0, -16.0], [0.0, 8.0, -96.0], [-24.0, 0.0, 0.0]][k];
    let faster = [v3(64.0, -32.0, 16.0), v3(0.0, 24.0, 0.0), Vec3::zeros(), v3(-8.0, 8.0, -96.0), Vec3::zeros(), v3(-48.0, 0.0, 0.0), Vec3::zeros()][k];
    (v3(at[0], at[1], at[2]), faster, at)
}
