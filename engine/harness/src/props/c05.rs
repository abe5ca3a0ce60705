use crate::kit::*;
use super::scenes::*;

pub fn register(v: &mut Vec<Harness>) {
    v.push(Harness { prop: "C05", name: "c05_contact", run: |cx| { let s = sphere_sphere(cx, FREE); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "long ago"],
        about: "two spheres placed by their contact: every time of contact, direction of the normal, approaching relative velocity and pair of radii",
        bounds: "contact at a time in [-2,3] of a step of length dt in [1/4,2], relative velocity in [-8,8]^3 approaching with at least 1/8, radii in [1/8,2], seven normals" });
    v.push(Harness { prop: "C05", name: "c05_any", run: |cx| { let s = sphere_sphere(cx, ANY); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "long ago"],
        about: "the same for every direction of the normal (by stereographic projection)",
        bounds: "as c05_contact with the velocity of the second sphere and the place fixed and a step of length 1" });
    v.push(Harness { prop: "C05", name: "c05_spin1", run: |cx| { let s = lever_sphere(cx, false); exact(cx, s) }, thorough: false, reach: &["hit", "too late"],
        about: "the first sphere is off the centre of mass of a turning body: the straight line between its start and its end decides", bounds: "turn by up to 3 about the normal, lever in [-2,2]^2, contact at a time in [0,3], radii in [1/8,2], seven normals" });
    v.push(Harness { prop: "C05", name: "c05_spin2", run: |cx| { let s = lever_sphere(cx, true); exact(cx, s) }, thorough: false, reach: &["hit", "too late"],
        about: "the second sphere is off the centre of mass of a turning body", bounds: "as c05_spin1" });
    v.push(Harness { prop: "C05", name: "c05_units", run: |cx| other_units(cx, |cx| { let s = sphere_sphere(cx, FREE); exact(cx, s) }), thorough: false, reach: &["hit", "too late", "long ago"],
        about: "two spheres", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c05_contact" });
    v.push(Harness { prop: "C05", name: "c05_miss", run: miss, thorough: false, reach: &["miss"],
        about: "two spheres placed by their closest approach: every distance beyond the sum of the radii, every time of closest approach",
        bounds: "closest approach at a time in [-2,3], gap in [1/64,4], seven directions, velocities in [-8,8]^3" });
}

fn miss(cx: &mut Cx) {
    let f = frame(cx, "n");
    let dt = cx.real("dt", 0.25, 2.0);
    let v2 = vec(cx, "v2", -4.0, 4.0);
    let c1 = vec(cx, "c1", -4.0, 4.0);
    let t = cx.real("t", -2.0, 3.0);
    let slip = cx.real("slip", -8.0, 8.0);
    let slip2 = cx.real("slip2", -8.0, 8.0);
    let r1 = cx.real("r1", 0.125, 2.0);
    let r2 = cx.real("r2", 0.125, 2.0);
    let gap = cx.real("gap", 0.015625, 4.0);
    let v1 = add(&v2, &inframe(&f, zero(), slip, slip2));
    let c2 = add(&c1, &mul(&f[0], r1 + r2 + gap));
    let p1 = sub(&c1, &mul(&v1, t));
    let p2 = sub(&c2, &mul(&v2, t));
    let mut s = awake(1);
    let a = Ball::new(r1, p1, v1).put(&mut s);
    let b = Ball::new(r2, p2, v2).put(&mut s);
    go(&mut s, dt);
    cx.reached("miss");
    cx.check("spheres that stay apart do not collide", boolean(s.collision_records.is_empty()));
    cx.check("free motion of the first", veq(&ent(&s, a).position, &add(&p1, &mul(&v1, dt))));
    cx.check("free motion of the second", veq(&ent(&s, b).position, &add(&p2, &mul(&v2, dt))));
    cx.check("the first keeps its velocity", veq(&ent(&s, a).velocity, &v1));
    cx.check("the second keeps its velocity", veq(&ent(&s, b).velocity, &v2));
}
