use crate::kit::*;
use super::scenes::*;

pub fn register(v: &mut Vec<Harness>) {
    v.push(Harness { prop: "C06", name: "c06_contact", run: |cx| { let s = sphere_plane(cx, FREE); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "deep"],
        about: "a sphere and a plane placed by their contact: every time of contact (also before the step: a start in or behind the plane), both moving",
        bounds: "contact at a time in [-2,3] of a step of length dt in [1/4,2], relative velocity in [-8,8]^3 approaching with at least 1/8, radius in [1/8,2], seven normals" });
    v.push(Harness { prop: "C06", name: "c06_any", run: |cx| { let s = sphere_plane(cx, ANY); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "deep"],
        about: "the same for every direction of the normal (by stereographic projection)", bounds: "as c06_contact with the velocity of the plane and the place fixed and a step of length 1" });
    v.push(Harness { prop: "C06", name: "c06_units", run: |cx| other_units(cx, |cx| { let s = sphere_plane(cx, FREE); exact(cx, s) }), thorough: false, reach: &["hit", "too late", "deep"],
        about: "a sphere and a plane", bounds: "in three other units: lengths times 64 or 1/2, masses times 1024 or 1/1024, times times 1/16 or 256; otherwise as c06_contact" });
    v.push(Harness { prop: "C06", name: "c06_clear", run: clear, thorough: false, reach: &["clear"],
        about: "a sphere that keeps clear of the plane: receding, sliding along it, or arriving too late; with a normal of any length", bounds: "height in [1/64,8], velocities in [-8,8]^3, dt in [1/4,2], normal length in [1/8,4]" });
    v.push(Harness { prop: "C06", name: "c06_leaving", run: leaving, thorough: false, reach: &["leaving"],
        about: "a sphere that starts in or behind the plane and moves out of it is not reported", bounds: "height in [-8,0], velocities in [-8,8]^3, dt in [1/4,2]" });
    v.push(Harness { prop: "C06", name: "c06_spin", run: spin, thorough: false, reach: &["hit", "too late"],
        about: "a sphere off the centre of mass of a body that turns by half a turn or a rational angle: the straight line between its start and its end decides", bounds: "contact at a time in [0,2], radius in [1/8,2], three turns, seven normals" });
    v.push(Harness { prop: "C06", name: "c06_offset", run: |cx| { let s = offset(cx); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "deep"],
        about: "a plane away from the origin of its entity, which is turned about the normal and turns on; its normal of any length; given at once or by an update", bounds: "contact at a time in [-2,3], offset in [-4,4] along the normal, normal length in [1/8,4], turn in [1/4,5/2] before or during the step, three normals" });
    v.push(Harness { prop: "C06", name: "c06_deep", run: |cx| { let s = deep(cx); exact(cx, s) }, thorough: false, reach: &["hit", "too late", "deep"],
        about: "a sphere far above or far behind the plane", bounds: "contact at a time in [-1000,3], approach in [1/8,64], radius in [1/16,16], three normals" });
}
fn offset(cx: &mut Cx) -> Scene {
    let f = frame_few(cx, "n");
    let t = cx.real("t", -2.0, 3.0);
    let r = num(0.5);
    let rel = inframe(&f, cx.real("speed", 0.125, 8.0), cx.real("slip", -8.0, 8.0), num(0.5));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&f[0], r));
    let off = inframe(&f, cx.real("off1", -4.0, 4.0), num(0.75), num(-1.5));
    let (w, k) = (cx.real("turn", 0.25, 2.5), cx.real("k", 0.125, 4.0));
    let spin = cx.int("spin", 2) == 1;
    let cb = add(&x, &inframe(&f, zero(), num(3.0), num(1.5)));
    let cb = if spin { sub(&cb, &off) } else { let (s, c) = (w * num(0.5)).sin_cos(); sub(&cb, &turned(&off, &f[0], s, c)) };
    // an infinite plane has no centre of mass, so its entity turns about its origin
    let mut p = Wall { vel: vb, ..Wall::new(before(&cb, &vb, t), mul(&f[0], -k)) };
    p.offset = off; p.own = inf(); p.mass = zero();
    if spin { p.spin = mul(&f[0], w); } else { p.rot = mul(&f[0], w); }
    p.later = cx.int("later", 2) == 1;
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(p), t, dt: one(), x, n: f[0], ca: c1, cb, va, vb, deep: true }
}
fn deep(cx: &mut Cx) -> Scene {
    let f = frame_few(cx, "n");
    let t = cx.real("t", -1000.0, 3.0);
    let r = cx.real("r1", 0.0625, 16.0);
    let rel = inframe(&f, cx.real("speed", 0.125, 64.0), cx.real("slip", -64.0, 64.0), num(0.5));
    let vb = v3(0.25, -0.5, 1.0);
    let va = add(&vb, &rel);
    let c1 = v3(0.5, -1.0, 0.25);
    let x = add(&c1, &mul(&f[0], r));
    let cb = add(&x, &inframe(&f, zero(), num(3.0), num(1.5)));
    let p = Wall { vel: vb, ..Wall::new(before(&cb, &vb, t), mul(&f[0], num(-1.0))) };
    Scene { a: Box::new(Ball::new(r, before(&c1, &va, t), va)), b: Box::new(p), t, dt: one(), x, n: f[0], ca: c1, cb, va, vb, deep: true }
}
fn clear(cx: &mut Cx) {
    let f = frame(cx, "n");
    let dt = cx.real("dt", 0.25, 2.0);
    let r = cx.real("r1", 0.125, 2.0);
    let h = cx.real("h", 0.015625, 8.0);
    let k = cx.real("k", 0.125, 4.0);
    let va = inframe(&f, cx.real("v", -8.0, 8.0), cx.real("slip", -8.0, 8.0), cx.real("slip2", -8.0, 8.0));
    let vb = vec(cx, "v2", -4.0, 4.0);
    cx.assume(lt(dot(&sub(&va, &vb), &f[0]) * dt, h));
    let x = v3(0.5, -1.0, 0.25);
    let mut s = awake(1);
    let a = Ball::new(r, sub(&x, &mul(&f[0], r + h)), va).put(&mut s);
    let b = Wall { vel: vb, ..Wall::new(add(&x, &f[1]), mul(&f[0], -k)) }.put(&mut s);
    go(&mut s, dt);
    cx.reached("clear");
    cx.check("a sphere that stays clear is not reported", boolean(s.collision_records.is_empty()));
    cx.check("free motion of the sphere", veq(&ent(&s, a).position, &add(&sub(&x, &mul(&f[0], r + h)), &mul(&va, dt))));
    cx.check("free motion of the plane", veq(&ent(&s, b).position, &add(&add(&x, &f[1]), &mul(&vb, dt))));
}
fn leaving(cx: &mut Cx) {
    let f = frame(cx, "n");
    let dt = cx.real("dt", 0.25, 2.0);
    let r = cx.real("r1", 0.125, 2.0);
    let h = cx.real("h", -8.0, 0.0);
    let va = inframe(&f, -cx.real("v", 0.0, 8.0), cx.real("slip", -8.0, 8.0), cx.real("slip2", -8.0, 8.0));
    let x = v3(0.5, -1.0, 0.25);
    let mut s = awake(1);
    let start = sub(&x, &mul(&f[0], r + h));
    let a = Ball::new(r, start, va).put(&mut s);
    Wall::new(add(&x, &f[1]), mul(&f[0], num(-1.0))).put(&mut s);
    go(&mut s, dt);
    cx.reached("leaving");
    cx.check("a sphere that moves out of the plane is not reported", boolean(s.collision_records.is_empty()));
    cx.check("free motion of the sphere", veq(&ent(&s, a).position, &add(&start, &mul(&va, dt))));
    cx.check("it keeps its velocity", veq(&ent(&s, a).velocity, &va));
}
fn spin(cx: &mut Cx) { let s = lever_plane(cx); exact(cx, s) }
