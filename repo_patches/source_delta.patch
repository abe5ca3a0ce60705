From 4db56a48997c85211fa944e1be6485b73f97d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 01/28] fix: unlink a removed collider from its entity before
 recalculating its mass

---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..710de6e 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,12 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		let removed = self.colliders.borrow_mut().remove(handle);
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 81ffcb696ea7433d6d46347bd9519fc10cdb1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 02/28] fix: wake whatever rests on a removed entity instead of
 keeping its stale handle

---
 src/physics_system.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 710de6e..b64b652 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -94,6 +94,18 @@ impl PhysicsSystem {
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
+			// Nothing can rest against it anymore, so wake up whatever did.
+			let mut entities = self.entities.borrow_mut();
+			let mut resting = Vec::new();
+			for (other_handle, other) in entities.iter_mut() {
+				if other.neighbors.remove(&handle) && other.get_total_mass().is_finite() {
+					resting.push(other_handle);
+				}
+			}
+			for other_handle in resting {
+				InternalEntity::wake_up(other_handle, &mut entities, &mut self.debug);
+			}
+			drop(entities);
 			// Also remove all associated colliders.
 			for collider in entity.colliders {
 				self.remove_collider(collider);
-- 
2.43.0


From 575d7237996f043646e6075481858f90c6921d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 03/28] fix: normalize the normal when updating a plane
 collider

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From 5c81b575906f104fe78c7a24a633c1ae3f12b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 04/28] fix: use the squared radius in the moment of inertia of
 a sphere

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From c0ea5972d99921bda05b99ad52e21ea8a421671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 05/28] fix: take the position of an aligned box into account
 when colliding spheres with it

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..a283f3e 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From fdf24df5449e8ab69a1718d356772303bb63932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 06/28] fix: accept the corners of an aligned box in either
 order, as documented

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..5f8c0d2 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -218,7 +218,7 @@ impl AlignedBoxCollider {
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
 		let size = self.max_corner - self.min_corner;
-		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
+		EPSILON < size.x.abs() && EPSILON < size.y.abs() && EPSILON < size.z.abs() && 0.0 <= self.mass
 	}
 }
 
-- 
2.43.0


From 453f7ae8a41c99e65b8e078909e3f928ede8f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 07/28] fix: point collision normals of spheres from where the
 center is at the time of the hit

---
 src/collision.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a283f3e..385b246 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,11 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
-		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
-			(center2 + movement2.scale(times.min())) * radius1
-		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let hit_center1 = center1 + movement1.scale(times.min());
+		let hit_center2 = center2 + movement2.scale(times.min());
+		let position = (hit_center1 * radius2 + hit_center2 * radius1).scale(1.0 / radius);
+		// Concentric spheres have no line of centers to respond along, so they can't be handled until they've moved apart a bit.
+		let normal = (hit_center2 - hit_center1).try_normalize(EPSILON)?;
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +334,8 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		// If the center is on the line, then there's no direction to respond along.
+		let normal = (position - center_position).try_normalize(EPSILON)?;
 		Some(Collision {
 			times,
 			position,
@@ -377,7 +378,8 @@ pub fn collide_sphere_with_polygon_surface(radius1: f32, center1: &Vec3, movemen
 		let total_plane_movement = movement2.scale(times.min());
 		let plane_hit_position = plane_start_position + total_plane_movement;
 		let hit_position = sphere_hit_position - normal.scale((sphere_hit_position - plane_hit_position).dot(&normal));
-		let normal = (hit_position - sphere_hit_position).normalize();
+		// Fall back to the polygon's own normal if the center is already on the plane.
+		let normal = (hit_position - sphere_hit_position).try_normalize(EPSILON).unwrap_or(normal);
 		// Then verify the hit_position is in the polygon.
 		let mut expected_sign : f32 = 0.0;
 		for index in 0..corners2.len() {
-- 
2.43.0


From 5215d58cb97bf8431a337399e680adb761cf6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:42 +0000
Subject: [PATCH 08/28] fix: check for hits between the ends of a line segment
 without an absolute tolerance

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 385b246..ffa5f39 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -350,10 +350,10 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 pub fn collide_sphere_with_mid_line_segment(radius1 : f32, center1: &Vec3, movement1 : &Vec3, start2 : &Vec3, end2 : &Vec3, movement2 : &Vec3) -> Option<Collision> {
 	let length = end2 - start2;
 	if let Some(hit) = collide_sphere_with_line(radius1, center1, movement1, start2, &length, movement2) {
-		let hit_movement = movement2.scale(hit.times.min());
-		let hit_start = start2 + hit_movement;
-		let hit_end = end2 + hit_movement;
-		if (((hit_start - hit.position).magnitude() + (hit_end - hit.position).magnitude()) - length.magnitude()).abs() < EPSILON {
+		// The hit position is always on the line, so only need to check that it's between the end points.
+		let hit_start = start2 + movement2.scale(hit.times.min());
+		let along = (hit.position - hit_start).dot(&length);
+		if 0.0 <= along && along <= length.dot(&length) {
 			Some(hit)
 		} else { None }
 	} else { None }
-- 
2.43.0


From df2125dc617cb11f96a6573097a38f12ac0b0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 09/28] fix: find the lowest vertices of a mesh that is
 parallel to the plane it hits

---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index ffa5f39..60514f9 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -523,11 +523,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From bb875739396e6d97cfb26d00e0604603fdd9a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 10/28] fix: do not scale the torque of a force by the moment
 of inertia

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index b64b652..c297748 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -375,7 +375,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From 321d3ad55586f1569a1e0ced48acf7b24327a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 11/28] fix: keep the neighbors that already rest on an entity
 when it falls asleep

---
 src/physics_system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index c297748..e9068aa 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -683,7 +683,8 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
+				// Entities that fell asleep against this one earlier in this loop (or in a previous step) have already been added, so keep those.
+				entity.neighbors.extend(info.neighbors.iter().cloned());
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
-- 
2.43.0


From a6bba40c69c1e21547ce8d21ad438cfb95a08e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 12/28] fix: refuse entities with a mass that is not a number

---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..ccc8dc5 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -54,7 +54,7 @@ pub struct InternalEntity {
 impl InternalEntity {
 	/// Creates a new instance.
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		Ok(InternalEntity {
 			orientation: source.make_orientation(),
 
@@ -98,7 +98,7 @@ impl InternalEntity {
 
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-- 
2.43.0


From 7a1362b5d8073bc9534261f36366d38f22b069ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 13/28] fix: report a usable energy for entities with infinite
 mass

---
 src/entity.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index ccc8dc5..636a97a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -382,6 +382,14 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
+		if self.last_total_mass.is_infinite() {
+			// Multiplying zeros with the infinite mass would become NaN.
+			if self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON {
+				return 0.0;
+			} else {
+				return INFINITY;
+			}
+		}
 		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
 		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
 		linear_energy + angular_energy
-- 
2.43.0


From f654ba1892804972f89b89b0dccadaf8838705b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 14/28] fix: do not divide by the mass of entities that are
 massless or infinitely massive

---
 src/entity.rs         | 9 ++++++++-
 src/physics_system.rs | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 636a97a..94e05bc 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -181,6 +181,13 @@ impl InternalEntity {
 		self.total_mass
 	}
 
+	/// Gets how strongly the linear velocity of this entity responds to an impulse.
+	///
+	/// This is zero if the total mass is infinite, and also if there is (basically) no mass at all, as there's no usable inverse then.
+	pub fn get_inverse_total_mass(&self) -> f32 {
+		if self.total_mass.is_finite() && EPSILON < self.total_mass { 1.0 / self.total_mass } else { 0.0 }
+	}
+
 	/// Gets the moment of inertia tensor in WORLD space.
 	pub fn get_moment_of_inertia(&self) -> Mat3 {
 		self.orientation.finalize_moment_of_inertia(&self.prepped_moment_of_inertia)
@@ -221,7 +228,7 @@ impl InternalEntity {
 
 	/// Applies an impulse at a (world) position to this instance's linear and angular velocities.
 	pub fn apply_impulse(&mut self, position : &Vec3, impulse : &Vec3) {
-		self.velocity += impulse.scale(1.0 / self.get_total_mass());
+		self.velocity += impulse.scale(self.get_inverse_total_mass());
 		self.angular_velocity += self.get_inverse_moment_of_inertia() * (position - self.orientation.position).cross(&impulse);
 	}
 
diff --git a/src/physics_system.rs b/src/physics_system.rs
index e9068aa..2e3f557 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -442,6 +442,11 @@ impl PhysicsSystem {
 						continue;
 					}
 
+					// If neither entity has a usable mass, then nothing can respond to a collision between them.
+					if first.get_inverse_total_mass() == 0.0 && second.get_inverse_total_mass() == 0.0 {
+						continue;
+					}
+
 					// Then check all colliders between the two entities.
 					for first_collider_handle in first.colliders.iter() {
 						for second_collider_handle in second.colliders.iter() {
@@ -700,8 +705,8 @@ impl PhysicsSystem {
 		let first_offset  = collision.position - first.orientation.position;
 		let second_offset = collision.position - second.orientation.position;
 
-		let first_linear_weight   = 1.0 / first.get_total_mass();
-		let second_linear_weight  = 1.0 / second.get_total_mass();
+		let first_linear_weight   = first.get_inverse_total_mass();
+		let second_linear_weight  = second.get_inverse_total_mass();
 		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
 		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
 		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-- 
2.43.0


From 6469e4af537adab538afff37e43793e5475068f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 15/28] fix: limit friction to the impulse that stops the
 sliding

---
 src/physics_system.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 2e3f557..942ffc5 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -612,12 +612,14 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
-					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
-					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let friction_impulse = if EPSILON < sliding_magnitude {
+						let sliding_direction = sliding / sliding_magnitude;
+						let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &sliding_direction);
+						let max_friction_impulse = sliding_magnitude / denominator; // This is enough to stop the sliding, so never apply more than this.
+						let mut friction_magnitude : f32 = impulse.magnitude() * friction_coefficient;
+						if friction_magnitude > max_friction_impulse { friction_magnitude = max_friction_impulse; }
+						sliding_direction * -friction_magnitude
+					} else { Vec3::zeros() };
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -701,16 +703,17 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	/// Calculates how much the relative velocity at a position changes (along the direction) per unit of impulse along the given (normalized) direction.
+	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = first.get_inverse_total_mass();
 		let second_linear_weight  = second.get_inverse_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -724,7 +727,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From bc0429abf15d77c46ba52aff9a4b42a737b64dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 16/28] fix: interpolate rotations along the turn from the
 start to the end

---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..956d0a7 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -75,10 +75,11 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
+		// NOTE: The rotation vectors themselves can't be interpolated as they jump when going past half a turn.
+		let rotation_delta = (end.rotation * start.rotation.inverse()).scaled_axis();
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			rotation: Quat::from_scaled_axis(rotation_delta * time) * start.rotation,
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 86311ba12f7e24d8174f9c96522b12e6fb4035a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 17/28] fix: judge whether bodies separate by the contact point
 velocity at the time of contact

---
 src/physics_system.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 942ffc5..053c0a4 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -476,8 +476,9 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								// NOTE: Both are still at the start of the movement, so the spins must be applied relative to where the centers of mass will be at the time of contact.
+								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time));
+								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time));
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								if EPSILON > velocity_delta.dot(&collision.normal) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
-- 
2.43.0


From 85494a88471d6d3ef0da0bfe4ce2322c64f2bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 18/28] fix: collide mesh corners with moving faces where the
 faces are at that time

Faces were tested as if they stood still halfway through their movement, so contacts with a moving mesh came at the wrong time and place or not at all.
---
 src/collision.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 60514f9..cf89606 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -681,15 +681,25 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
+			// The check needs a face that stands still, so leave out the face's (average) movement and give the point the opposite of it.
+			let mut face_movement = Vec3::zeros();
+			for index in face {
+				face_movement += (mesh2_points[*index].end - mesh2_points[*index].start) / (face.len() as f32);
+			}
 			face_points.clear();
 			for index in face {
-				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
+				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end - face_movement) / 2.0);
 			}
-			accumulator.consider(collide_point_with_polygon(
+			let mut collision_option = collide_point_with_polygon(
 				&points_info.start,
-				&points_info.end,
+				&(points_info.end - face_movement),
 				&face_points,
-			));
+			);
+			// Then move the result back to where the face really is at that time.
+			if let Some(collision) = &mut collision_option {
+				collision.position += face_movement * collision.times.min();
+			}
+			accumulator.consider(collision_option);
 		}
 	}
 
-- 
2.43.0


From 7dfd49d036ecd103074abd5c8a5986c075c723cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 19/28] fix: refuse mesh faces whose outline crosses itself

The corner-by-corner check let stars through, as each of their corners turns the same way.
---
 src/mesh_collider.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mesh_collider.rs b/src/mesh_collider.rs
index 1348d65..57efea9 100644
--- a/src/mesh_collider.rs
+++ b/src/mesh_collider.rs
@@ -212,6 +212,11 @@ impl MeshCollider {
 			let third  = &points[if index+2 < points.len() { index+2 } else { index+2 - points.len() }];
 			let current_normal = (second - first).cross(&(third - first)).normalize();
 			assert!((current_normal.dot(&normal) - 1.0).abs() < EPSILON, "Points not coplanar or not convex.");
+			// Every other point must be on the inner side of this edge, otherwise the outline crosses itself.
+			for offset in 2..points.len() {
+				let other = &points[(index + offset) % points.len()];
+				assert!((second - first).cross(&(other - first)).dot(&normal) > 0.0, "Points don't go around a convex outline just once.");
+			}
 		}
 		// TODO: Could try deduplicating faces too...
 		// TODO: Could also try merging faces if on same plane and sharing edges... Though that's fairly non-trivial.
-- 
2.43.0


From 758d6d5f2d0948cd8df8ab22fd7feb7d5f623d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 20/28] fix: do not let hits spin entities whose own mass is
 infinite

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 94e05bc..37addec 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -193,8 +193,9 @@ impl InternalEntity {
 		self.orientation.finalize_moment_of_inertia(&self.prepped_moment_of_inertia)
 	}
 
-	/// Gets the moment of inertia tensor in WORLD space.
+	/// Gets the inverse moment of inertia tensor in WORLD space. (Zero if the mass is infinite, so it can't be spun.)
 	pub fn get_inverse_moment_of_inertia(&self) -> Mat3 {
+		if self.total_mass.is_infinite() { return Mat3::zeros(); }
 		let moment = self.get_moment_of_inertia();
 		if let Some(inverse) = moment.try_inverse() {
 			inverse
-- 
2.43.0


From 4ad82dbc09eddb5b50e51caa39d38c3dbf899e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 21/28] fix: keep sleeping entities where they lie until a
 collision wakes them

Forces give sleeping entities a planned movement that is only to be carried
out once they wake up. It was used to look for their contacts, and what had
just been woken was moved along it for the time before the collision too.
---
 src/physics_system.rs | 61 +++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 053c0a4..514f563 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -447,6 +447,12 @@ impl PhysicsSystem {
 						continue;
 					}
 
+					// Entities that are asleep don't move until something wakes them up.
+					let first_linear_movement   = if first.asleep  { Vec3::zeros() } else { first_entity_info.linear_movement };
+					let first_angular_movement  = if first.asleep  { Vec3::zeros() } else { first_entity_info.angular_movement };
+					let second_linear_movement  = if second.asleep { Vec3::zeros() } else { second_entity_info.linear_movement };
+					let second_angular_movement = if second.asleep { Vec3::zeros() } else { second_entity_info.angular_movement };
+
 					// Then check all colliders between the two entities.
 					for first_collider_handle in first.colliders.iter() {
 						for second_collider_handle in second.colliders.iter() {
@@ -456,12 +462,12 @@ impl PhysicsSystem {
 
 							let first_start_orientation = first.orientation;
 							let first_end_orientation = first.orientation.after_affected(
-								&first_entity_info.linear_movement, &first_entity_info.angular_movement
+								&first_linear_movement, &first_angular_movement
 							);
 
 							let second_start_orientation = second.orientation;
 							let second_end_orientation = second.orientation.after_affected(
-								&second_entity_info.linear_movement, &second_entity_info.angular_movement
+								&second_linear_movement, &second_angular_movement
 							);
 
 							let collision_option = collide(
@@ -477,8 +483,8 @@ impl PhysicsSystem {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
 								// NOTE: Both are still at the start of the movement, so the spins must be applied relative to where the centers of mass will be at the time of contact.
-								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time));
-								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time));
+								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_linear_movement * time));
+								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_linear_movement * time));
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								if EPSILON > velocity_delta.dot(&collision.normal) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
@@ -504,30 +510,6 @@ impl PhysicsSystem {
 				}
 			}
 
-			// Wake up any entities that should be woken up due to the collision.
-			if let Some(entity_handle) = earliest_collision_first_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-
 			// Re-adjust all of the movements to account for time stepping forward to just before (time_left * earliest_collision).
 			let mut entities = self.entities.borrow_mut();
 			let after_collision_percent = 1.0 - earliest_collision_percent;
@@ -549,6 +531,29 @@ impl PhysicsSystem {
 			}
 			time_left = time_after_collision;
 
+			// Wake up any entities that should be woken up due to the collision.
+			// NOTE: This must not happen earlier, as what was asleep until now has not moved in the time before the collision.
+			if let Some(entity_handle) = earliest_collision_first_entity_handle.clone() {
+				// Don't try to wake up any entities that have infinite mass.
+				let has_finite_mass = {
+					let entity = entities.get(entity_handle).unwrap();
+					entity.get_total_mass().is_finite()
+				};
+				if has_finite_mass {
+					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
+				}
+			}
+			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
+				// Don't try to wake up any entities that have infinite mass.
+				let has_finite_mass = {
+					let entity = entities.get(entity_handle).unwrap();
+					entity.get_total_mass().is_finite()
+				};
+				if has_finite_mass {
+					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
+				}
+			}
+
 			// Then respond to the collision.
 			if let Some(collision) = earliest_collision {
 				println!("Iteration {} -> Found collision with {:?} and {:?}. {} time left.", iteration, earliest_collision_first_entity_handle, earliest_collision_second_entity_handle, time_left);
-- 
2.43.0


From 6688f0c4cc03862fc542a91b550fa68d9ce2d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 22/28] fix: let awake neighbors of sleeping entities collide
 with them again

---
 src/physics_system.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 514f563..4a5b48f 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -433,13 +433,16 @@ impl PhysicsSystem {
 					let second = second_option.unwrap();
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
-					if first.neighbors.contains(&second_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
-						continue;
-					}
-					if second.neighbors.contains(&first_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
-						continue;
+					// That only holds while both sleep: what is awake may have moved on since then, and can come back.
+					if first.asleep && second.asleep {
+						if first.neighbors.contains(&second_entity_info.handle) {
+							println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
+							continue;
+						}
+						if second.neighbors.contains(&first_entity_info.handle) {
+							println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
+							continue;
+						}
 					}
 
 					// If neither entity has a usable mass, then nothing can respond to a collision between them.
-- 
2.43.0


From 9f770ab68c06438866ea6f9b1ed9954a8a9d05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 23/28] fix: clear the velocities of entities when they fall
 asleep

---
 src/physics_system.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 4a5b48f..09738ba 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -703,6 +703,9 @@ impl PhysicsSystem {
 				entity.neighbors.extend(info.neighbors.iter().cloned());
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
+				// It won't move until it's woken up, so it must not be treated as if it still did.
+				entity.velocity = Vec3::zeros();
+				entity.angular_velocity = Vec3::zeros();
 			}
 			// If the entity went to sleep, then add it as a neighbor to the entities it neighbors.
 			for neighbor_handle in &info.neighbors {
-- 
2.43.0


From 386eaa6ab0f7db127f71c54ffcd5863e7ae71ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 24/28] fix: compare rotations, not quaternions, when an update
 says what changed

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 37addec..6049254 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -100,6 +100,8 @@ impl InternalEntity {
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
 		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
+		// A quaternion and its negation are the same rotation, so go with the one closer to the current rotation.
+		let new_rotation = if 0.0 <= new_rotation.coords.dot(&self.orientation.rotation.coords) { new_rotation } else { Quat::new_unchecked(-new_rotation.into_inner()) };
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
 			(new_rotation.i - self.orientation.rotation.i) * (new_rotation.i - self.orientation.rotation.i) +
-- 
2.43.0


From 749a1aaeefae48b3f94cb32fd89b65d87cb804f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:13 +0000
Subject: [PATCH 25/28] fix: leave points on the face out when deciding which
 side a mesh is on

---
 src/collision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index cf89606..d2350e9 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -708,13 +708,14 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 		// Do this once at the end because it's kinda expensive.
 		let mut negate : usize = 0;
 		let mut keep : usize = 0;
+		// Points on the face itself say nothing about which side the mesh is on.
 		for points_info in mesh1_points {
 			let time = collision.times.min();
 			let point = points_info.start * (1.0 - time) + points_info.end * time;
 			let sign = (point - collision.position).dot(&collision.normal);
-			if 0.0 > sign {
+			if -EPSILON > sign {
 				negate += 1;
-			} else {
+			} else if EPSILON < sign {
 				keep += 1;
 			}
 		}
-- 
2.43.0


From cfd56a85126167d362643185b40272c7769e69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:15 +0000
Subject: [PATCH 26/28] fix: don't let mesh features a sphere slides along or
 leaves hide what it hits later

---
 src/collision.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index d2350e9..2675643 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -414,6 +414,10 @@ struct EarliestCollisionAccumulator {
 	earliest : Option<Collision>,
 	/// The time of the current earliest.
 	earliest_time : f32,
+	/// How the first object moves relative to the second one.
+	movement : Vec3,
+	/// Whether the movement goes into the current earliest.
+	earliest_is_ahead : bool,
 }
 
 impl EarliestCollisionAccumulator {
@@ -422,14 +426,30 @@ impl EarliestCollisionAccumulator {
 		EarliestCollisionAccumulator {
 			earliest: None,
 			earliest_time: INFINITY,
+			movement: Vec3::zeros(),
+			earliest_is_ahead: false,
 		}
 	}
 
+	/// Creates a new instance with no earliest set that prefers anything the movement goes into.
+	///
+	/// What is merely slid along (or moved away from) never gets a response, so it must not hide what's hit later on.
+	pub fn new_along(movement : &Vec3) -> EarliestCollisionAccumulator {
+		let mut instance = EarliestCollisionAccumulator::new();
+		instance.movement = *movement;
+		instance
+	}
+
 	/// Considers storing the given possible collision.
 	pub fn consider(&mut self, possible : Option<Collision>) {
 		if let Some(collision) = possible {
-			if collision.times.min() < self.earliest_time {
+			// This compares with the length of the movement, as that can be tiny near the end of a step.
+			let depth = self.movement.dot(&collision.normal);
+			let is_ahead = 0.0 < depth && EPSILON * EPSILON * self.movement.norm_squared() < depth * depth;
+			let is_preferred = if is_ahead == self.earliest_is_ahead { collision.times.min() < self.earliest_time } else { is_ahead };
+			if is_preferred {
 				println!("Got earliest!");
+				self.earliest_is_ahead = is_ahead;
 				self.earliest_time = collision.times.min();
 				self.earliest = Some(collision);
 			} else {
@@ -446,7 +466,7 @@ impl EarliestCollisionAccumulator {
 
 /// Collides a sphere against a mesh.
 pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3) -> Option<Collision> {
-	let mut accumulator = EarliestCollisionAccumulator::new();
+	let mut accumulator = EarliestCollisionAccumulator::new_along(&(movement1 - movement2));
 	// First check all the corners.
 	for vertex in vertices2 {
 		println!("vertex");
-- 
2.43.0


From ff09f2ae9e6521b395938038a2e07b2a8078edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:23 +0000
Subject: [PATCH 27/28] fix: don't let mesh faces another mesh slides along or
 leaves hide what it hits later

---
 src/collision.rs | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 2675643..e63f71c 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -696,9 +696,17 @@ fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation :
 	transformed
 }
 
+fn average_movement(points : &Vec<MeshPointPairs>) -> Vec3 {
+	let mut movement = Vec3::zeros();
+	for point in points {
+		movement += (point.end - point.start) / (points.len() as f32);
+	}
+	movement
+}
+
 fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
 	let mut face_points = Vec::new();
-	let mut accumulator = EarliestCollisionAccumulator::new();
+	let mut accumulator = EarliestCollisionAccumulator::new_along(&(output.movement * normal_factor));
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			// The check needs a face that stands still, so leave out the face's (average) movement and give the point the opposite of it.
@@ -718,39 +726,39 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 			// Then move the result back to where the face really is at that time.
 			if let Some(collision) = &mut collision_option {
 				collision.position += face_movement * collision.times.min();
+				// Make sure the normal is pointing at most of the points.
+				// This must be known before picking the earliest, as otherwise it's unclear whether the movement goes into the face.
+				let mut negate : usize = 0;
+				let mut keep : usize = 0;
+				// Points on the face itself say nothing about which side the mesh is on.
+				for points_info in mesh1_points {
+					let time = collision.times.min();
+					let point = points_info.start * (1.0 - time) + points_info.end * time;
+					let sign = (point - collision.position).dot(&collision.normal);
+					if -EPSILON > sign {
+						negate += 1;
+					} else if EPSILON < sign {
+						keep += 1;
+					}
+				}
+				if negate > keep {
+					collision.normal *= -1.0;
+				}
 			}
 			accumulator.consider(collision_option);
 		}
 	}
 
 	if let Some(mut collision) = accumulator.get() {
-		// Make sure the normal is pointing at most of the points.
-		// Do this once at the end because it's kinda expensive.
-		let mut negate : usize = 0;
-		let mut keep : usize = 0;
-		// Points on the face itself say nothing about which side the mesh is on.
-		for points_info in mesh1_points {
-			let time = collision.times.min();
-			let point = points_info.start * (1.0 - time) + points_info.end * time;
-			let sign = (point - collision.position).dot(&collision.normal);
-			if -EPSILON > sign {
-				negate += 1;
-			} else if EPSILON < sign {
-				keep += 1;
-			}
-		}
-		if negate > keep {
-			collision.normal *= -1.0;
-		}
 		collision.normal *= normal_factor;
 		output.consider(Some(collision));
 	}
 }
 
 pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orientation : &Orientation, mesh1_end_orientation : &Orientation, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation) -> Option<Collision> {
-	let mut accumulator = EarliestCollisionAccumulator::new();
 	let mesh1_points = precompute_mesh_point_pairs(mesh1, mesh1_start_orientation, mesh1_end_orientation);
 	let mesh2_points = precompute_mesh_point_pairs(mesh2, mesh2_start_orientation, mesh2_end_orientation);
+	let mut accumulator = EarliestCollisionAccumulator::new_along(&(average_movement(&mesh1_points) - average_movement(&mesh2_points)));
 	// First check all the corners.
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
-- 
2.43.0


From d56f71b36e6b8169e8292af5ca86cc9abe4e2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 28/28] fix: don't let the force on a sleeping entity hide what
 comes into contact with it

---
 src/physics_system.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 09738ba..b4b68d2 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -486,8 +486,9 @@ impl PhysicsSystem {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
 								// NOTE: Both are still at the start of the movement, so the spins must be applied relative to where the centers of mass will be at the time of contact.
-								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_linear_movement * time));
-								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_linear_movement * time));
+								// Also what is asleep stands still, no matter how it'd start to move if it were woken up.
+								let first_full_velocity = if first.asleep { Vec3::zeros() } else { first.get_velocity_at_world_position(&(collision.position - first_linear_movement * time)) };
+								let second_full_velocity = if second.asleep { Vec3::zeros() } else { second.get_velocity_at_world_position(&(collision.position - second_linear_movement * time)) };
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								if EPSILON > velocity_delta.dot(&collision.normal) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
@@ -737,7 +738,8 @@ impl PhysicsSystem {
 		let velocity_delta = first_full_velocity - second_full_velocity;
 
 		// First find the collision response along the normal.
-		let normal_coincidence = velocity_delta.dot(&collision.normal);
+		// Something that was just woken up may already be moving away. It must not be pulled back.
+		let normal_coincidence = velocity_delta.dot(&collision.normal).max(0.0);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
 		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
-- 
2.43.0

