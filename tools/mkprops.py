#!/usr/bin/env python3
# Authoring aid: writes /verif/properties.jsonl.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
      **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
PS='src/physics_system.rs'; EN='src/entity.rs'; CO='src/collision.rs'; OR='src/orientation.rs'; RA='src/range.rs'
SP='src/sphere_collider.rs'; PL='src/plane_collider.rs'; ME='src/mesh_collider.rs'; BX='src/aligned_box_collider.rs'; NU='src/null_collider.rs'

p('C01','Collisions conserve linear and angular momentum',
 "When a step resolves a collision between two finite-mass entities and no outside force acts, the total linear momentum of the pair is the same after the step's response as before it. The total angular momentum about the point of contact (orbital plus spin) is also unchanged by the response. This holds with and without friction and for off-centre hits.",
 ['inputs'],'all masses, radii, velocities, spins, restitution and friction coefficients of a colliding pair',
 'the existing tests check a few hand-picked head-on numbers; conservation is a statement over every mass, velocity and contact geometry',
 [PS,EN],[('equal and opposite impulses','PhysicsSystem::step / apply_collision_impulse'),('impulse on linear and angular velocity','InternalEntity::apply_impulse')],
 ['PhysicsSystem::get_entity after PhysicsSystem::step'])
p('C02','Restitution law at every contact',
 "After a collision is resolved, the relative velocity of the two bodies' contact points along the contact normal is minus the product of both colliders' restitution coefficients times its value just before (frictionless contacts; friction never adds to the tangential motion). In particular two bodies never keep approaching each other through a contact that was just resolved. The recorded restitution coefficient is that product and the recorded impulse magnitude is the one that was applied.",
 ['inputs'],'all masses (finite or infinite on one side), velocities, spins, lever arms and restitution coefficients in [0,1]',
 'tests sample restitution 1 and 0 on a handful of set-ups; the law is quantified over every contact configuration',
 [PS,EN],[('impulse magnitude','PhysicsSystem::calc_collision_impulse'),('effective mass','PhysicsSystem::calc_collision_impulse_denominator')],
 ['PhysicsSystem::step','PhysicsSystem::collision_records'])
p('C03','A collision never creates kinetic energy',
 "Resolving a collision never increases the total kinetic energy (linear plus rotational) of the bodies involved, for any restitution coefficients in [0,1] and any friction coefficients in [0,1]. With restitution one on both sides and no friction the total is unchanged. An infinite-mass body at rest contributes zero.",
 ['inputs'],'all masses, velocities, contact geometries, restitution and friction coefficients in their documented ranges',
 'one test follows the energy of one bounce; an energy gain can hide at a particular mass ratio, lever arm or friction ratio',
 [PS,EN],[('collision and friction impulses','PhysicsSystem::step'),('energy accounting','InternalEntity::get_total_energy, Entity::get_total_energy')],
 ['PhysicsSystem::step','Entity::get_total_energy'])
p('C04','Infinite-mass bodies are immovable by contact and force',
 "An entity with infinite mass keeps its linear and angular velocity exactly, whatever hits it and whatever forces are generated, and moves only by its own velocity. The other body of such a collision responds with finite values as if bouncing off an immovable obstacle. Two infinite-mass entities meeting each other leave both velocities as they were.",
 ['inputs','configurations'],'all velocities, positions, spins and partner masses; infinite mass coming from the entity itself or from a collider',
 'tests use one stationary infinite-mass floor; nothing covers moving or spinning infinite bodies or both sides infinite',
 [PS,EN],[('mass guards','PhysicsSystem::step total_mass.is_finite'),('zero inverse mass','InternalEntity::apply_impulse, get_inverse_moment_of_inertia')],
 ['PhysicsSystem::step','PhysicsSystem::get_entity'])
p('C05','Sphere-sphere collision detection is exact',
 "Within a step, two moving sphere colliders that are apart at the start collide exactly when the straight-line motions of their centres bring the centres to the sum of the radii before the end of the step, at the first such instant. The reported contact point lies on the line of centres at that instant, one radius from each centre, with the unit normal pointing from the first body to the second. Otherwise no collision is reported and both finish their free motion.",
 ['inputs'],'all start positions, displacements, radii and collider offsets in 3-D (motion larger than the engine epsilon)',
 'tests sample one axis-aligned hit; grazing, oblique, both-moving and near-miss geometries are a continuum',
 [CO,RA],[('quadratic first root','collide_sphere_with_sphere, Range::quadratic_zeros'),('candidate filtering','PhysicsSystem::step')],
 ['PhysicsSystem::collision_records','PhysicsSystem::get_entity'])
p('C06','Sphere-plane collision detection is exact',
 "A sphere starting above an infinite plane collides exactly when its lowest point along the plane's normal reaches the plane during the step, at that instant, at that lowest point, with unit normal along the plane's axis pointing off the first body. A sphere that starts in or behind the plane and moves deeper collides immediately. A sphere moving away or staying clear is never reported.",
 ['inputs'],'all sphere positions, radii, plane positions, plane normals and both bodies displacements',
 'tests sample axis-aligned normals and a few heights',
 [CO,RA,PL],[('half-space overlap','collide_sphere_with_plane, sphere_plane_overlap_time, Range::linear_overlap')],
 ['PhysicsSystem::collision_records'])
p('C07','Sphere-mesh collision finds the first touched feature',
 "A sphere moving toward a mesh face, edge or corner collides at the first instant when its distance to the mesh's surface equals its radius: on the face interior when it meets the face, otherwise on the edge or corner it reaches first. The contact point lies on the mesh one radius away from the centre and the normal points from the sphere centre to it (off the first body). A sphere that never comes within its radius of the mesh is not reported.",
 ['inputs'],'all sphere positions, displacements and radii against convex mesh faces placed by position and rotation',
 'tests sample one hit per feature type',
 [CO,RA,ME],[('earliest of corners, edges, faces','collide_sphere_with_mesh, EarliestCollisionAccumulator'),('feature kernels','collide_sphere_with_line, collide_sphere_with_mid_line_segment, collide_sphere_with_polygon_surface')],
 ['PhysicsSystem::collision_records'])
p('C08','Mesh-plane collision happens at the deepest vertices',
 "A translating mesh collides with an infinite plane exactly when its lowest vertex along the plane's normal reaches the plane during the step (at once if it starts in or behind it and moves deeper). The contact point is the average of the lowest vertices at that time (a flat face or edge landing squarely is hit in its middle) and the normal is along the plane's axis, pointing off the first body. A mesh that stays clear or moves away is not reported.",
 ['inputs'],'all mesh positions, vertex heights, displacements and plane positions',
 'tests sample one cube and one tilt',
 [CO,RA,ME],[('vertex distance ranges','collide_mesh_with_plane')],['PhysicsSystem::collision_records'])
p('C09','Sphere-box collision is exact in the box frame',
 "A sphere moving toward an axis-aligned box collides at the first instant its distance to the box equals its radius, whether the nearest feature is a face, an edge or a corner. The contact point is on the box, one radius from the sphere's centre, with the normal along that line pointing off the first body. The box is where its own position offset and its entity's position and rotation put it.",
 ['inputs'],'all sphere positions, radii, displacements, box corners, offsets and placements',
 'tests cover a unit box with one hit per face',
 [CO,RA,BX,OR],[('slab test plus edges and corners','collide_sphere_with_aligned_box'),('frame change','collide, Collision::transform_out_of')],
 ['PhysicsSystem::collision_records'])
p('C10','Collision outcome does not depend on the order of the bodies',
 "Adding the same two bodies in the opposite order yields the same collision: same time and contact point, opposite normal, the same two entities with roles exchanged, and the same resulting motion of each body. This holds for every supported pair of collider kinds.",
 ['inputs','configurations'],'every supported collider pair, all positions and velocities within the harness slices',
 'tests fix one order for each pair',
 [CO,PS],[('mirrored dispatch','collide'),('antisymmetric impulse','PhysicsSystem::step')],['PhysicsSystem::collision_records','PhysicsSystem::get_entity'])
p('C11','Mass and centre of mass always reflect the linked colliders',
 "After any sequence of linking, relinking, updating, unlinking and removing colliders and of updating the entity, its total mass is its own mass plus the sum of its colliders' masses (infinite if any is infinite) and its position is the world location of the mass-weighted centre of its colliders, or the entity's local origin if they have no mass. The world location of the entity's local origin, and hence of every collider, is never moved by such bookkeeping. The result depends only on the final configuration, not on the history or order.",
 ['inputs','histories'],'all collider positions and masses, entity poses, and operation sequences up to the stated length',
 'tests run three fixed sequences; the invariant ranges over histories and values',
 [EN,PS,OR],[('recompute cache','InternalEntity::recalculate_mass'),('callers','PhysicsSystem::link_collider, update_collider, remove_collider, update_entity')],
 ['PhysicsSystem::get_entity','Entity::get_last_total_mass','Entity::get_last_orientation'],
 [('internal_origin_offset','local origin relative to the centre of mass','Orientation')])
p('C12','Moment of inertia is the physical tensor of the linked shapes',
 "The world-space moment of inertia of an entity is the sum over its colliders of each one's own solid tensor (2/5 m r^2 for spheres, the cuboid tensor for boxes, the given tensor for point masses) moved to the entity's centre of mass by the parallel-axis rule and rotated by the entity's rotation. It is symmetric, never negative about any axis, and independent of the order of linking.",
 ['inputs','configurations'],'all masses, sizes, offsets and rotations',
 'one test checks a pair of spheres; sign or axis mistakes show only off the sampled axes',
 [EN,OR,SP,BX,NU],[('parallel axis','Orientation::prep_moment_of_inertia'),('rotation','Orientation::finalize_moment_of_inertia'),('shape tensors','get_moment_of_inertia_tensor')],
 ['Entity::get_last_moment_of_inertia'])
p('C13','Handles and links stay consistent through every history',
 "Through every sequence of adds, links, unlinks, updates, removals and steps: a collider belongs to at most one entity, and an entity lists a collider exactly when that collider names it; removed things are gone (lookups give nothing, updates and links report failure) even when their slot is reused; removing an entity removes its colliders and nothing else. No such sequence panics, and an operation that reports failure leaves everything unchanged.",
 ['histories'],'all operation sequences up to the stated length over a small population of entities and colliders, including stale handles',
 'tests run single link/unlink scripts; the interesting cases are orderings such as removing a linked collider or a sleeping neighbour',
 [PS,EN],[('two-sided link','PhysicsSystem::link_collider'),('cascading removal','PhysicsSystem::remove_entity, remove_collider'),('generational handles','generational_arena')],
 ['PhysicsSystem::get_entity','PhysicsSystem::get_collider','Entity::get_colliders','Collider::get_entity'])
p('C14','Invalid bodies are refused, valid ones read back as given',
 "Adding or updating is accepted exactly for documented-valid values: no negative mass; sphere radius above the minimum 0.05; a plane normal longer than epsilon; box corners differing by more than epsilon on every axis in either order; a mesh with geometry. Everything accepted reads back with the values given (plane normals as unit vectors in the same direction, box corners sorted), by both the adding and the updating route; a refused update changes nothing.",
 ['inputs'],'all numeric field values of every collider kind and of entities',
 'tests check a few bad values on creation only',
 [EN,SP,PL,ME,BX,NU,PS],[('validity predicates','is_valid, InternalEntity::new_from / update_from'),('conversion','new_from, update_from, make_pub')],
 ['PhysicsSystem::add_collider','PhysicsSystem::update_collider','PhysicsSystem::get_collider','PhysicsSystem::add_entity','PhysicsSystem::update_entity'])
p('C15','Free motion is semi-implicit Euler for any step',
 "An awake entity that collides with nothing and feels no force moves over a step of length dt by exactly velocity times dt and rotates by exactly angular velocity times dt (about its centre of mass, composed after its current rotation), keeping both velocities. Its colliders' mass distribution and everything else about it are unchanged. A step whose length is essentially zero changes nothing at all.",
 ['inputs'],'all velocities, spins, poses, offsets of the centre of mass and step lengths',
 'tests use a single velocity and dt',
 [PS,OR,EN],[('integration','PhysicsSystem::step'),('pose update','Orientation::affect_with')],['PhysicsSystem::get_entity'])
p('C16','Forces produce the Newton-Euler accelerations',
 "Each step, every force generated for a finite-mass entity changes its velocity by dt times force over total mass, and its angular velocity by dt times the inverse world inertia applied to the torque about the centre of mass, before the positions move; several generators add up. Gravity gives every finite-mass entity the same acceleration and no spin. Entities of zero or infinite mass are not accelerated, and removed generators no longer act.",
 ['inputs','configurations'],'all forces, application points, masses, inertias and dt',
 'tests only apply gravity to one body',
 [PS,EN,'src/gravity_generator.rs'],[('accumulation of acceleration and torque','PhysicsSystem::step'),('gravity','GravityGenerator::make_force')],['PhysicsSystem::get_entity after step'])
p('C17','Entities sleep only when slow for long enough, then stay still',
 "An entity is put to sleep only at the end of a step with kinetic energy at or below the energy threshold, after being continuously at or below it for at least the sleep-time threshold; any step ending above the threshold restarts the count. While asleep and left alone its position and rotation do not change and its velocities read zero after a step. An entity at rest long enough does fall asleep.",
 ['inputs','histories'],'all energies, thresholds, dt and step sequences up to the stated length',
 'one test uses one sequence with default thresholds',
 [PS,EN],[('sleep timer','PhysicsSystem::step, falling_asleep_time'),('sleep gate on motion','PhysicsSystem::step')],['Entity::was_asleep','PhysicsSystem::get_entity'])
p('C18','A disturbed sleeper wakes, together with what rests on it',
 "A sleeping finite-mass entity wakes when another body collides with it, when it is updated with a changed pose, velocity or mass, or when a resting neighbour it went to sleep touching wakes or is removed. Waking spreads through chains of resting neighbours but not through infinite-mass bodies, which stay in place. An update that changes nothing does not wake it.",
 ['inputs','histories'],'all impact velocities and update values, chains of neighbours up to the stated size',
 'tests wake one entity by one update',
 [PS,EN],[('wake propagation','InternalEntity::wake_up'),('change detection','InternalEntity::update_from'),('neighbour recording','PhysicsSystem::step')],['Entity::was_asleep'])
p('C19','Local and world coordinates are inverse rigid transforms',
 "For any orientation, converting positions or directions to local space and back gives the original; distances, lengths and angles are preserved and handedness is kept. A direction's conversion ignores translation, the centre of rotation stays fixed under pure rotation, and the local origin offset shifts local coordinates only. Interpolating between two orientations yields the first at time 0, the second at time 1 and a rigid transform in between.",
 ['inputs'],'all positions, rotation vectors and origin offsets',
 'tests use quarter turns and one offset',
 [OR],[('isometries','Orientation::into_local, into_world'),('interpolation','Orientation::lerp')],['Orientation public methods'])
p('C20','Collision records tell the truth, in time order',
 "After a step the collision records describe only that step's resolved collisions: distinct existing entities, times between 0 and dt in non-decreasing order, unit normals, no more than the iteration limit. The first recorded is the earliest contact among all pairs of entities and all pairs of their colliders. Bodies advance exactly to each contact before it is resolved.",
 ['inputs','configurations'],'all speeds and gaps of up to three bodies, all iteration limits up to the bound',
 'tests look at one record at a time',
 [PS,'src/collision_record.rs'],[('earliest-collision loop','PhysicsSystem::step'),('time bookkeeping','PhysicsSystem::step current_time_percent')],['PhysicsSystem::collision_records'])
p('C21','Friction only opposes sliding and obeys the Coulomb bound',
 "The friction part of a contact response acts along the contact plane against the relative sliding velocity and never reverses it. Its impulse never exceeds the larger of the static and dynamic friction coefficients (each the product of both colliders' coefficients) times the normal impulse: it is one of those coefficients times the normal impulse, or just what stops the sliding the normal impulse leaves when that is less. With both coefficients zero the sliding velocity at the contact is not directly damped.",
 ['inputs'],'all masses, radii, velocities, spins and friction coefficients in [0,1]',
 'tests check that friction induces some spin for one case',
 [PS],[('friction impulse','PhysicsSystem::step')],['PhysicsSystem::get_entity after step'])
p('C22','Bodies that start apart do not pass through each other',
 "Two bodies that are separated at the start of a step are not interpenetrating at its end (beyond numerical tolerance), as long as the step resolved every collision within the iteration limit. In particular a fast sphere never tunnels through a plane, another sphere, a mesh face or a box, however large its velocity.",
 ['inputs'],'all speeds, gaps, radii, masses and restitution coefficients within bounds',
 'tests check one bounce; tunnelling depends on speed, size and dt in combination',
 [PS,CO],[('continuous collision detection and re-integration','PhysicsSystem::step')],['PhysicsSystem::get_entity after step'])
p('C23','Mesh building keeps vertices and edges shared and convex',
 "Adding a face stores each distinct corner point once and each edge once across all faces, so vertex, edge and face counts depend only on the geometry and not on winding or starting corner. Faces with fewer than three points, non-coplanar points or a non-convex outline are refused, strictly convex coplanar ones are accepted. A mesh given to the system collides exactly like the faces that were added.",
 ['inputs'],'all corner coordinates of triangles and quadrilaterals, all shared-edge arrangements within bound',
 'tests build one cube',
 [ME],[('vertex and edge dedup','MeshCollider::add_points, add_edge'),('shape check','MeshCollider::add_face')],['MeshCollider::vertex_count, edge_count, face_count'])
p('C24','Valid worlds stay finite',
 "Stepping a world made of accepted entities and colliders with finite poses and velocities never panics and leaves every position, rotation and velocity and every collision record finite (no NaN or infinity), including zero-mass, infinite-mass, concentric, touching and flat configurations.",
 ['inputs','configurations'],'all masses including zero and infinite, all supported collider pairs including degenerate placements',
 'tests never combine degenerate masses with contacts',
 [PS,CO,EN],[('guards against division by zero','PhysicsSystem::step, collide kernels')],['PhysicsSystem::get_entity after step'])
p('C25','The simulation does not care where the world origin is',
 "Translating a whole world by any vector translates every resulting position and contact point by the same vector and leaves every velocity, spin, rotation, contact time and normal unchanged. Adding a constant velocity to two colliding bodies changes the outcome only by that velocity.",
 ['inputs'],'all translations, boosts and all configurations within the harness slices',
 'no test compares two worlds',
 [PS,CO,OR,EN],[('relative quantities in kernels','collide, calc_collision_impulse')],['PhysicsSystem::get_entity','PhysicsSystem::collision_records'])
p('C26','Bodies that do not touch do not influence each other',
 "An entity's motion over a step is unaffected by other entities it does not collide with, by colliders not linked to any entity, by non-colliding (null) colliders, and by the order in which unrelated entities were added. Entities without colliders never collide.",
 ['inputs','configurations'],'all positions and velocities of a bystander, all collider kinds',
 'tests use isolated worlds',
 [PS,CO],[('pairwise processing','PhysicsSystem::step'),('null collider','collide')],['PhysicsSystem::get_entity'])
p('C27','Mesh-mesh contact through a corner is found in time',
 "When a corner of one translating mesh reaches the interior of a face of another during a step, a collision is reported at that instant and place, with a unit normal perpendicular to the face pointing off the first mesh toward the second. Meshes whose corners never reach the other's faces are not reported. Swapping the two meshes mirrors the result.",
 ['inputs'],'all corner positions, displacements and face placements within the harness slice (edge-edge contacts are documented as not implemented)',
 'tests sample one pose',
 [CO,ME],[('point against polygon','collide_point_with_polygon'),('both directions','collide_mesh_with_mesh')],['PhysicsSystem::collision_records'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), 'ok')
