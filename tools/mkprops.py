"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Every photon history is a well-formed life story",
 "Tracing a ray, with either tracer, yields a history that starts with one generate event and, unless nothing lies ahead of the ray, ends with exactly one terminal event (exit, kill, non-radiative loss or reaction) and contains no terminal event before its end. Every absorb event is followed immediately by exactly one of emit, scatter, non-radiative loss or reaction, matching the kind of component that captured the ray, and these four occur nowhere else. The number of interactions never exceeds the step limit, and a ray that reaches the step limit with a surface ahead ends with a kill event.",
 ["inputs","histories","configurations"], "all scenes, rays, component kinds, random draws and step limits",
 "Tests follow a few dozen rays through fixed scenes; they cannot cover every interleaving of surface and volume events with every component kind and budget.",
 ["pvtrace/algorithm/photon_tracer.py","pvtrace/engine/_kernel.pyx","pvtrace/material/component.py"],
 [("step_forward / follow event generation","algorithm/photon_tracer.py"),("trace_one","engine/_kernel.pyx")],
 ["photon_tracer.step_forward","photon_tracer.follow","engine histories"])

prop("C02", "A ray's position, path length and clock advance together",
 "Between two consecutive events of a history the ray moves in a straight line along the direction it had after the first of them, and its travelled length grows by exactly the distance moved and its clock by distance times refractive index of the containing medium over the speed of light. Only volume re-emission, scattering and loss may add a further delay, which is never negative and is zero when no matching lifetime is configured; wavelength changes only when a luminophore emits, direction only when the ray is reflected, refracted, scattered or emitted. Moving a ray never alters its direction, wavelength or source.",
 ["inputs","histories"], "all rays, distances (including zero), refractive indices, lifetimes and random draws",
 "Tests check a handful of distances and one lifetime; the relation must hold for every step of every history in both tracers.",
 ["pvtrace/light/ray.py","pvtrace/algorithm/photon_tracer.py","pvtrace/material/component.py","pvtrace/engine/_kernel.pyx"],
 [("Ray.propagate","light/ray.py"),("step_forward","algorithm/photon_tracer.py"),("emit / nonradiative_absorb","material/component.py"),("trace_one","engine/_kernel.pyx")],
 ["Ray.propagate","step_forward","engine histories"])

prop("C03", "Reflection and refraction obey the law of optics",
 "For any unit incident direction and unit surface normal of either orientation, the reflected direction is the mirror image of the incident direction in the surface: unit length, same tangential part, opposite normal part. The transmitted direction is a unit vector in the plane of incidence on the far side of the surface that satisfies Snell's law for the two refractive indices, and equals the incident direction when the indices are equal. Both tracers and the default surface behave so, and a surface that only transmits leaves the direction unchanged.",
 ["inputs"], "all unit directions, unit normals, positive refractive indices below total internal reflection",
 "Tests use a few fixed angles and axis-aligned normals.",
 ["pvtrace/material/utils.py","pvtrace/material/surface.py","pvtrace/engine/_kernel.pyx"],
 [("specular_reflection, fresnel_refraction","material/utils.py"),("FresnelSurfaceDelegate, Surface.reflect/transmit","material/surface.py"),("specular_reflect, fresnel_refract","engine/_kernel.pyx")],
 ["specular_reflection","fresnel_refraction","Surface.reflect","Surface.transmit"])

prop("C04", "Fresnel reflectivity is a probability and decides reflection",
 "The reflectivity of an interface is the unpolarised Fresnel value: between 0 and 1, equal to ((n1-n2)/(n1+n2)) squared at normal incidence, and exactly 1 whenever the angle exceeds the critical angle. It does not depend on which way the surface normal points, and for a ray crossing the other way at the refracted angle it is the same. A ray is reflected exactly when a uniform random number in [0,1) falls below the reflectivity, so a totally internally reflected ray is always reflected and a zero-reflectivity surface never reflects.",
 ["inputs"], "all incidence angles in [0, 90 degrees], refractive index pairs, normals and random draws",
 "Tests compare a few tabulated angles; bounds, reciprocity and the decision rule hold over a continuum.",
 ["pvtrace/material/utils.py","pvtrace/material/surface.py","pvtrace/engine/_kernel.pyx"],
 [("fresnel_reflectivity","material/utils.py"),("FresnelSurfaceDelegate.reflectivity, Surface.is_reflected","material/surface.py"),("fresnel_reflectivity, trace_one surface block","engine/_kernel.pyx")],
 ["fresnel_reflectivity","Surface.is_reflected"])

prop("C05", "Ray-shape intersections are exactly the forward surface crossings",
 "For a sphere or a cylinder (both tracers) and an axis-aligned box (compiled engine), every reported intersection lies ahead of the ray on its line and on the shape's surface, and every point where the ray's line crosses the surface transversally ahead of it is reported, once. Hits reported by a shape are ordered by distance along the ray. A ray starting strictly inside the shape meets its surface exactly once.",
 ["inputs"], "all ray origins, unit directions and positive shape dimensions, away from exact tangency and cylinder rims",
 "Tests fire a few axis-aligned rays at fixed shapes.",
 ["pvtrace/geometry/sphere.py","pvtrace/geometry/cylinder.py","pvtrace/geometry/utils.py","pvtrace/engine/_kernel.pyx"],
 [("Sphere.intersections","geometry/sphere.py"),("Cylinder.intersections, ray_z_cylinder","geometry/cylinder.py, geometry/utils.py"),("intersect_box/sphere/cylinder","engine/_kernel.pyx")],
 ["Geometry.intersections","engine histories"])

prop("C06", "Surface normals and inside/outside tests agree with the shape",
 "At every surface point a sphere, cylinder or box returns a unit normal perpendicular to the surface and pointing outwards, in both tracers (away from edges and rims). A point is classified inside exactly when it lies within the shape beyond the surface tolerance, on the surface exactly when it is within tolerance of it, and never both. A ray at a surface point is reported as entering exactly when its direction opposes the outward normal, and asking this of a point off the surface is an error.",
 ["inputs"], "all points, directions and positive shape dimensions",
 "Tests use a few chosen points per shape.",
 ["pvtrace/geometry/sphere.py","pvtrace/geometry/cylinder.py","pvtrace/geometry/box.py","pvtrace/geometry/utils.py","pvtrace/engine/_kernel.pyx"],
 [("normal / contains / is_on_surface / is_entering","geometry/*.py"),("on_aabb_surface","geometry/utils.py"),("local_normal","engine/_kernel.pyx")],
 ["Geometry.normal","Geometry.contains","Geometry.is_entering"])

prop("C07", "The next surface and the media on both sides are identified correctly",
 "For nested, non-touching shapes the next interface of a ray is the nearest surface strictly ahead of it; the containing medium is the innermost node whose shape holds the ray, and the medium on the other side is the hit node when entering it and the node around it when leaving it. Intersections of a scene are exactly the forward intersections of its shapes, ordered by distance from the ray. Both tracers identify the same hit, container, adjacent node and distance, and report nothing only when no surface lies ahead.",
 ["inputs","configurations"], "all intersection patterns consistent with properly nested shapes, any number of nodes",
 "Tests cover scenes of two or three boxes with a few rays.",
 ["pvtrace/algorithm/photon_tracer.py","pvtrace/scene/scene.py","pvtrace/scene/node.py","pvtrace/engine/_kernel.pyx"],
 [("find_container, next_hit","algorithm/photon_tracer.py"),("Scene.intersections","scene/scene.py"),("Node.intersections","scene/node.py"),("trace_one next-hit block","engine/_kernel.pyx")],
 ["photon_tracer.next_hit","find_container","Scene.intersections"])

prop("C08", "Coordinate frames are rigid, invertible and compose",
 "Converting a point or vector from one node's frame to another's and back returns it, going via any intermediate node gives the same result as going directly, distances and angles are preserved, and directions ignore translations. Translating a node moves its origin by exactly the given vector, rotating it is a rotation by the given angle about the given axis of its parent frame through its own location that leaves the location alone, and setting a location or pose is reflected in every later conversion. Making an unrotated node look along a direction points its +z axis along that direction, whatever the direction's length.",
 ["inputs","configurations"], "all node hierarchies of rigid poses, points, vectors, angles and axes",
 "Tests use hand-picked translations and right-angle rotations.",
 ["pvtrace/scene/node.py","pvtrace/geometry/transformable.py","pvtrace/geometry/transformations.py","pvtrace/light/ray.py"],
 [("transformation_to, point_to_node, vector_to_node, look_at","scene/node.py"),("Transformable","geometry/transformable.py"),("Ray.representation","light/ray.py")],
 ["Node.point_to_node","Node.vector_to_node","Node.look_at","Transformable"])

prop("C09", "Absorption follows Beer-Lambert and picks components by weight",
 "In a medium whose components' coefficients sum to alpha the sampled penetration depth is an exponential variate of rate alpha (infinite when alpha is zero), and the ray is absorbed exactly when that depth is shorter than the distance to the next surface. The total coefficient is the sum of the coefficients of all components at the ray's wavelength. The capturing component is chosen with probability equal to its share of that sum, so a component with zero coefficient is never chosen.",
 ["inputs","configurations"], "all component lists, non-negative coefficients, wavelengths and random draws",
 "Statistical tests sample a couple of mixtures and cannot see boundary draws or zero-weight components.",
 ["pvtrace/material/material.py","pvtrace/engine/_kernel.pyx"],
 [("penetration_depth, is_absorbed, component","material/material.py"),("trace_one volume block","engine/_kernel.pyx")],
 ["Material.penetration_depth","Material.is_absorbed","Material.component"])

prop("C10", "Luminescent emission respects the chosen spectral window and lifetimes",
 "A ray re-emitted by a luminophore has a wavelength at which the emission spectrum is defined; with the redshift method it is never shorter than the absorbed wavelength, with the kT method never more than one and a half kT higher in energy than the absorbed photon, and with the full method it follows the whole emission spectrum. The emitted ray leaves from where it was absorbed, with a direction from the component's phase function in the frame of the node that contains it (in both tracers) and the component as its source. Radiative and non-radiative delays are exponential variates with the configured lifetimes, and radiative outcome happens exactly when a uniform draw falls below the quantum yield, which is tau_nr/(tau_nr+tau_rad) when both lifetimes are given.",
 ["inputs","configurations"], "all absorbed wavelengths within the spectrum range, spectra, draws, lifetimes, quantum yields and methods",
 "Tests sample a few hundred emissions with one spectrum.",
 ["pvtrace/material/component.py","pvtrace/material/distribution.py","pvtrace/engine/_kernel.pyx"],
 [("Luminophore.emit, Scatterer.*","material/component.py"),("trace_one emission block","engine/_kernel.pyx")],
 ["Luminophore.emit","Scatterer.emit","Scatterer.nonradiative_absorb"])

prop("C11", "Distributions interpolate, sample and look up consistently",
 "A tabulated spectrum evaluates to its linear interpolation (constant spectra to the constant) and rejects positions outside its table; it accepts only strictly ascending positions with finite, non-negative values. Its cumulative probability rises monotonically from 0 at the first position to 1 at the last; sampling inverts it, returns values inside the table that rise with the probability, and rejects probabilities outside [0,1]. Combining several spectra evaluates to their sum.",
 ["inputs"], "all table lengths, positions, values and probabilities",
 "Tests use a few short tables and 200-point Gaussians.",
 ["pvtrace/material/distribution.py","pvtrace/geometry/utils.py","pvtrace/engine/_kernel.pyx"],
 [("Distribution","material/distribution.py"),("interp_clamped","engine/_kernel.pyx")],
 ["Distribution.__call__","Distribution.lookup","Distribution.sample","Distribution.from_functions"])

prop("C12", "Random directions and positions stay within their stated support",
 "Every direction drawn by the isotropic, Henyey-Greenstein, cone and Lambertian samplers is a unit vector; cone directions lie within the half angle and Lambertian ones in the forward hemisphere, and the cosine of the Henyey-Greenstein angle is the inverse of its cumulative distribution for every asymmetry in (-1,1), the isotropic one at zero. Every position drawn by the rectangular, circular and cube masks lies inside its shape, with the rectangle and circle in the plane z=0. The scalar samplers, the vectorised bundle emitter and the compiled engine agree on these supports and on the mapping from uniform draws.",
 ["inputs"], "all uniform draws in [0,1), angles, radii, sizes and asymmetry parameters",
 "Tests draw a few thousand samples from one or two parameter values and never hit the boundary draws.",
 ["pvtrace/material/utils.py","pvtrace/light/light.py","pvtrace/engine/emit.py","pvtrace/engine/_kernel.pyx"],
 [("isotropic, henyey_greenstein, cone, lambertian","material/utils.py"),("rectangular_mask, circular_mask, cube_mask","light/light.py"),("_sample_positions/_sample_directions","engine/emit.py"),("sample_phase","engine/_kernel.pyx")],
 ["samplers","emit_bundle"])

prop("C13", "A simulation throws exactly the requested number of rays",
 "Asking a scene or light for N rays yields exactly N rays (none for zero), taken from the scene's lights in turn, expressed in the world frame and named after their light. Splitting a simulation over worker processes gives the workers non-negative shares that sum to N, each with its own random seed; streaming it in bundles traces bundles that sum to N, none larger than the bundle size, with consecutive per-ray seeds so no two rays share a random stream. The reported progress equals the rays traced so far.",
 ["inputs","configurations"], "all ray counts, worker counts, bundle sizes, seeds and numbers of lights",
 "Tests use a few round numbers of rays and workers.",
 ["pvtrace/scene/scene.py","pvtrace/light/light.py","pvtrace/engine/api.py","pvtrace/engine/emit.py"],
 [("Scene.emit, Scene.simulate","scene/scene.py"),("Light.emit","light/light.py"),("simulate_stream","engine/api.py"),("emit_bundle","engine/emit.py")],
 ["Scene.simulate","Scene.emit","engine.simulate_stream","emit_bundle"])

prop("C14", "The compiled kernel never touches memory outside its tables",
 "While tracing any compiled scene within its declared limits, the engine reads and writes only inside its tables, scratch arrays, the ray's own slice of the event log and its thread's own tally slice, and never uses an unset value. A recorded history has at least one and at most the configured maximum number of events, a ray whose budget runs out ends with a kill event, and rays not selected for recording log nothing. Random draws are always in [0,1).",
 ["inputs","schedules","configurations"], "all compiled scenes within the declared limits, rays, event budgets and recorder layouts",
 "The kernel is compiled with bounds checks off, so an overrun passes silently in tests.",
 ["pvtrace/engine/_kernel.pyx"],
 [("record, tally, trace_one, interp_clamped, rng_uniform","engine/_kernel.pyx")],
 ["engine.simulate","trace_bundle"])

prop("C15", "Recorder tallies equal the definition, in both implementations",
 "A recorder counts every interaction of its kind on its node (and facet, within tolerance) as a crossing, and each ray at most once as a distinct ray, at its first matching interaction. Moments and histograms accumulate that first interaction only: sums and sums of squares of wavelength, incidence angle, duration and path length, and exactly one bin increment for a value inside a histogram's half-open range, none outside it. The compiled engine and the reference implementation agree, and reported means, standard deviations and errors are those of the accumulated sums.",
 ["inputs","histories","configurations"], "all interaction sequences, recorder and histogram configurations",
 "Tests compare the two implementations statistically on two scenes.",
 ["pvtrace/engine/tally.py","pvtrace/engine/recorder.py","pvtrace/engine/api.py","pvtrace/engine/_kernel.pyx"],
 [("tally_histories, _matches, _bin_index","engine/tally.py"),("tally","engine/_kernel.pyx"),("RecorderResult","engine/api.py")],
 ["EngineResult.recorders","tally_histories"])

prop("C16", "Compiling a scene preserves it or refuses it",
 "A scene that compiles is represented faithfully: each geometry node keeps its shape and dimensions, its transforms to and from the world are mutually inverse and equal to the scene's, and refractive index, surface kind, component kinds, quantum yields, lifetimes, phase functions, spectra and recorders appear at the positions the kernel will read. Anything the engine cannot represent (meshes, custom surface delegates or phase functions, histogram-sampled or too many tables, misplaced or duplicate recorders) is refused with an unsupported-scene error rather than approximated. Table offsets of components, spectra, histograms and bins never overlap and cover their tables.",
 ["inputs","configurations"], "all scenes built from the supported and unsupported building blocks",
 "Tests compile a few fixed scenes.",
 ["pvtrace/engine/compiler.py"], [("CompiledScene","engine/compiler.py")], ["engine.compile_scene"])

prop("C17", "Database queries return exactly the rays they describe",
 "Each count or listing query over a simulation database selects exactly the rays having an event of the asked kind on or in the asked node, on the asked side of its surface, and matching every given filter (each normal component within tolerance, facet, source); omitted filters do not restrict. Counts are the number of distinct throws among them; listings pair each such throw with the requested quantity. Filter values are always passed as bound parameters, one per placeholder and in order, so no name can change the meaning of a query.",
 ["inputs","configurations"], "all database contents, node names, filter combinations and values",
 "Tests query one small recorded database with a few filter combinations.",
 ["pvtrace/cli/db.py"], [("_boundary_query, _volume_query, sql_*","cli/db.py")], ["pvtrace-cli count / spectrum / time"])

prop("C18", "Storing a simulation keeps every event under its own throw",
 "Each ray event delivered to the storage step becomes exactly one ray row and one event row linked to it, with every field stored in its own column and absent metadata stored as null. Events of the same throw of the same worker task share one throw id, and events of different throws never share one. End-ray filtering keeps exactly the generation, terminal, entering, escaping and externally reflected events.",
 ["histories","schedules","inputs"], "all interleavings of events from several workers",
 "Tests run the command once with one worker.",
 ["pvtrace/cli/main.py","pvtrace/scene/scene.py"], [("monitor_queue, write_ray, write_event","cli/main.py"),("is_end_ray, do_simulation_add_to_queue","scene/scene.py")], ["sqlite database"])

prop("C19", "A scene document is turned into exactly the scene it describes",
 "For every valid document, each node gets the shape, dimensions, refractive index, components, location, direction, parent (the world when unspecified) and light that the document states, and each component the coefficient or spectrum (scaled so that its peak equals a given coefficient), quantum yield and phase function stated. References to unknown components or nodes are errors. Automatic recorders are created for nodes that ask for them, and an explicit recorder of the same name takes precedence.",
 ["inputs","configurations"], "all documents valid under the published schema",
 "Tests parse a few sample files.",
 ["pvtrace/cli/parse.py"], [("parse_v_1_0, auto_recorders, parse_recorders","cli/parse.py")], ["cli.parse.parse"])

prop("C20", "The studio never loses or corrupts the open document",
 "A document or structured edit that is rejected leaves the open document, parsed scene and specification unchanged, and an accepted one replaces all three together. Structured edits change only what they describe: moving a node puts it at the given world position, deleting removes the node together with its recorders, additions never overwrite an existing entry. An uploaded file is only ever written beside the document, under its base name and with an allowed extension.",
 ["inputs","histories","fault_sequences"], "all documents, edit operations and failure points while applying them",
 "Tests apply a few valid edits to one document.",
 ["pvtrace/studio/server.py"], [("Studio.apply, _patch, upload","studio/server.py")], ["studio HTTP API"])

prop("C21", "Concentrator surfaces and reports follow the configured device",
 "In the ready-made concentrator, edges fitted with solar cells never reflect and pass rays straight through, a fitted back mirror always reflects from the bottom face, an air-gap mirror always reflects (specularly or diffusely upward as configured), and all other interactions are those of an ordinary Fresnel surface. Facet labels name the face a point lies on consistently with the solar cell positions.",
 ["inputs","configurations"], "all surface points, directions, device sizes and cell and mirror configurations",
 "There are no tests of the concentrator.",
 ["pvtrace/device/lsc.py"], [("OptionalMirrorAndSolarCell, AirGapMirror, label_facets","device/lsc.py")], ["LSC surface delegates"])

prop("C22", "The same seed gives the same simulation whatever the threads",
 "Tracing the same compiled scene and rays with the same seed gives bit-identical histories and tally counts for every number of threads and every scheduling of rays to threads. A ray's outcome depends only on its initial state, the scene and its own seed.",
 ["schedules","inputs"], "all thread counts and schedules",
 "Tests compare one and four threads once.",
 ["pvtrace/engine/_kernel.pyx"], [("per-ray seeding, prange","engine/_kernel.pyx")], ["trace_bundle","trace_one","tally","simulate"])

prop("C23", "Wavelength colours are valid and in the visible band only",
 "Converting any finite wavelength to a display colour gives three integers between 0 and 255, black exactly when its whole nanometres lie outside 380 to 780, and the packed integer form is exactly red times 65536 plus green times 256 plus blue of the clamped components.",
 ["inputs"], "all wavelengths and colour triples",
 "Tests check none or a few wavelengths.",
 ["pvtrace/light/utils.py"], [("wavelength_to_rgb, rgb_to_hex_int","light/utils.py")], ["wavelength_to_rgb","wavelength_to_hex_int"])

prop("C24", "A live run in the studio shows the engine's own numbers",
 "Everything a run started in the studio sends to the browser belongs to the scene that run traces: the axes announced are those of its recorders' histograms, and every update shows, under each recorder's name, the distinct rays, crossings, mean wavelength and angle and histogram bins summed over all bundles of this run so far, together with the number of rays traced. The ray paths sent are recorded histories, vertex by vertex, and never more than asked for. Stopping a run ends it; starting another ends the one in progress, of which nothing is shown afterwards; replacing the document during a run does not change the run. The viewport shows every node of the open scene with its shape, size, pose and recorders.",
 ["inputs","schedules","histories"], "all tallies and scenes, and all orders in which commands arrive, bundles finish and messages are sent",
 "Tests run one short simulation to its end over one connection.",
 ["pvtrace/studio/server.py"], [("websocket run, _recorder_payload, _histogram_meta, _extract_paths, Studio.scene_payload","studio/server.py")], ["messages on /ws","scene payload"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80
        fp.write(json.dumps(p) + "\n")
