#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "A traced ray's path is contiguous, straight and spends exactly its budget",
 "The recorded path of a traced ray starts at its launch point, grows by one point per flight, and every point after a launch or interaction lies straight ahead along the ray's direction at that moment. The path flown in one run equals the distance allowed, unless the ray was absorbed or used up its allowed number of interactions, in which case it is shorter and ends on the surface where that happened. Position, direction and history stay finite and the direction stays unit length throughout.",
 ["inputs", "histories"], "every launch point, direction, distance budget, interaction limit and scene of mirrors, ideal lenses, ball lenses, compounds, gratings and detectors, including long multi-bounce cavities and empty scenes",
 "No existing test calls Ray.run at all: the budget arithmetic over arbitrary many interactions and the three ways of stopping are never exercised.",
 ["optics3d.py"], [("Ray.run distance/interaction accounting", "optics3d.py:Ray.run"), ("Ray.fly", "optics3d.py:Ray.fly")],
 ["Ray.get_plot_repr()", "Ray.position", "Ray.direction", "Ray.blocked"],
 [("point_history", "polyline of the ray", "optics3d.py:Ray"), ("blocked", "ray absorbed", "optics3d.py:Ray")])

prop("C02", "A ray always interacts with the nearest element ahead, whatever the list order",
 "At each step a traced ray interacts with the first surface in front of it that is within its remaining distance, and with nothing else; elements behind it, beyond its remaining distance or missed laterally have no effect, and annotations, filters and windows are transparent. What happens to the ray is what that element prescribes for that hit alone. Permuting the list of elements does not change any trajectory.",
 ["inputs", "configurations"], "every scene of up to a dozen mixed elements at generic positions (no two surfaces tied for nearest), every permutation of its list, every ray",
 "The five test files only intersect one primitive with a few axis-aligned rays; no test traces through several elements or permutes a list.",
 ["optics3d.py"], [("nearest-hit selection loop", "optics3d.py:Ray.run"), ("per-element test_intersect/do_intersect", "optics3d.py:Mirror,Lens,Grating,Detector,Compound")],
 ["Ray.get_plot_repr()", "Ray.direction", "Detector.hit_data"])

prop("C03", "Tracing in several runs equals tracing in one run",
 "Running a ray for one distance and then again for another leaves it in the same state, with the same interactions and the same detector records, as one run for the sum. Likewise stepping with an interaction limit and continuing with the unspent distance reaches the same state as an unlimited run. A blocked ray does not move or interact again however often it is run.",
 ["histories", "inputs"], "every scene and ray, every split of the total distance into runs, every sequence of interaction-limited runs",
 "Needs sequences of runs on one ray; no test runs a ray even once.",
 ["optics3d.py"], [("state carried by Ray between runs", "optics3d.py:Ray.run,Ray.fly")], ["Ray.position", "Ray.direction", "Ray.blocked", "Detector.hit_data"])

prop("C04", "The whole simulation is independent of the coordinate frame and length unit",
 "Rotating, translating or mirroring every element and ray of a scene by the same rigid motion or mirror does the same to every trajectory and detector record. Multiplying all lengths (positions, sizes, focal lengths, distances) by one factor multiplies all trajectories by it, leaving directions unchanged.",
 ["inputs", "configurations"], "every scene of all element kinds, every rotation, translation and mirror plane, every scale factor that keeps lengths within about 1e-2..1e4",
 "The tests use axis-aligned geometry near the origin with unit sizes, which cannot tell a frame-dependent formula from a correct one.",
 ["optics3d.py", "Shapes/shapes.py", "general_optics.py"], [("vector formulation of intersection and interaction", "optics3d.py, Shapes/shapes.py"), ("cylinder object-space transform", "Shapes/shapes.py:InfiniteCylinder")],
 ["Ray.get_plot_repr()", "Detector.hit_data"])

prop("C05", "Tracing is repeatable and has no side effects beyond its own ray and detectors",
 "Tracing the same ray twice through the same elements gives the same trajectory, however many other rays were traced in between and in whatever order; rays never influence each other. Of the ray itself only position, direction, history and whether it is blocked change. Tracing, testing a point or a hit, and building rays, shapes and elements never modify the arrays the caller passed in or any element other than a detector's record. Changing an ideal lens's focal length, a ball lens's or compound's index, a compound's surface behaviour or a grating's groove density takes effect for the next ray exactly as if the element had been built that way.",
 ["histories", "inputs"], "every interleaving of building, tracing, point queries and parameter changes over a shared scene",
 "Single-call tests cannot see state leaking from one call to the next or aliasing of caller arrays.",
 ["optics3d.py", "Shapes/shapes.py", "general_optics.py"], [("rays and elements share no mutable state", "optics3d.py:Ray,Optic"), ("shapes are immutable after construction", "Shapes/shapes.py")],
 ["Ray.get_plot_repr()", "caller-owned arrays", "Detector.hit_data"])

prop("C06", "Planes, discs and rectangles are hit exactly where the ray crosses them",
 "A ray hits a plane when it is not parallel to it and the plane is ahead; it hits a disc when that crossing is within the radius of the centre, and a rectangle when it is within half the height along the tangent and half the width along the other in-plane axis. The reported point is on the ray ahead of its start and on the surface, and the reported normal is the unit surface normal. Otherwise a miss is reported with no point.",
 ["inputs"], "every centre, orientation, size and ray not within rounding of an edge, of grazing incidence or of starting on the surface",
 "Three axis-aligned rays against one unit square are tested; discs, planes, oblique tangents and unequal sides never are.",
 ["Shapes/shapes.py"], [("Plane.test_intersect", "Shapes/shapes.py:Plane"), ("aperture tests", "Shapes/shapes.py:Circle,Rectangle")], ["test_intersect return value"])

prop("C07", "Ray-sphere intersection reports exactly the crossings ahead of the ray",
 "The crossings reported for a sphere are exactly the points where the ray ahead of its start meets the sphere: two when it starts outside and passes through, one when it starts inside, none when it misses or has left it behind, including when it only grazes. Each reported point lies on the ray and on the surface, comes with the unit normal pointing to the centre, and the reported count is odd exactly when the ray starts inside. A point tests as inside exactly when it is nearer the centre than the radius, and a ray leaving the surface does not hit the same spot again.",
 ["inputs"], "every sphere and ray: starts inside, outside and on the surface, at coordinates up to thousands of units, grazing distances above and below the radius, exact tangency ahead and behind",
 "Eight axis-aligned rays against one unit sphere; no start on the surface, no tangent ray behind, no large coordinates, no check of points or normals.",
 ["Shapes/shapes.py"], [("Sphere.test_intersect", "Shapes/shapes.py:Sphere"), ("intersection floor", "Shapes/shapes.py:INTERSECT_CLIPPING_FLOOR")], ["Sphere.test_intersect", "Sphere.test_point"])

prop("C08", "Infinite-cylinder intersection and membership are exact for any axis",
 "The crossings reported for an infinite cylinder are exactly the points where the ray ahead of its start meets the surface at the radius from the axis, nearest first, each with the unit normal pointing perpendicularly to the axis, and the count is odd exactly when a non-parallel ray starts inside. A ray parallel to the axis, or grazing outside, is a miss. A point tests as inside exactly when its distance from the axis is below the radius; none of this depends on the direction of the axis, including axes opposite or almost opposite to +z.",
 ["inputs"], "every centre, radius, axis direction (generic, axis-aligned, antiparallel and nearly antiparallel to +z, unnormalised) and ray",
 "No test touches the cylinder; one demo script uses a single axis.",
 ["Shapes/shapes.py", "general_optics.py"], [("object-space transform and quadratic", "Shapes/shapes.py:InfiniteCylinder"), ("rotation_matrix4", "general_optics.py")], ["InfiniteCylinder.test_intersect", "InfiniteCylinder.test_point"])

prop("C09", "Mirrors obey the law of reflection",
 "A specularly reflected ray leaves at the angle of incidence, in the plane of the incident ray and the normal, unit length, on the same side it came from, whatever the sign or length of the normal supplied; reflecting twice restores the direction. Flat mirrors reflect about their surface normal from either side, and a micromirror-array mirror reflects about its separate micromirror normal at the hit point on its surface. The zeroth order of a grating reflects like a flat mirror.",
 ["inputs"], "every incident direction, mirror orientation, normal sign and length, aperture shape and mirror type",
 "No test calls reflect or builds a Mirror.",
 ["optics3d.py"], [("specular branch", "optics3d.py:Ray.reflect"), ("Mirror.do_intersect", "optics3d.py:Mirror")], ["Ray.direction after reflect/run"])

prop("C10", "Refraction obeys Snell's law and total internal reflection",
 "At an interface the refracted ray is unit length, lies in the plane of incidence on the far side, and satisfies n1 sin(t1) = n2 sin(t2), whatever the sign of the normal supplied. When n1 sin(t1) exceeds n2 the ray is instead reflected specularly, and never otherwise. Refraction is reversible, equal indices leave the ray undeviated, and passing a sequence of parallel interfaces depends only on the first and last index.",
 ["inputs"], "every incidence angle from normal to near grazing and on both sides of the critical angle, every index pair in 1..4, either normal sign",
 "No test calls refract.",
 ["optics3d.py"], [("snells_law branch and TIR test", "optics3d.py:Ray.refract")], ["Ray.direction after refract"])

prop("C11", "Light through refractive solids enters and leaves with the right indices",
 "A ray crossing a ball lens or a refracting compound bends by Snell's law from outside to inside index on every entry and from inside to outside index on every exit (or reflects internally), whether launched outside or inside and whatever other elements share the scene. A ray sent back along its exit path retraces its way to the start. A solid whose index equals the surroundings does not deviate rays.",
 ["inputs", "configurations"], "every ball lens, singlet (sphere intersections), meniscus or concave lens (sphere differences), cylinder and overlapping union, index 1..4, launch inside or outside, with unrelated elements before or after it in the list",
 "Requires tracing two or more surfaces; nothing in the tests refracts.",
 ["optics3d.py", "general_optics.py"], [("inside/outside decision for ball lenses", "optics3d.py:Lens.test_intersect,Lens.do_intersect,Ray.run"), ("inside/outside decision for compounds", "optics3d.py:Compound.do_intersect")], ["Ray.get_plot_repr()", "Ray.direction"])

prop("C12", "Solid membership follows boolean algebra and index lookup follows list order",
 "A point is inside a union, intersection or difference exactly when the same boolean combination of membership in its parts says so, for trees of any shape and depth. The index reported for a point is that of the first element in the list that contains it (compound solids and ball lenses), otherwise the index of the world.",
 ["inputs", "programs"], "every binary tree of operators over spheres and infinite cylinders, every point not within rounding of a surface, every list of solids in every order",
 "Quantifies over all expression trees and all points; tests never evaluate a tree.",
 ["general_optics.py", "optics3d.py"], [("test_tree_point and operators", "general_optics.py:test_tree_point"), ("get_index_at_point", "optics3d.py:get_index_at_point")], ["Compound.get_index_at_point_if_inside", "get_index_at_point", "test_tree_point"])

prop("C13", "A ray meets a compound solid at the first true boundary of the solid",
 "The hit reported for a compound solid is the first point ahead of the ray where it passes from inside to outside of the solid or back, and a miss is reported exactly when there is no such point. The reported normal is perpendicular to the primitive surface at that point. Surfaces of the parts that are buried inside a union, cut away by a difference or outside an intersection never stop or bend a ray. The number of boundary crossings reported is the number there are ahead of the ray.",
 ["inputs", "programs"], "every tree of union, intersection and difference over spheres and infinite cylinders, of any nesting, every ray start (outside, inside the solid, inside only some parts, inside a cut-away part)",
 "Quantifies over all expression trees, start positions and rays; no test intersects a tree.",
 ["general_optics.py", "optics3d.py", "Shapes/shapes.py"], [("ray/tree intersection", "general_optics.py:test_tree_intersect"), ("Compound.test_intersect", "optics3d.py:Compound")], ["Compound.test_intersect", "Ray.get_plot_repr()"])

prop("C14", "Ideal lenses image, collimate and focus perfectly",
 "Every ray from an object point at distance o > f in front of an ideal lens passes, after the lens, through the conjugate image point given by 1/o + 1/i = 1/f with inverted transverse magnification i/o; rays through the centre are undeviated, rays parallel to the axis cross it at the focal point, and light from inside the focal length appears to come from the virtual image. A collimating lens sends every ray out along its axis and a focusing lens sends every ray through its focal point, on the far side from where the ray came. A train of lenses on one axis images through each in turn, in whatever order they are listed. Rays outside the lens aperture are unaffected.",
 ["inputs"], "every lens position, orientation, normal sign, positive focal length and aperture, object points on and off axis, incidence from either side",
 "No test builds a lens; demos look at one axis-aligned layout by eye.",
 ["optics3d.py"], [("thin_lens, ideal_collimate, ideal_focus branches", "optics3d.py:Ray.refract"), ("aperture", "optics3d.py:Lens.test_intersect")], ["Ray.direction and path after the lens"])

prop("C15", "Curved mirrors reflect at their true spherical surface",
 "A concave spherical mirror is the cap, as wide as its aperture, of the sphere of radius twice its focal length that touches its position and is centred on its normal's side. A ray is reflected at the first point ahead of it on that cap, from either side, about the normal there, and passes when it meets none: rays from the centre of curvature return to it, and narrow beams parallel to the axis meet at the focal length. A convex spherical mirror reflects at the first point of its sphere about the outward normal, so a ray aimed at the centre returns along itself. A ray that has bounced off a curved mirror does not hit the same spot again.",
 ["inputs"], "every mirror position, orientation, focal length or diameter and aperture, launch points anywhere, coordinates up to thousands of units",
 "No test builds a mirror.",
 ["optics3d.py", "Shapes/shapes.py"], [("concave/convex branches", "optics3d.py:Mirror.test_intersect"), ("Sphere.test_intersect", "Shapes/shapes.py")], ["Ray.get_plot_repr()", "Ray.direction"])

prop("C16", "Diffraction gratings obey the grating equation",
 "For light meeting the front of a reflection grating, the outgoing angle b and incident angle a from the normal, measured in the plane perpendicular to the grooves and positive towards the incident side, satisfy G m lambda = sin a + sin b for groove density G and order m, on whichever side of the normal the light arrives; the component of the direction along the grooves is unchanged. Order zero is the mirror reflection, positive orders turn back towards the incident light, and longer wavelengths are deviated further from order zero. An order that cannot propagate ends the ray there instead of producing an undefined direction. Away from gratings, wavelength and order make no difference to any path.",
 ["inputs"], "every groove density, order, wavelength, grating orientation and front-side incidence angle of either sign, in and out of the dispersion plane",
 "No test builds a grating; the demo only uses one sign of the incidence angle.",
 ["optics3d.py"], [("grating branch", "optics3d.py:Ray.reflect"), ("Grating.do_intersect", "optics3d.py:Grating")], ["Ray.direction", "Ray.blocked"])

prop("C17", "Detectors record every ray that reaches them exactly once and absorb it",
 "Each ray that reaches a detector within its distance budget adds exactly one record to it, holding the hit point on the detector's surface followed by the ray's wavelength, in the order the rays were traced; the ray ends there. Rays that miss, are absorbed earlier or run out of distance add nothing, and no other detector's record changes.",
 ["histories", "inputs"], "every set and order of rays and detectors, several detectors, detectors behind other elements, repeated runs",
 "No test builds a detector.",
 ["optics3d.py"], [("Detector.do_intersect", "optics3d.py:Detector"), ("blocked flag", "optics3d.py:Ray.run")], ["Detector.hit_data", "Ray.blocked", "Ray.position"],
 [("hit_data", "list of x,y,z,wavelength records", "optics3d.py:Detector")])

prop("C18", "Ray sources produce the documented bundles and probe rays stop at first contact",
 "The image source gives exactly one ray per grid point and angle, on a square grid of the stated size centred on the axis at the stated distance, with unit directions fanned evenly over plus/minus the stated angle, coloured by whether the point lies in the central disc, and rejects resolutions below one. The surface-probe source appends exactly the requested number of rays, all on the stated sphere, drawn afresh on every call and aimed at its centre, keeping the rays already in the list. A probe ray stops at the first surface it meets and changes nothing there.",
 ["inputs"], "every size, angle, resolution, pattern diameter, count, radius and centre; every scene for probe rays",
 "No test touches the sources.",
 ["general_optics.py", "optics3d.py"], [("image_rays", "general_optics.py:image_rays"), ("add_faerie_fire_rays", "optics3d.py:add_faerie_fire_rays"), ("probe branch", "optics3d.py:Ray.run")], ["returned lists", "Ray.position", "Ray.blocked", "Detector.hit_data"])

prop("C19", "Vector helpers satisfy their geometric laws",
 "Normalising gives a parallel unit vector; distance is symmetric and satisfies the triangle inequality; projecting onto a plane gives a vector in the plane, is idempotent, differs from the input by a multiple of the normal and ignores the normal's length and sign. The unsigned angle between two vectors is defined for every pair of non-zero vectors, lies in 0..pi, is symmetric and scale free, and recovers the rotation angle; the signed angle is its counter-clockwise value about the given normal and changes sign when the vectors swap or the normal flips.",
 ["inputs"], "every non-zero 3-vector, including parallel, antiparallel and nearly parallel pairs and magnitudes from 1e-6 to 1e6",
 "Two angle cases and six projections are tested; parallel vectors and general magnitudes are not.",
 ["general_optics.py"], [("unit_vector, angle_between, distance_between, project_onto_plane", "general_optics.py")], ["return values"])

prop("C20", "Rotation and transform matrices are what they claim to be",
 "The axis-angle matrix is a proper rotation that fixes its axis, turns perpendicular vectors counter-clockwise by the angle, composes additively and ignores the axis length. The align matrices are proper rotations carrying the first direction onto the second, by a turn in the plane of the two, for every pair of non-zero vectors, including equal, opposite and nearly opposite ones, as 3x3 or 4x4, and the row-vector variant is the transpose of the other. The 4x4 scaling and translation matrices act on homogeneous points and directions exactly as named, and none of them modifies its inputs.",
 ["inputs"], "every axis, angle and pair of vectors (float or integer arrays), including the degenerate pairs",
 "Four rotations about x by simple angles are tested; the align and 4x4 matrices never are.",
 ["general_optics.py"], [("rotation_matrix_axis_angle, rotation_matrix, rotation_matrix2, rotation_matrix4, scaling_matrix4, translation_matrix4", "general_optics.py")], ["return values", "input arrays"])

prop("C21", "The solid-description tree stores what was inserted and prints it faithfully",
 "Inserting a child puts the new node directly under its parent on the chosen side and pushes an existing child on that side one level down on the same side; reading and replacing values touches only that node. Printing a well-formed solid description yields its fully parenthesised expression in left-to-right order with the right operator between each pair.",
 ["histories", "programs"], "every sequence of insertions, reads and value changes; every well-formed expression tree",
 "Histories of tree edits are not tested; one demo prints one tree.",
 ["general_optics.py"], [("BinaryTree", "general_optics.py:BinaryTree"), ("postOrderEval", "general_optics.py:postOrderEval")], ["BinaryTree accessors", "postOrderEval return value"])

prop("C22", "Elements accept valid descriptions, reject bad ones and can be printed",
 "A sphere, disc or cylinder given a radius or a diameter, or both in agreement, has consistent radius and diameter; giving neither or conflicting values is rejected, as are missing or negative rectangle sides, non-perpendicular tangents and unknown surface kinds. Rectangle corners are the centre plus and minus half the height along the tangent and half the width across it, all stored directions are unit length, and every optional parameter may be left out. Every ray, shape and element can be printed, and the text of a ray or of an element with a position shows that position, and its direction if it has one, to five significant digits.",
 ["inputs", "configurations"], "every combination of present, absent, consistent and inconsistent parameters; integer and float arrays",
 "Tests build one sphere and one rectangle with valid parameters.",
 ["Shapes/shapes.py", "optics3d.py"], [("check_R_and_D, check_h_and_w, Rectangle checks", "Shapes/shapes.py"), ("constructors and __repr__", "optics3d.py")], ["constructor results or ValueError", "repr()"])

prop("C23", "Number formatting keeps the requested significant digits",
 "Formatting a finite number to p significant digits gives text that reads back as the nearest p-digit value, shows exactly p significant digits, keeps the sign, and uses exponent notation exactly when the decimal exponent is below -2 or at least p. Zero and not-a-number have their fixed forms.",
 ["inputs"], "every finite double of magnitude 1e-280..1e300 and zero, either sign, precision 1..15, including values about to round up to the next power of ten",
 "No test calls it; the carry and exponent boundaries are a tiny part of the input space.",
 ["general.py"], [("to_precision", "general.py:to_precision")], ["returned string", "repr of rays and elements"])

prop("C24", "Wavelength-to-colour mapping is bounded, clamped and continuous",
 "Every wavelength maps to three colour components within 0..1, wavelengths outside the chosen floor and ceiling map to the colour at the nearest limit, and within 380 to 750 nm the mapping has no jumps. Gamma raises each component to that power. Hue follows the spectrum: red falls to zero by 440 nm, blue dominates to 490, green to 580, and only red remains beyond 645, with intensity tapering towards both ends.",
 ["inputs"], "every wavelength from deep ultraviolet to infrared, every positive gamma, every floor and ceiling",
 "No test calls it.",
 ["general.py"], [("wavelength_to_rgb", "general.py:wavelength_to_rgb")], ["returned (R, G, B)"])

prop("C25", "Data helpers compute what they document",
 "Wavelength and photon-energy conversions are mutually inverse and reciprocal; nearest-value search returns an element and index at minimal distance; logarithmic interpolation passes through its data and reproduces power laws; the moving average keeps the length and is the mean of its window, with zeros beyond the ends of the data. The smoothing filter reproduces polynomials up to its order, and their derivatives at the given rate, away from the ends, continues the data past its ends by mirroring it there, downwards from the first value and upwards from the last, is linear, keeps the length and rejects windows that are even or too small.",
 ["inputs"], "every valid array, window, order, derivative, rate and wavelength",
 "No test calls any of them.",
 ["general.py"], [("savitzky_golay, movingAverageFast, find_nearest, log_interp1d, wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm", "general.py")], ["return values"])

prop("C26", "Fermi-Dirac and ideal-gas helpers agree with their defining formulas",
 "For arguments from -20 to 20 the numerical Fermi-Dirac integrals of order -1/2, 1/2 and 3/2 agree with direct quadrature of their definition to five parts in ten thousand millions or a part in a million, are positive and increase with the argument; below that they are the exponential and above it the leading power of the argument. The roman form is the script form times half the root of pi, and the closed-form approximation of order 1/2 agrees with quadrature to two parts in ten thousand, and ever closer towards both ends. Quantum concentration follows its formula, as the three-halves power of temperature and mass, and entropy is extensive and follows the Sackur-Tetrode formula.",
 ["inputs"], "every argument from -40 to 200, every positive density, mass, volume and temperature in physical range",
 "No test calls any of them.",
 ["general.py"], [("FD_int_num, FD_int_approx, get_nQ, sackurTetrode", "general.py")], ["return values"])

prop("C27", "Bulk file deletion removes exactly the matching files of the given folder",
 "Deleting by extension removes every file in the folder whose name ends with the extension, in subfolders too only when asked, and removes nothing else: other files, folders (even with a matching name) and everything outside the folder stay. It names each file it removes, and no other, on standard output, and completes without error on any folder contents.",
 ["inputs", "configurations"], "every directory tree of files and folders with matching and non-matching names, both modes",
 "No test calls it.",
 ["general.py"], [("delete_files_with_extension", "general.py")], ["the folder's contents afterwards"])

prop("C28", "Drawings show elements where they are, with equal axes",
 "The outline drawn in 3D for a flat or concave mirror, ideal lens, grating or detector lies in the element's plane, centred on its position, and coincides with the edge of its active area; the surface drawn for a ball mirror or ball lens has its centre and radius. A flat patch can be placed on any plane by name or normal, and the drawing can be rendered. In the flat views (xy or tangential, xz or sagittal) a round flat mirror is marked at its position. Equalising axes gives all three the largest span while keeping their centres, and drawing changes nothing about how the scene traces.",
 ["inputs", "configurations"], "every position, orientation (including along and opposite to the plotting axis), size and element kind",
 "No test draws anything.",
 ["optics3d.py", "general_optics.py", "general.py"], [("draw methods", "optics3d.py"), ("pathpatch_2d_to_3d, pathpatch_translate, rotation_matrix", "general_optics.py"), ("set_axes_equal", "general.py")], ["artists on the axes", "axis limits"])

prop("C29", "Text tables contain every value in order",
 "The table formatters output every value of the array, in order and in the requested number format, with the requested padding and indentation: ten values to a line for the fixed layout, lines filled up to but never beyond the requested width (if it can hold one value) for the wrapped one. Reading the text back gives the formatted values.",
 ["inputs"], "every array of finite numbers of any length, pad and indent counts, format strings and line widths",
 "No test calls them.",
 ["general.py"], [("prism10widetextarray, nparray2spacedstring", "general.py")], ["returned text"])

prop("C30", "Printing a ray's trajectory tells what it does and changes nothing",
 "A ray prints nothing unless asked to, and a ray asked to print its trajectory follows bit for bit the path, end state and detector records of a silent one. What it prints is its own story: its state when created; for every run a begin line, then for each flight whether it meets an element ('intersected') or not, followed by its state at the end of that flight, then its state again after a refraction, or the wavelength and the angle by which a grating of non-zero order turned the light away from its mirror direction (counter-clockwise about its tangent); and a complete line. Each printed state is the position and direction the ray has at that moment, to five significant digits.",
 ["inputs", "histories"], "every scene, ray, and sequence of flights and full, partial or limited runs, with printing switched on at or after creation",
 "No test captures output or compares a printing ray with a silent one.",
 ["optics3d.py"], [("print_trajectory branches", "optics3d.py:Ray.__init__,Ray.fly,Ray.refract,Ray.reflect,Ray.run"), ("Ray.__repr__", "optics3d.py:Ray.__repr__")],
 ["standard output", "Ray.get_plot_repr()"])

prop("C31", "Light paths are reversible",
 "A ray sent back along its last direction, from where its trace ended in free flight and for the distance it had flown, passes through the same points in reverse order and arrives at the launch point against the launch direction. This holds through every sequence of mirrors (flat, rectangular, concave, convex, tilted micromirrors), ideal lenses, ball lenses, refracting and reflecting solids (total internal reflection included), and gratings, for a grating order m with the order that diffracts back: m where the light leaves on the side it came from, -m where it leaves on the other side of the normal.",
 ["inputs", "configurations"], "every scene of those elements, every ray whose path is not within rounding of an edge, a tie, grazing incidence or the critical angle, and is not extremely sensitive to its start",
 "Needs whole traces, there and back, over many element combinations; no test traces a ray.",
 ["optics3d.py", "Shapes/shapes.py", "general_optics.py"], [("Ray.run, reflect, refract", "optics3d.py:Ray"), ("element intersections", "optics3d.py, Shapes/shapes.py, general_optics.py")],
 ["Ray.get_plot_repr()", "Ray.direction"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
