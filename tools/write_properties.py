#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
X = "xrd_simulator/"

prop("P01", "Rigid motion is exactly rotate-about-origin then translate",
 "Calling a rigid body motion on points at time t returns, for every point x, R(axis, t*angle)(x - origin) + origin + t*translation with a right-handed rotation, whatever of the accepted layouts is used: one point, (N,3) points or (N,4,3) vertex groups, with one shared time or one time per point/group. Row i of the result depends only on row i of the input (and its own time), keeps the input's layout, and the input arrays are not modified.",
 ["inputs"], "all unit axes, angles in (0,pi), translations, origins, times and points; all accepted array layouts, including N=1, N=3 and N=4 where layouts can be confused",
 "Tests sample a few random motions and mostly scalar times; the formula must hold for every axis, angle, origin and layout.",
 [X+"motion.py"], [("RigidBodyMotion.__call__", X+"motion.py"), ("_RodriguezRotator", X+"motion.py")],
 ["RigidBodyMotion.__call__"])

prop("P02", "Pure rotation, pure translation and the inverse motion",
 "Rotating vectors with a motion applies only R(axis, t*angle): it ignores the motion's origin and translation and preserves lengths and angles between vectors. Translating applies only +t*translation to every vector and refuses times outside [0,1]. The inverse motion has the negated axis and translation and the same angle and origin, so rotating with a motion and then with its inverse at the same time returns the original vectors, and neither call changes the original motion.",
 ["inputs", "histories"], "all unit axes, angles, times, vectors; per-vector and shared times",
 "Tests use a handful of random vectors; group and isometry laws are universally quantified.",
 [X+"motion.py"], [("RigidBodyMotion.rotate/translate/inverse", X+"motion.py")],
 ["RigidBodyMotion.rotate", "RigidBodyMotion.translate", "RigidBodyMotion.inverse"])

prop("P03", "Laue solutions are sound: every reported peak satisfies Laue",
 "Every (element, plane, time) that the time-dependent Laue solver reports has a time within [0,1] and is a root of rho_0 cos(w t)+rho_1 sin(w t)+rho_2 = 0 for that element and plane, i.e. the rotated scattering vector added to the incident wave vector has the incident wave vector's length. The reported diffraction vector is that element's and plane's own un-rotated vector, and no value reported is non-finite.",
 ["inputs"], "all scattering vectors, coefficients, rotation angles in (0,pi); several elements and planes at once; inputs arrays unmodified",
 "Tests check one synthetic crystal; the quadratic has special cases (double root, vanishing leading coefficient, negative discriminant) that sampling does not reach.",
 [X+"laue.py"], [("_find_solutions_to_tangens_half_angle_equation", X+"laue.py")],
 ["laue._find_solutions_to_tangens_half_angle_equation"])

prop("P04", "Laue solutions are complete: no diffraction event is missed",
 "For every element and plane, every time t in [0,1] that solves rho_0 cos(w t)+rho_1 sin(w t)+rho_2 = 0 is reported for that element and plane, including solutions at the ends of the interval, double roots and the degenerate case in which the tangent half-angle equation becomes linear.",
 ["inputs"], "all coefficient values and rotation angles in (0,pi) for which the equation is not identically zero",
 "A missed event has measure-zero or rare coefficient conditions that tests never sample; absence of a solution is not observable by example.",
 [X+"laue.py"], [("_find_solutions_to_tangens_half_angle_equation", X+"laue.py")],
 ["laue._find_solutions_to_tangens_half_angle_equation", "Polycrystal.diffract"])

prop("P05", "Peak rows are self-consistent",
 "In every row of the diffraction peak table the columns describe one and the same event: G0 = U B hkl of that row's element, G is G0 rotated by the motion at the row's time, K_out is the incident wave vector plus G, the source point is the element's bounding-sphere centre moved by the motion to that time, the volume is that element's volume, and 2theta, Lorentz, polarisation and Scherrer values are those of that row's K_out and volume. peak_index numbers the returned rows 0..n-1 and the column names match the column contents.",
 ["inputs"], "all orientations, beams, motions and meshes within the stated structural bounds; several elements and planes in one table",
 "Tests compare few rows of a fixed set-up; a row mix-up or a wrong frame shows only for particular combinations of elements, planes and times.",
 [X+"polycrystal.py", X+"laue.py", X+"scattering_factors.py"], [("Polycrystal._compute_peaks", X+"polycrystal.py"), ("Polycrystal.diffract", X+"polycrystal.py")],
 ["Polycrystal.diffract"])

prop("P06", "Only illuminated sources diffract, and all of them do",
 "The peak table returned by diffract contains exactly those Laue solutions whose source point, at its own diffraction time, lies inside the beam's convex hull; a solution is neither dropped because of, nor kept in spite of, the illumination of any other element, time or phase.",
 ["inputs"], "all element positions relative to the beam, all motions",
 "Tests use samples that are fully inside or clearly outside the beam.",
 [X+"polycrystal.py", X+"beam.py"], [("illumination filter in diffract", X+"polycrystal.py"), ("Beam._contains", X+"beam.py")],
 ["Polycrystal.diffract"])

prop("P07", "Phases: elements diffract from their own phase only",
 "An element contributes peaks only from the Miller indices of the phase it is mapped to, with that phase's own unit cell in its B matrix, that reflection's own structure factor |F|^2 = F_re^2+F_im^2, and its own phase number; reflections with vanishing structure factor contribute nothing and a phase without a CIF file gets structure factor 1 for every reflection. With a single phase the phase map may be omitted and the result is the same as with a map of zeros.",
 ["inputs", "configurations"], "all phase maps over the elements (including phases with no elements), all structure factor values, all phase counts within bounds",
 "Tests use one phase map and never permute phases against structure factors.",
 [X+"polycrystal.py", X+"phase.py"], [("Polycrystal._compute_peaks", X+"polycrystal.py"), ("Polycrystal._instantiate_phase/_instantiate_eB", X+"polycrystal.py")],
 ["Polycrystal.diffract"])

prop("P08", "Bragg-angle bounds select exactly the requested reflections",
 "Diffraction considers the reflections whose sin(theta)/lambda lies between sin(min)/wavelength and sin(max)/wavelength of the requested Bragg angle bounds. When a detector is given the upper bound is half the largest angle between the beam and the directions from the illuminated source point to the detector's four corners, but never larger than the requested maximum; with a detector, bounds with min<0 or min>=max (after that cap) are refused.",
 ["inputs"], "all wavelengths, bounds, detector placements and illuminated node subsets",
 "Tests compare fixed numbers for one geometry.",
 [X+"polycrystal.py", X+"phase.py", X+"detector.py"], [("Phase._setup_diffracting_planes", X+"phase.py"), ("Polycrystal._get_bragg_angle_bounds", X+"polycrystal.py"), ("Detector._get_wrapping_cone", X+"detector.py")],
 ["Polycrystal.diffract", "Detector._get_wrapping_cone"])

prop("P09", "Detector hit coordinates are the true ray-plane intersection",
 "For each peak the reported (zd, yd) satisfy corner0 + zd*zdhat + yd*ydhat = source + s*K_out for the unique s >= 0, and the incident angle is the angle between the ray and the detector's inward normal; a ray that only meets the detector plane behind its source, or never, is not reported. Exactly the peaks with 0 <= zd <= zmax and 0 <= yd <= ymax are kept, in their original order and with their original columns unchanged.",
 ["inputs"], "all rectangular detector placements, all sources and ray directions",
 "Tests check a few rays on one detector.",
 [X+"detector.py"], [("Detector._get_intersection", X+"detector.py"), ("Detector.contains", X+"detector.py"), ("Detector.peaks_detector_intersection", X+"detector.py")],
 ["Detector.peaks_detector_intersection", "Detector._get_intersection"])

prop("P10", "Detector geometry follows from the three corners and the pixels",
 "For every rectangular corner triple the detector's axes are unit vectors along corner0->corner2 (z) and corner0->corner1 (y), its normal is the unit vector zdhat x ydhat, zmax and ymax are the side lengths, and pixel (i,j) has coordinate corner0 + i*pixel_size_z*zdhat + j*pixel_size_y*ydhat. When n_pixels is given the pixel sizes are the sides divided by the pixel counts (rows with z, columns with y); giving both or neither of n_pixels and pixel_size is refused.",
 ["inputs", "configurations"], "all corner positions with orthogonal sides, all pixel sizes and counts within bounds, scalar and pair forms",
 "Tests use one axis-aligned detector with square pixels.",
 [X+"detector.py"], [("Detector.__init__", X+"detector.py"), ("Detector._get_pixel_coordinates", X+"detector.py")],
 ["Detector.__init__"])

prop("P11", "Frame binning: each peak lands in exactly the frame of its time",
 "With n frames requested every visible peak is given exactly one integer frame index f in 0..n-1 with f/n <= t <= (f+1)/n for its own diffraction time t in [0,1], including t=0, t=1 and the bin edges; with n <= 1 every peak is in frame 0. The assignment does not depend on the other peaks or on their order.",
 ["inputs"], "all times in [0,1], all frame counts within bounds, all numbers and orders of peaks within bounds",
 "Tests use generic interior times; edges and clamping are boundary cases.",
 [X+"detector.py"], [("frame assignment in peaks_detector_intersection", X+"detector.py")],
 ["Detector.peaks_detector_intersection", "Detector.render"])

prop("P12", "Intensity factor is the product of exactly the enabled factors",
 "Each kept peak's intensity factor is the product of exactly those of its own structure factor, polarisation factor and Lorentz factor that are enabled on the detector (1 if none is enabled). A peak is discarded only if it misses the detector or that product is not finite or not positive, and every other peak is kept; the caller's peak dictionary, its tensor and its column list are not modified.",
 ["inputs", "configurations"], "all factor values including inf, nan, zero and negative; all eight switch combinations; several peaks",
 "Tests toggle few switches on generic values; invalid values are rare.",
 [X+"detector.py"], [("intensity factors in peaks_detector_intersection", X+"detector.py")],
 ["Detector.peaks_detector_intersection", "Detector.render"])

prop("P13", "Gaussian (micro) rendering conserves and superposes intensity",
 "Gaussian rendering is the sum over peaks of one spot per peak in that peak's frame: a spot whose kernel footprint lies on the detector adds up to intensity_factor*volume, up to the per-pixel cut-off below which a contribution is dropped, has its weights symmetric and monotonically decreasing about the true sub-pixel hit position, and touches no pixel outside the kernel radius. Pixels off the detector receive nothing and never wrap around, no contribution is lost when several peaks share a pixel or when peaks are processed in batches, and no pixel is ever negative.",
 ["inputs", "configurations"], "all hit positions, volumes, intensity factors, frames, batch splits (free-memory values) and Gaussian widths within bounds",
 "Tests render a few spots; edge, sharing and batch-boundary cases need >10000 peaks or special positions.",
 [X+"detector.py"], [("Detector._render_gauss_peaks", X+"detector.py")],
 ["Detector.render(method='micro')"])

prop("P14", "Airy (nano) rendering conserves and superposes intensity",
 "Nano rendering deposits for every peak a non-negative kernel of its own Scherrer width, bilinearly split over the four neighbouring pixels of the true sub-pixel hit position, weighted by intensity_factor*volume, into that peak's own frame: deposited total equals the kernel total times the intensity for footprints inside the detector. The result does not depend on how peaks are ordered or grouped into memory-limited batches, and every peak is deposited exactly once for every amount of free memory.",
 ["inputs", "configurations"], "all hit positions, intensities, frames, free-memory values and peak orders within bounds",
 "Tests never run out of memory and render few peaks.",
 [X+"detector.py"], [("Detector._render_airy_peaks", X+"detector.py"), ("Detector._deposit_kernels_batch", X+"detector.py"), ("Detector._airy_kernel_batch", X+"detector.py")],
 ["Detector.render(method='nano')"])

prop("P15", "Projected-volume (macro) rendering distributes illuminated volume",
 "In macro rendering each peak adds, into its own frame, intensity_factor times pixel area times the illuminated volume of its own element moved to its own diffraction time, distributed over pixels in proportion to the path length of the pixel's ray along that peak's scattered direction through that illuminated volume; pixels whose ray misses the volume get nothing from it (a volume that no ray hits deposits nothing), contributions of several peaks add up, and frames never contain NaN.",
 ["inputs"], "all hull shapes, positions relative to the pixel grid, scattered directions and intensities within bounds",
 "Tests render one or two crystals; grazing and partially visible hulls are rare.",
 [X+"detector.py", X+"utils.py"], [("Detector._render_projected_volumes", X+"detector.py"), ("Detector._project_convex_hull", X+"detector.py"), ("Detector._get_projected_bounding_box", X+"detector.py")],
 ["Detector.render(method='macro')"])

prop("P16", "Automatic rendering partitions peaks by grain volume",
 "Automatic rendering renders every visible peak by exactly one method chosen by its own volume: macro if volume >= macro limit (by default the cube of the smaller pixel side), otherwise nano if volume < micro limit, otherwise micro; the frames are the sum of the three methods' frames for those subsets. Unknown method names are refused and frame counts below one are treated as one.",
 ["inputs", "configurations"], "all peak volumes including the thresholds themselves, all limits with micro limit <= macro limit, all frame counts within bounds",
 "Tests do not hit the thresholds.",
 [X+"detector.py"], [("Detector.render", X+"detector.py")],
 ["Detector.render(method='auto')"])

prop("P17", "Point-spread convolution: unit-sum kernel, shift-invariant, linear",
 "The detector's Gaussian kernel is non-negative, symmetric, sums to one and is monotonically decreasing with distance for every sigma, threshold and maximum radius, and never exceeds the maximum radius. Applying the point spread function to frames is linear, keeps the shape, treats every frame of a stack separately, and preserves the total intensity of sources at least a kernel radius away from the border.",
 ["inputs", "configurations"], "all gaussian_sigma > 0, thresholds and radii within bounds, all frame contents of bounded size and rank 2 and 3",
 "Tests look at one kernel.",
 [X+"detector.py"], [("Detector._generate_gaussian_kernel", X+"detector.py"), ("Detector._conv2d_gaussian_kernel", X+"detector.py")],
 ["Detector._conv2d_gaussian_kernel", "Detector.gaussian_kernel"])

prop("P18", "Line clipping returns the exact chord length",
 "For every convex polyhedron given by points and outward normals of its faces and every bundle of parallel lines, the clipped length of each line is the length of its intersection with the polyhedron: the chord length if it crosses, and zero if it misses, including lines parallel to some of the faces.",
 ["inputs"], "all convex polyhedra with a bounded number of faces, all line directions and base points",
 "Tests clip a cube with a few lines.",
 [X+"utils.py"], [("_clip_line_with_convex_polyhedron", X+"utils.py")],
 ["utils._clip_line_with_convex_polyhedron"])

prop("P19", "Beam construction and containment",
 "A beam's wave vector points along the given propagation direction with length 2*pi/wavelength and its polarisation vector is the normalised input, refused if not perpendicular to the wave vector. A point (single or one of many) is contained exactly if it is strictly inside every half-space of the beam's hull, independently of the other points tested; replacing the beam vertices updates vertices, centroid and half-spaces together.",
 ["inputs", "histories"], "all directions of any length, wavelengths > 0, polarisations, points; sequences of vertex replacement",
 "Tests use one box-shaped beam and a few points.",
 [X+"beam.py"], [("Beam.__init__/set_beam_vertices/_contains", X+"beam.py")],
 ["Beam.__init__", "Beam._contains"])

prop("P20", "Beam-element intersection volume is computed from a valid interior",
 "Intersecting an element with the beam returns the element's own hull if all its vertices are inside the beam, None only when no common interior point was found, and otherwise the hull of the intersection of both half-space sets started from a point that is strictly inside the beam and inside the element.",
 ["inputs"], "all tetrahedra positions relative to the beam (hull and linear-programming back ends taken by contract)",
 "Tests use a few tetrahedra; which interior-point strategy is used depends on rare relative positions.",
 [X+"beam.py"], [("Beam._intersect", X+"beam.py"), ("Beam._find_feasible_point", X+"beam.py")],
 ["Beam._intersect"])

prop("P21", "Mesh geometry is derived correctly from the nodes",
 "For every non-degenerate tetrahedral mesh, whatever the node ordering of its elements, each element's faces are its four node triples, face normals are outward unit vectors orthogonal to their face, element centroids are vertex means, the mesh centroid is the mean of element centroids, element volumes are positive and equal |det|/6, and element volumes used for diffraction agree with the mesh's.",
 ["inputs"], "all node coordinates and node orders of meshes with a bounded number of elements",
 "Tests use one generated mesh whose node order is fixed by the mesher.",
 [X+"mesh.py", X+"utils.py"], [("TetraMesh._expand_mesh_data", X+"mesh.py"), ("_compute_tetrahedra_volumes", X+"utils.py")],
 ["TetraMesh.generate_mesh_from_vertices", "Polycrystal.mesh_volumes"])

prop("P22", "Element bounding spheres contain their element",
 "For every non-degenerate tetrahedron, the reported bounding sphere contains all four of its vertices; it is the smallest sphere through its two farthest vertices if that contains the element, otherwise the circumscribed circle sphere of a face containing it, otherwise the circumscribed sphere, with radius enlarged by at most 0.02 percent. Spheres of different elements do not influence each other.",
 ["inputs"], "all node coordinates in general position, elements of every shape class, several elements at once",
 "Tests draw random tetrahedra; the selection cascade has rare shape classes.",
 [X+"mesh.py", X+"utils.py"], [("TetraMesh._compute_mesh_spheres", X+"mesh.py"), ("_circumsphere_of_*", X+"utils.py")],
 ["TetraMesh.eradius", "TetraMesh.espherecentroids"])

prop("P23", "Mesh motion keeps all derived data consistent, for any history",
 "After any sequence of mesh translations, rotations and rigid-body updates, node coordinates are the composition of exactly those motions applied in order to the original coordinates, and face normals, element centroids, sphere centres and mesh centroid equal what recomputing them from the current coordinates gives; radii, volumes and connectivity are unchanged.",
 ["inputs", "histories"], "all initial coordinates, all motions, all operation sequences up to the stated length, including translate after update",
 "Tests apply one operation to one mesh; only mixed histories reveal stale state.",
 [X+"mesh.py"], [("TetraMesh.translate/rotate/update", X+"mesh.py")],
 ["TetraMesh.translate", "TetraMesh.rotate", "TetraMesh.update"],
 [dict(name="_mesh.points", meaning="second copy of the node coordinates", where=X+"mesh.py")])

prop("P24", "Transforming a polycrystal moves mesh, orientation and strain together",
 "Transforming a polycrystal by a motion at time t moves its lab mesh by that motion, multiplies every lab orientation by R from the left and turns every lab strain into R strain R^T with the same R, while the sample-frame mesh, orientation and strain, the lattice B matrices and the input objects stay untouched. Repeated transforms compose, and the transformed crystal's scattering vectors are the rotated ones of the original.",
 ["inputs", "histories"], "all orientations, strains, motions, times; sequences of transforms up to the stated length",
 "Tests transform once.",
 [X+"polycrystal.py"], [("Polycrystal.transform", X+"polycrystal.py"), ("deep copies in Polycrystal.__init__", X+"polycrystal.py")],
 ["Polycrystal.transform"])

prop("P25", "Strain and lattice matrices convert consistently and reversibly",
 "For every feasible strain tensor and reference lattice, the deformed lattice matrix B obtained from the strain satisfies F = B0 B^-1 upper triangular with positive diagonal and F^T F = I + 2*strain (crystal frame), and converting back returns the six strain components in the order e11,e12,e13,e22,e23,e33. A strain given in lab coordinates is first expressed in each crystal's own frame by its own orientation; strains with a negative eigenvalue of I + 2*strain are refused with a ValueError in single and batched form.",
 ["inputs"], "all symmetric strains, orthogonal orientations, invertible B0; single and batched",
 "Tests check small strains at a few values.",
 [X+"utils.py"], [("_epsilon_to_b", X+"utils.py"), ("_b_to_epsilon", X+"utils.py"), ("_lab_strain_to_B_matrix", X+"utils.py")],
 ["utils._epsilon_to_b", "utils._b_to_epsilon", "utils._lab_strain_to_B_matrix"])

prop("P26", "Structure factors equal the crystallographic sum",
 "For every reflection the computed structure factor equals the sum over atoms and symmetry operations of occupancy*multiplicity/(number of operations) * displacement factor * (f + f' + i f'') * exp(2 pi i h.(R x + t)), with isotropic atoms damped by exp(-8 pi^2 U s^2), anisotropic atoms by the symmetry-rotated tensor, and atoms without displacement data undamped, for any mixture and order of atom kinds. Values of different reflections do not influence each other.",
 ["inputs", "configurations"], "all positions, occupancies, displacement parameters, dispersion terms and Miller indices; mixtures of displacement kinds within bounds",
 "Tests compare one quartz CIF against xfab.",
 [X+"structure_factors.py"], [("compute_structure_factors_batch", X+"structure_factors.py")],
 ["structure_factors.compute_structure_factors_batch"])

prop("P27", "Scattering correction factors match their formulas",
 "For every incident and scattered wave vector of equal length and rotation axis, the Lorentz factor is 1/(sin 2theta |sin eta|), and infinite exactly when eta is within 0.5 degrees of 0 or 180 or theta is below 0.5 degrees; the polarisation factor is 1-(p.k_out/|k_out|)^2 and lies in [0,1]; the Scherrer width is K*lambda/(D cos theta) with D the diameter in Angstrom of the sphere of the given volume in cubic microns. Each value depends on its own reflection only.",
 ["inputs"], "all vectors, volumes, wavelengths; several reflections at once and single-vector form",
 "Tests use a few fixed vectors.",
 [X+"scattering_factors.py"], [("_lorentz, _polarization, _scherrer", X+"scattering_factors.py")],
 ["scattering_factors"])

prop("P28", "Saved objects load back as equal objects",
 "Saving and loading a beam, detector, motion or polycrystal returns an object whose geometry, wavelength, switches, orientations, strains, phase map and lattice matrices equal the saved ones and which behaves the same in later calls; the file extension is appended when missing, and loading a file without the right extension is refused with a ValueError.",
 ["inputs", "histories"], "all field values, objects saved after any bounded history of updates (pickling itself taken as faithful)",
 "Tests save one freshly built object each and compare few fields.",
 [X+"beam.py", X+"detector.py", X+"motion.py", X+"polycrystal.py"], [("save/load pairs", X+"beam.py")],
 ["Beam.load", "Detector.load", "RigidBodyMotion.load", "Polycrystal.load"])

prop("P29", "s3dxrd template reproduces the requested geometry",
 "For every parameter set the s3dxrd template returns a detector perpendicular to the x-axis at the given distance with the given pixel sizes and counts whose pixel (detector_center_pixel_z, detector_center_pixel_y) is hit by the beam axis, a beam along +x with the given wavelength, y-polarisation and a cross-section of the given side lengths centred on the x-axis reaching from minus to plus the detector distance, and a motion about the given axis by the rotation step without translation; any missing parameter is refused.",
 ["inputs", "configurations"], "all positive parameter values, square and rectangular pixels and detectors, each missing key",
 "Tests use one square parameter set, where swapping y and z is invisible.",
 [X+"templates.py"], [("s3dxrd and helpers", X+"templates.py")],
 ["templates.s3dxrd"])

prop("P30", "Orientation sampling draws valid orientations from the density",
 "Quaternions made from spherical angles have unit norm; the bins of the orientation grid tile the half-sphere of unit quaternions; and each orientation drawn from an orientation density function is a proper rotation lying inside the drawn bin, bins being drawn with probability proportional to bin volume times the density at the bin centre for that element's own location.",
 ["inputs"], "all angles, all random draws (random source replaced by arbitrary values), coarse grids",
 "Tests use one ODF and check statistics loosely.",
 [X+"templates.py", X+"utils.py"], [("_sample_ODF", X+"templates.py"), ("_alpha_to_quarternion", X+"utils.py")],
 ["templates._sample_ODF", "utils._alpha_to_quarternion"])

prop("P31", "Device selection state machine",
 "After any sequence of device configuration calls the selected device is 'cuda' exactly if the last valid request wanted the GPU (gpu, cuda, or auto/None) and CUDA is available at that call, otherwise 'cpu'; the returned value, the queried value and torch's default device always agree, spelling case and surrounding blanks are ignored, and an unknown device name raises ValueError and changes nothing.",
 ["inputs", "histories", "configurations"], "all call sequences up to the stated length with arbitrary availability at every call",
 "Tests run on CPU-only machines and call it once or twice.",
 [X+"cuda.py"], [("configure_device", X+"cuda.py")],
 ["cuda.configure_device", "cuda.get_selected_device"],
 [dict(name="_device", meaning="selected device", where=X+"cuda.py")])

prop("P32", "Sample templates build the sample that was asked for",
 "The powder template returns exactly the requested number of grains, each its own tetrahedron of non-zero volume that contains the origin and lies within the bounding radius, each with its own freshly drawn random orientation and with the given strain. The cylinder template meshes a closed surface whose nodes lie on the rims and end faces of the cylinder of the requested height and radius centred at the origin (at least eight sides, element size proportional to the volume per crystal), and gives every element the orientation drawn for its own centroid from the given density with the requested bin separation and the strain field evaluated at its own centroid. Both templates use a single phase with the given unit cell, space group and CIF file.",
 ["inputs", "configurations"], "all radii, heights, orientations and strain fields; several grain counts (the external mesher and random source replaced by arbitrary answers)",
 "Tests build one powder and a few cylinders and look at element counts and extents only.",
 [X+"templates.py", X+"mesh.py"], [("get_uniform_powder_sample, polycrystal_from_odf", X+"templates.py"), ("TetraMesh._build_tetramesh", X+"mesh.py")],
 ["templates.get_uniform_powder_sample", "templates.polycrystal_from_odf"])

prop("P33", "Simulating has no side effects and no memory",
 "Diffracting and rendering leave the sample (meshes, orientations, strains, phase map, lattice matrices, phases' cells), the beam, the motion, the detector's geometry, kernel and switches and the caller's peak dictionary as they were. What a diffraction or a rendering returns depends only on its arguments and on those objects' state at the call, never on earlier diffractions (other Bragg bounds, beams, motions, detectors) or renderings (other methods, frame counts), and a result that was returned, including the mesh in the peak dictionary, does not change when the sample is diffracted, rendered or transformed later.",
 ["inputs", "histories"], "all bounded call sequences with arbitrary motions, diffraction times, sources and intensities",
 "Tests run each step once on fresh objects and do not compare repeated calls.",
 [X+"polycrystal.py", X+"detector.py", X+"phase.py"], [("Polycrystal.diffract", X+"polycrystal.py"), ("Detector.render", X+"detector.py"), ("Phase._setup_diffracting_planes", X+"phase.py")],
 ["Polycrystal.diffract", "Detector.render"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
