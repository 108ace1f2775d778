"""What each property's check builds and runs."""
ALLIMG = ["fits", "fft", "jpeg", "png", "tiff", "z"]
import os
TBBD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "tbbdouble")
FULL = ["embree", "assimp", "tbb"] + ALLIMG
UNITS, RULES, LEVEL_NOTES, TITLES = {}, {}, {}, {}

def unit(prop, name, san="asan", src=None, libs=(), **kw):
    UNITS.setdefault(prop, []).append(dict(name=name, san=san, src=src or [name + ".cpp"], libs=list(libs), **kw))
TECH = {}
unit("C07", "c07_units", san="ubsan-O0")
unit("C08", "c08_rotation")
unit("C09", "c09_transform", libs=["embree"])
unit("C10", "c10_spectral")
unit("C11", "c11_physics")

def note(prop, rule, level, tech=None):
    RULES[prop], LEVEL_NOTES[prop] = rule, level
    if tech: TECH[prop] = tech

note("C07", "Every unit type and every value class (tiny, huge, negative, fractional) drawn from the seed; a case is non-trivial when the value is finite and non-zero; distinct by hash of type and value.",
     "Each conversion, sum and comparison executed is compared with long-double arithmetic on an independent table of unit definitions, under UBSan; the values are sampled, not exhausted.")
note("C08", "Random and special rotations (identity, half-turns, near-singular angles, products), each built by every constructor; a case is one rotation pair with vectors; distinct by hash of the quaternions.",
     "Each construction and operation executed is compared with an independent long-double rotation algebra, under ASan and UBSan; inputs sampled.")
note("C09", "Random chains of scaled, translated, rotating and moving transforms; a case is one chain with points and directions; distinct by hash of its parameters.",
     "Composition, inversion, points, directions and velocities are compared with a long-double homogeneous-matrix model and finite differences in time; inputs sampled.")
note("C10", "Nine bin layouts (uniform, gapped, descending, single), random values and tables; a case is one pair of spectra with tables and bands; distinct by hash of the values.",
     "Each operation executed is compared element by element with long-double arithmetic and exact piecewise-linear integration; inputs sampled.")
note("C11", "Random temperatures, wavelengths, bands, velocities and directions including extremes; distinct by hash of the inputs.",
     "Each result is compared with long-double closed forms, quadrature and Lorentz transformations; inputs sampled.")
unit("C04", "c04_sampling")
unit("C05", "c05_convolve", libs=["fft"])
note("C04", "Thirteen pixel types, random sizes (including empty, one-pixel and >2^31-pixel images), coordinates in, out, negative, huge, non-finite; a case is one (size, mode, coordinate) tuple; distinct by its hash.",
     "Every access and sample executed is compared with a long-double sampler and every out-of-range access must throw, under ASan and UBSan; inputs sampled.")
note("C05", "Random images and kernels of all small sizes including even, one-row and larger-than-image kernels; a case is one image/kernel pair; distinct by sizes and first value.",
     "Every output pixel is compared with a direct long-double convolution, plus linearity, impulse and conservation relations; inputs sampled.")
unit("C06", "c06_pixels")
note("C06", "All 8- and 16-bit integer values exhaustively, random and special reals, random colour bundles, normals and depths; distinct by hash of type and value.",
     "Exhaustive over 8/16-bit integers, sampled over reals; every conversion executed is compared with long-double arithmetic under UBSan.")
unit("C03", "c03_decode", libs=ALLIMG)
unit("C01", "c01_fuzz", libs=ALLIMG)
unit("C02", "c02_roundtrip", libs=ALLIMG)
note("C01", "Valid files of every format and variant from independent encoders, then byte/field mutations, truncations, splices, hostile headers and random bytes; plus oversized and overflowing dimensions; a case is one decode call; distinct by hash of the bytes.",
     "Every decode of the explored byte strings ran under ASan and UBSan with memory, time and leak limits, and had to end in a complete image or an exception; the byte strings are sampled, not exhausted.")
note("C02", "Random images (sizes 1..24+, values in, out of and at the edges of [0,1]), all bit depths, alpha, colour hints, metadata and paths; a case is one write/read pair; distinct by hash of the parameters and generator state.",
     "Each written file is read back by the repository's reader and by the plain codec library, and both are compared with the clamped, rounded original; inputs sampled.")
note("C03", "Files of every accepted variant from encoders written for this check; a case is one file read by every applicable entry point; distinct by hash of bytes.",
     "Each decoded pixel is compared with the one the encoder stored, from file and memory, colour, mono and alpha; inputs sampled.")
CAM = ["tbb"] + ALLIMG
unit("C17", "c17_camera", libs=CAM)
note("C17", "Random lens models with bounded contraction, random cameras (1x1 to 200x90 pixels, narrow to wide, offset principal points, both axis conventions, every way and order of setting them); a case is one lens point or camera; distinct by hash of its parameters.",
     "Every projection, ray, visibility answer, lens ray and pixel solid angle computed is compared with an independent double-precision camera; configurations sampled.")
unit("C18", "c18_settings", san="plain", libs=CAM)
unit("C18", "c18_settings_asan", src=["c18_settings.cpp"], libs=CAM, env={"VH_FEW": "1"})
note("C18", "Random histories of 3 to 40 setter calls, valid and rejected; a case is one comparison with a freshly configured camera or one rejected call; distinct by the history.",
     "After each history explored every observable camera output is compared with a fresh camera, and across each rejected call with itself, bit for bit; histories sampled.")
unit("C19", "c19_optics", san="plain", libs=CAM)
unit("C19", "c19_optics_asan", src=["c19_optics.cpp"], libs=CAM, env={"VH_FEW": "1"})
note("C19", "Random f-numbers, pixel pitches (square or not), radii, bank counts, focal lengths, defocus and aperture sizes; a case is one kernel, sample or point of a pattern; distinct by the parameters.",
     "Every kernel built is summed, and its shape, centroid and width compared with independent quadrature of the diffraction pattern or the uniform disc; aperture sampling is checked by the density of its map and a histogram; parameters sampled.")

unit("C20", "c20_sensor", san="plain", libs=CAM, flags=["-D_GLIBCXX_ASSERTIONS"])
unit("C20", "c20_sensor_asan", src=["c20_sensor.cpp"], libs=CAM, env={"VH_FEW": "1"}, flags=["-D_GLIBCXX_ASSERTIONS"])
unit("C20", "c20_sensor_tsan", src=["c20_sensor.cpp"], san="tsan", libs=CAM, env={"VH_THREADS": "1"})
note("C20", "Random well depth, gain, bias, read noise, dark current, bit depth, exposure, quantum efficiency and irradiance images (dark, linear, near well or full scale, saturated, slightly negative); a case is one read-out; distinct by the parameters.",
     "Every noise-free pixel is compared with the photo-electron budget in double precision; noisy frames by six-sigma tests of mean, variance and correlation; every setter and the constructor with invalid values; concurrent read-outs under ThreadSanitizer; parameters sampled.")

unit("C12", "c12_time", flags=["-D_GLIBCXX_ASSERTIONS"])
note("C12", "Random UTC calendar instants from 1972 to 2100, a third of them next to a leap second, in four spellings; every time scale as source and as target; random intervals and sample counts up to 2^24; a case is one instant or interval; distinct by ephemeris time.",
     "Every conversion executed is compared with an independent long-double model (own leap-second table, own calendar), through a SPICE double that parses the repository's leap-second kernel; behaviour of the real CSPICE is not covered; instants sampled.")

unit("C13", "c13_spice", flags=["-D_GLIBCXX_ASSERTIONS"])
note("C13", "Random states, elements, frames (fixed and spinning), epochs and strings through every wrapper; random histories of failing and succeeding calls, some after an error left by other code; kernel files in scratch directories; a case is one call; distinct by its arguments.",
     "Every wrapper call executed is compared with what the scripted SPICE double was told to answer and the double's own error flag; behaviour of the real CSPICE is not covered.")

unit("C14", "c14_scene", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C14", "Random trees of up to nine nodes under random histories of every setter (manual, SPICE, position, rotation and state callbacks, Kepler orbits, nadir pointing, body rates, scale) at random epochs; a case is one node's global state; distinct by the modes along its path and the time.",
     "Every state read is compared with a long-double composition along the path and with its fourth-order time derivatives; every setter and getter with a model of the node's mode; trees and histories are sampled.")

unit("C15", "c15_view", san="plain", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
note("C15", "Random observers and bodies (ephemeris orbits, spinning frames, drifting nodes, mounted cameras) at distances from metres to 20 AU and speeds up to 2000 km/s, in each observation mode, with one to five exposure samples; a case is one body at one sample; distinct by its geometry.",
     "Every instance transform handed out by a view is compared with a long-double solution of the light-travel equation and the relativistic aberration of the direction; scenes sampled.")

unit("C16", "c16_lifecycle", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C16", "Random histories of 15-60 operations (create, rename, look up, instance, load and delete models, geometries, primitives, lights, unresolved objects, cameras, frames and instances; refused and cross-scene operations; observing the scene in between) with colliding names, and scenes of up to 1200 named things; a case is one audited handle or node; distinct by the sequence of operations.",
     "Every handle, name, lookup, parent and child list is audited against a model after each step under ASan; histories are sampled.")

unit("C21", "c21_bsdf", san="ubsan")
note("C21", "Every model under random frames, directions (grazing, near-mirror, coincident, below the surface), albedos, roughness and metalness (including extremes) and random numbers (including 0 and next to 1); a case is one direction pair, sample or energy balance; distinct by its parameters.",
     "Each value and density is compared with long-double formulas of the documented models, with the swapped pair and with a turned pair; samples with eval and pdf; sample histograms and averages with quadrature of the formulas; inputs sampled.")

unit("C22", "c22_sampling", san="ubsan")
note("C22", "Every map at random pairs of numbers (a third of them 0, next to 1 or tiny), exponents, roughnesses down to 0.01 and view directions down to grazing; random normals including the poles; random seeds; a case is one draw or frame; distinct by its parameters.",
     "Each direction is checked for unit length and domain, each density against its closed form, each map by a histogram against the integral of that closed form, each frame and conversion against long-double vectors, samplers by range, reproducibility and chi-squared tests; inputs sampled.")

unit("C23", "c23_material", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C23", "Random histories of every material setter and reset on up to three materials sharing random textures (1x1 to 7x7, three- and eight-bin spectra, normal maps with degenerate texels), with random reflection models; surfaces with missing, skewed, parallel and mirrored tangents; a case is one evaluation; distinct by its parameters.",
     "Each evaluated parameter is compared with a model of the documented channel semantics, each shading frame with long-double normal mapping, each texture decode with its formula; histories sampled.")

unit("C24", "c24_light", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C24", "Random radii (1 mm to 1e9 m), powers, spectra and temperatures, receivers from 1.0001 to 1e7 radii away and inside, random numbers including 0 and next to 1; a case is one sample, density query or irradiance; distinct by the geometry.",
     "Every sample's direction, distance, radiance and density, every density query and irradiance is compared with long-double cone geometry; sample averages with the closed-form irradiance of facing and tilted surfaces; inputs sampled.")
unit("C25", "c25_unresolved", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
note("C25", "Random sizes, albedos, powers, H and G, distances (to 1e13 m) and phase angles including 0, 180 degrees and their neighbourhoods, several lights in the view; a case is one resolved irradiance; distinct by the geometry.",
     "Every irradiance resolved is compared with the closed form in long double; the light a sphere sends in all directions is integrated and compared with what fell on it; rejected values must throw and leave the object unchanged; inputs sampled.")

unit("C26", "c26_rays", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C26", "Random scenes of 1-3 placed, rotated, non-uniformly scaled, moving instances of triangle meshes and ellipsoids (1 cm to 1e7 m), rays from outside, inside and up to 1e4 sizes away aimed at faces, limbs, poles and past them; a case is one ray with its nearest hit, resolved interaction, shadow query and secondary rays, judged by a long-double intersector that leaves only borderline crossings undecided; also crowds of 300-900 bodies of more than 256 kinds at up to 40 shutter states, bulk queries of 20000 rays and height fields of more than 65536 vertices; distinct by ray and distance.",
     "in-range hits are judged at the time samples themselves, not between them")

unit("C27", "c27_media", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C27", "Random coefficients (0, 1e-12 to 1e6 per metre, per band), distances 0 to infinity, free-path samples tested against the exponential law, scattered directions against the uniform law, random enter/leave histories of up to eight media against a list model, and rays through 1-5 nested, overlapping and empty spheres of a scene against analytic chords; distinct by medium, history or ray.",
     "constant media and isotropic scattering (all the library has); overlapping instances of one and the same object are outside the claim")

unit("C28", "c28_clip", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS"])
note("C28", "Random view volumes (0-7 planes, 1 mrad to wide), triangles (1 mm to 1e6 m, degenerate, touching planes) with 60 sample points each and all attributes, arcs of 1-16 samples with motions from 1e-9 to 1 rad, sampled at 1500 times; distinct by triangle or arc.",
     "points within float rounding of a plane are left undecided")

unit("C29", "c29_render", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
unit("C29", "c29_render_tsan", san="tsan", src=["c29_render.cpp"], libs=FULL, flags=["-fno-access-control", "-DVH_TBBD", "-I" + TBBD], env={"VH_FEW": "1"})
note("C29", "Random scenes (1-5 bodies with every scattering model, textures, media, lights, backgrounds, stars, unresolved objects, moving or still, up to 80x80 pixels, blur, defocus, glare, motion during the exposure, adaptive sampling) each rendered about ten times: with 1 to 16 threads, new and used renderers and frame buffers, after other views, with the view taken again, two at once; blur kernels, star epochs and bulk rays with other thread counts; a case is one comparison; distinct by the image.",
     "Buffers are compared bit for bit; races by ThreadSanitizer with a stand-in for TBB's loops that uses plain threads and a seeded order of chunks (Embree is not instrumented, and its callbacks during the build of its trees are not judged); schedules are those the machine and the seeds produced; simulated sensor noise is off.")
unit("C30", "c30_points", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
unit("C30", "c30_points_asan", src=["c30_points.cpp"], libs=FULL, flags=["-fno-access-control"], env={"VH_FEW": "1"})
note("C30", "Images of 1x1 to 140x140 pixels (tile borders and their neighbours over-represented), no kernel, point spread functions and aperture patterns of 1-8 pixels with 1-8 sub-pixel banks, defocus, both with convolution; up to five sources on, beside and far from image, tile and pixel borders, stars with aberration, objects at 1 m to 1e9 m, behind, beside and in front of an occluding body, turns and rolls of the camera of up to 1.5 images during the exposure with 2-17 states, both camera conventions, lens distortion, glare, every combination of buffers; a case is one image; distinct by its scene.",
     "Still sources: every pixel and the sum against a double-precision splat over the positions that rounding allows; moving sources: the sum and the power accumulated along rows and columns against 1500 steps of the exact motion, with tolerances from the documented sampling step; positions within the kernel's reach outside the image and within a thousandth of a pixel of a border are undecided.")

note("C31", "Images of 1x1 to 44x44 pixels in still and moving scenes (2-6 shutter states, both camera conventions, cameras anywhere up to 1e7 m from the origin), RGB and eight-band: up to four boxes, ellipsoids and sphere lights that emit, reflect or are partly transparent, absorbing and scattering media, uniform and image backgrounds, furnaces of both kinds, planes lit by sphere lights with shadows, one to sixty bounces, 1-144 samples a pixel, defocus and blur; random scenes of everything at once under every choice of buffers; closed uniform rooms with boxes and ellipsoids in them, with lamps and bodies hidden inside others; adaptive sampling; frames reused and cleared; a case is one image; distinct by scene and settings.",
     "Noise-free pixels against the range of the closed form over the pixel, noisy images by the sum of residuals over the image and its halves within 6.5 standard errors and .2-2 %; depth, mesh, normals and albedo only where all rays of the pixel meet the same body; the cosine of the receiving aperture may be taken anywhere in the pixel. Many-bounce transport between several bodies is judged in furnaces and in rooms of uniform grey, and by relations between pictures: hidden bodies and lamps change nothing, a world scaled in brightness scales the picture, adaptive sampling stops at the first sample count below the threshold.")
unit("C31", "c31_radiance", san="ubsan", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
unit("C31", "c31_radiance_asan", src=["c31_radiance.cpp"], libs=FULL, flags=["-fno-access-control"], env={"VH_FEW": "1"})

unit("C34", "c34_hist", src=["c34_logger.cpp"], env={"VH_MODE": "hist"})
unit("C34", "c34_exit", src=["c34_logger.cpp"], env={"VH_MODE": "exit"})
unit("C34", "c34_crash", src=["c34_logger.cpp"], san="plain", env={"VH_MODE": "crash"})
unit("C34", "c34_conc", src=["c34_logger.cpp"], san="plain", env={"VH_MODE": "conc"})
unit("C34", "c34_conc_asan", src=["c34_logger.cpp"], env={"VH_MODE": "conc"})
unit("C34", "c34_tsan", src=["c34_logger.cpp"], san="tsan", env={"VH_MODE": "tsan"})
note("C34", "Random histories of logging (functions and macros), resizing, dumping, sinks (throwing, logging, none), levels and console switches against a model; scenarios of 2-7 logging threads with up to five threads dumping, resizing, changing levels and sinks; child processes crashing by signal, exception or terminate inside 0-70 scopes; destructors that log at exit; a case is one dump, message or crash; distinct by history and by the interleaving of threads seen in a dump.",
     "Each dump is compared with the model, or judged as a contiguous, real-time ordered window of what the threads logged; races by ThreadSanitizer; schedules are those the machine produced under random pauses; two threads crashing at once are not covered; empty messages are not used.")

unit("C35", "c35_multi", src=["c35_main.cpp", "c35_b.cpp", "c35_c.cpp"], libs=FULL, san="ubsan-O0", flags=["-D_GLIBCXX_ASSERTIONS"])
UNITS["C35"][-1]["build_is_observation"] = True
unit("C35", "c35_multi_gcc", src=["c35_main.cpp", "c35_b.cpp", "c35_c.cpp"], libs=FULL, san="gcc")
UNITS["C35"][-1]["build_is_observation"] = True
note("C35", "One program of three source files including the whole library, linked by two compilers; random histories of data-directory settings (absolute, relative with dots and spaces, empty), log levels, messages and dumps, scopes and kernel loading, each step through a random file; random output paths (extensions, dotfiles, trailing slashes, files in the way); a case is one step; distinct by the state.",
     "Linking is observed with clang and gcc; each step is compared with a model of one shared state; folders with a plain re-creation in a copy of the tree.")

unit("C32", "c32_stars", flags=["-D_GLIBCXX_ASSERTIONS"])
unit("C32", "c32_scene", san="plain", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
note("C32", "Tycho-2 main and supplement files composed from random fields in the published column layout (mean, photo-centre and observed-only positions, missing motions and magnitudes, unusable and cut lines, CRLF, no final newline) and damaged copies; random binary catalogues with ties and missing magnitudes, limits on and beside existing magnitudes, truncation at every kind of place, false counts, noise, a full disk; the converter command over whole sets with missing files; random stars and epochs; a case is one star, catalogue or conversion; distinct by its values.",
     "Each star read is compared with the fields its line was made of (the motion to J2000 in long double, the brightness by an independent quadrature); catalogues as multisets; memory errors by ASan/UBSan. Values cut in the middle of a field by a truncated text line are not judged; trailing extra bytes of a binary file are not judged.")

unit("C33", "c33_models", libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"])
note("C33", "Random models written as glTF (text with a separate buffer, with data URIs, and binary) and OBJ: one to three meshes of one to three primitives with or without normals, coordinates and vertex colours, node trees with rotations, mirrored and uneven scales given as parts or matrices, materials with factors and textures of every role stored as files, data URIs and buffer views (PNG, JPEG, TGA, BMP, HDR), missing and damaged textures, cut, empty and garbage files; a case is one ray or one material sample; distinct by the ray and the hit.",
     "Every hit is compared with the file's triangles placed in long double and every material with the pixels its textures were encoded from; memory errors by ASan/UBSan. Normal-map scales, sheared node matrices, animations, skins, OBJ colours and texture transforms are not judged; bytes of model files are damaged only by cutting or replacing them (the importer itself is not under test).")

for _p, _part in (("C26", "rays"), ("C31", "render"), ("C30", "stars"), ("C14", "tree"), ("C16", "names")):
    unit(_p, "crowd_" + _part, san="plain", src=["crowd.cpp"], libs=FULL, flags=["-D_GLIBCXX_ASSERTIONS", "-fno-access-control"], env={"VH_PART": _part})
