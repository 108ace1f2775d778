#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I = "include/huira_impl/"
H = "include/huira/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Reading an arbitrary image file never corrupts memory or crashes",
  "For any byte sequence given as a BMP, TGA, HDR, PNG, JPEG, TIFF or FITS image, from a file or from memory, in colour or mono, with or without alpha, reading either returns an image whose pixel storage matches its positive reported size or throws a standard exception. It never reads or writes outside a buffer, invokes undefined behaviour, leaks memory, loops forever or terminates the process.",
  ["inputs", "fault_sequences"], "every file content, including truncated, corrupted and adversarial headers and compressed data",
  "No existing test opens an image file; memory safety has to hold for every byte sequence, not for samples.",
  [I+"images/io/bmp_io.ipp", I+"images/io/tga_io.ipp", I+"images/io/hdr_io.ipp", I+"images/io/png_io.ipp", I+"images/io/jpeg_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/fits_io.ipp", I+"images/io/read_image.ipp", H+"images/io/io_util.hpp"],
  [("header validation before pixel loops", I+"images/io/bmp_io.ipp"), ("RLE decoders", I+"images/io/tga_io.ipp"), ("scanline decoder", I+"images/io/hdr_io.ipp"), ("libpng error handling", I+"images/io/png_io.ipp")],
  ["return value or exception of every reader entry point", "AddressSanitizer/UBSan/LeakSanitizer reports"])
p("C02", "A written image reads back as the same picture",
  "Any image written to PNG, TIFF or FITS and read back has the same size and orientation, the same channel order, and every pixel (and PNG alpha) value within the rounding of the chosen bit depth after clamping to the representable range; FITS files also return the metadata that was written, as precisely as a FITS header card holds it. A JPEG read back keeps size, orientation and channel order, and its pixels stay within lossy-compression error of the original.",
  ["inputs", "configurations"], "every image size (including odd and 1-pixel), pixel content (including values outside [0,1]), bit depth, mono/colour, alpha and quality option",
  "No test writes or reads an image; sizes, bit depths and clamping interact per format.",
  [I+"images/io/png_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/jpeg_io.ipp", I+"images/io/fits_io.ipp", H+"images/io/fits_metadata.hpp"],
  [("quantisation on write", H+"images/io/convert_pixel.hpp"), ("scanline packing", I+"images/io/tiff_io.ipp"), ("FITS scaling", I+"images/io/fits_io.ipp")],
  ["the written file", "the image returned by the matching reader"])
p("C03", "Image readers decode every supported file variant to the right pixels",
  "A valid BMP, TGA, HDR, PNG, JPEG, TIFF or FITS file produced by any conforming encoder, in any layout variant the readers accept (row order, palette, run-length packets, bit depth, strips or tiles, grey/colour/alpha), decodes to the pixels it encodes: right size, top row first, right channels, alpha when asked for, and a colour-space hint that matches the format. A FITS file whose data is not a single plane is refused. Reading from a file and from memory give identical results, and the mono readers return the grey value, or for colour files the mean of the decoded channels (for JPEG the decoder's luma).",
  ["inputs", "configurations"], "every valid file of the accepted variants, with every pixel content",
  "No test decodes a file; correctness is per layout variant.",
  [I+"images/io/bmp_io.ipp", I+"images/io/tga_io.ipp", I+"images/io/hdr_io.ipp", I+"images/io/png_io.ipp", I+"images/io/tiff_io.ipp", I+"images/io/fits_io.ipp", I+"images/io/read_image.ipp"],
  [("row order and palette handling", I+"images/io/bmp_io.ipp"), ("packet decoder", I+"images/io/tga_io.ipp"), ("RGBE decode", I+"images/io/hdr_io.ipp")],
  ["pixels returned by the readers against an independent encoder's input"])
p("C04", "Image element access and sampling stay in range and follow the wrap mode",
  "Checked element access throws for every coordinate outside the image, negative ones included, and otherwise returns the stored pixel; linear, two-dimensional and coordinate addressing agree. Sampling at any coordinate (including negative, huge and non-finite ones) never reads outside the image, nearest sampling returns an existing pixel, bilinear sampling is the convex combination of the four neighbours selected by the wrap mode, is exact at pixel centres and constant on constant images.",
  ["inputs"], "every image size, coordinate (including negative, huge, non-finite), wrap mode and pixel type",
  "Existing tests do not touch images; edge coordinates and wrap modes multiply.",
  [I+"images/image.ipp", H+"images/image.hpp"],
  [("bounds checks", I+"images/image.ipp"), ("wrap functions and bilinear weights", I+"images/image.ipp")],
  ["return values of access and sampling", "AddressSanitizer/UBSan reports"])
p("C05", "Convolution gives one answer regardless of kernel size and conserves energy",
  "Convolving an image with a kernel gives, at every pixel, the discrete convolution of the zero-padded image with the kernel centred on its middle element, whichever internal method is chosen for that kernel size. Convolution is linear, a centred unit impulse is the identity, and away from the border a kernel that sums to one conserves the image total; the image size never changes.",
  ["inputs"], "every image and kernel size (odd, even, 1xN, larger than the image), kernel content (symmetric or not) and pixel type",
  "No test convolves; the direct and FFT paths must agree for every kernel.",
  [I+"images/image.ipp"],
  [("direct path for small kernels, FFT path for large ones", I+"images/image.ipp")],
  ["convolved image against a direct double-precision sum"])
p("C06", "Pixel and colour conversions are monotone, saturating and inverse to each other",
  "Converting a real value to any integer pixel type clamps to the representable range, maps NaN to a defined value, is monotone and inverts integer-to-real conversion for every 8- and 16-bit value; no input triggers undefined behaviour. sRGB encoding and decoding are mutually inverse and monotone, conversion between colour, mono and spectral pixels keeps neutral grey and is linear, and colour maps return their end colours at and beyond the ends of their range.",
  ["inputs"], "every real input (including out-of-range, infinite and NaN) and every integer value of each pixel type",
  "No test converts a pixel.",
  [H+"images/io/convert_pixel.hpp", I+"images/io/convert_pixel.ipp", H+"images/io/color_space.hpp", H+"images/color_map.hpp"],
  [("float/integer scaling", H+"images/io/convert_pixel.hpp"), ("transfer functions", H+"images/io/color_space.hpp")],
  ["return values over exhaustive integer ranges and hostile floats"])
p("C07", "Unit arithmetic is consistent with SI",
  "Every operation on quantities in scaled units (construction, conversion, addition, subtraction, multiplication, division, comparison, literals, spectral quantities) gives the same result as the same operation on the SI values: conversions round-trip, mixed-unit sums and comparisons agree with SI, and compound units multiply their scale factors. Temperature and angular units convert and compare with their defined offset and factor, constructing a quantity from NaN is rejected, and the text form of a quantity states its value with its own unit.",
  ["inputs"], "every pair of units of one dimension and every finite magnitude",
  "The 2 unit test files check a few fixed conversions; consistency has to hold for every unit pair and magnitude.",
  [H+"units/units.hpp", I+"units/quantity.ipp", I+"units/dimensionality.ipp", I+"units/spectral_quantity.ipp"],
  [("ratio and tag conversion", H+"units/quantity.hpp")],
  ["values in SI and in the target unit"])
p("C08", "Rotations form a group and act as rigid motions",
  "However a rotation is built (matrix, axis-angle, quaternion, Euler angles, basis vectors, local-to-parent or parent-to-local), it is orthonormal with determinant one, preserves lengths and angles, composes associatively in the documented order, and its inverse undoes it; converting between representations gives the same rotation. Matrices that are not proper rotations are rejected and non-finite input never yields a rotation silently.",
  ["inputs"], "every rotation, including 0, pi, gimbal-lock and near-singular angles, in single and double precision",
  "The 60 rotation tests use fixed angles and axes.",
  [I+"core/rotation.ipp", H+"core/rotation.hpp"],
  [("orthonormalisation and determinant check", I+"core/rotation.ipp")],
  ["matrices, quaternions and transformed vectors"])
p("C09", "Rigid transforms compose, invert and move points consistently",
  "Composing two placements and applying the result to a point, a direction or a moving point equals applying them one after the other; composing a placement with its inverse gives the identity, including for velocities and angular velocities. The velocity and angular velocity of a composition equal the time derivative of the composed position and attitude, and the matrix form maps a point as the placement does.",
  ["inputs"], "every pair of placements with rotation, uniform scale, linear and angular velocity",
  "No test composes transforms.",
  [I+"core/transform.ipp", H+"core/transform.hpp"],
  [("composition, inverse, apply", I+"core/transform.ipp")],
  ["composed states against finite differences and sequential application"])
p("C10", "Spectral arithmetic and band integration conserve the integrated quantity",
  "Spectral values combine element by element, and their totals, means and extrema are those of their elements; distributing a total over bins sums back to the total. Averaging tabulated or functional data over bins equals the exact piecewise-linear average over each bin, is linear in the data and additive over adjacent bins, and malformed tables (unsorted, unequal length, empty) are rejected; converting RGB to bins inside the RGB range takes each bin's overlap-weighted mean of the channels, so it stays between the smallest and largest channel and maps grey to flat.",
  ["inputs", "configurations"], "every bin layout (uniform, custom, unsorted), every data table and RGB value",
  "No test covers spectral bins.",
  [I+"core/spectral_bins.ipp", H+"core/spectral_bins.hpp"],
  [("bin layout and integration", I+"core/spectral_bins.ipp")],
  ["bin values against exact double-precision integration"])
p("C11", "Radiometric formulas are physically consistent",
  "Black-body radiance is positive, increases with temperature at every wavelength, peaks where Wien's law says, integrates to the Stefan-Boltzmann law, and band averages agree with fine integration. Photon energy is h c / wavelength, magnitudes map to irradiance by a factor of 10^-0.4 per magnitude from the reference V-band photon flux of magnitude zero, spread over the bands like sunlight, and stellar aberration returns a unit direction, is the identity for zero velocity, tilts towards the velocity by the relativistic angle, and rejects speeds at or above light speed.",
  ["inputs"], "every temperature, wavelength, magnitude, direction and velocity in the physical range",
  "No test covers the physics functions.",
  [I+"core/physics.ipp", H+"core/physics.hpp", H+"core/constants.hpp"],
  [("Planck law, band averages, aberration", I+"core/physics.ipp")],
  ["function values against independent formulas"])
p("C12", "Times and intervals convert between scales without loss",
  "A time built from a Julian or modified Julian date in UTC, TAI, TT or TDB converts back to the same date in that scale to the precision of a double, the scales differ by their defined offsets (leap seconds, 32.184 s, periodic TDB term), and calendar strings round-trip. Differences and sums agree with ephemeris seconds, ordering is total, and interval samples run evenly from start to end inclusive, within double precision of the epoch.",
  ["inputs"], "every epoch from 1972 to 2100, time scale, interval and sample count",
  "The time tests cannot run here and check a few epochs.",
  [I+"core/time.ipp", H+"core/time.hpp", H+"core/interval.hpp"],
  [("scale conversion via SPICE", I+"core/time.ipp"), ("sample spacing", H+"core/interval.hpp")],
  ["time values against an independent leap-second model"])
p("C13", "Ephemeris and kernel access reports errors and converts frames and units",
  "Every SPICE error becomes an exception carrying the SPICE message, leaves the error state clear, and no later successful call is affected. Positions and velocities arrive in metres and metres per second, frame rotations map parent to local vectors exactly as SPICE's matrix does, the angular velocity is that of the target frame expressed in the source frame, loading a kernel relative to its file restores the working directory even when loading fails, and times convert with the default leap seconds when the program has loaded none.",
  ["inputs", "fault_sequences", "histories"], "every target, frame, epoch and any sequence of failing and succeeding calls",
  "No test reaches SPICE.",
  [I+"core/spice.ipp", H+"core/spice.hpp"],
  [("error check after each call", I+"core/spice.ipp"), ("directory guard", I+"core/spice.ipp")],
  ["returned states against the SPICE double's own state", "SPICE error flag after each call"])
p("C14", "A node's global state is the composition of its ancestors' local states",
  "For every scene tree and time, the position, orientation, velocity and angular velocity of a node in the global frame are the composition of the local states along its path, whatever mix of fixed, SPICE-driven and callback-driven states is used, and the velocities equal the time derivatives of position and attitude. A node placed by an ephemeris has exactly that ephemeris state globally, whatever its parents do; getters return what was set, by whichever form of setter, or report that the node is not in that mode.",
  ["inputs", "histories", "configurations"], "every tree shape, state source per node, order of setter calls and epoch",
  "Nothing of the scene graph is built by the tests.",
  [I+"scene/node.ipp", I+"scene/frame_node.ipp", I+"handles/scene/node_handle.ipp", H+"scene/state_callbacks/keplerian_orbit.hpp", H+"scene/state_callbacks/nadir_point.hpp"],
  [("state composition", I+"scene/node.ipp")],
  ["global transforms of nodes against an independent composition and finite differences"])
p("C15", "Observed scenes apply light time and aberration consistently",
  "In an observed view every instance appears relative to the observer as the observation mode prescribes: geometric states are the exact relative state, light-time states are the state at the emission time whose light reaches the observer now, and aberrated states have the direction shifted by the observer's velocity. Light-time solutions satisfy the light-travel equation to numerical precision, the observer itself is at the origin, and stars are aberrated by the same rule. This holds for bodies of any speed below that of light, for lights and unresolved objects and for every part of a model that moves with its root or on its own.",
  ["inputs", "configurations"], "every observer and target trajectory, observation mode, exposure interval and sample count",
  "Nothing of the scene view is built by the tests.",
  [I+"scene/scene_view.ipp", I+"scene/node.ipp", I+"core/physics.ipp"],
  [("light-time iteration", I+"scene/node.ipp"), ("view construction", I+"scene/scene_view.ipp")],
  ["instance transforms and stars of the view against an independent solution"])
p("C16", "Scene objects can be created, renamed, shared and deleted in any order safely",
  "Any sequence of creating, naming, instancing, querying and deleting scene objects (geometry, materials, primitives, lights, cameras, models, frames, instances) leaves a consistent scene: deleting an object removes it and everything that depends on it, handles to it become invalid and throw instead of touching freed memory, and unrelated objects are unaffected. For every kind of named object names are unique, look-ups return the object last given that name, and renaming an object to its own name changes nothing.",
  ["histories", "inputs"], "every sequence of scene-editing operations, valid or not",
  "Nothing of the scene is built by the tests; the quantifier is over operation histories.",
  [I+"scene/scene.ipp", H+"scene/name_registry.hpp", I+"scene/name_registry.ipp", I+"scene/frame_node.ipp", I+"handles/handle.ipp"],
  [("reference pruning on deletion", I+"scene/scene.ipp"), ("weak handles", I+"handles/handle.ipp")],
  ["registry contents and handle validity against a model", "AddressSanitizer reports"])
p("C17", "Camera projection, ray casting and lens distortion invert one another",
  "Projecting a point on a ray cast through a sensor position returns that position, for every focal length, sensor, principal point, axis convention and distortion model with moderate coefficients; undistorting a distorted point returns the point, and zero coefficients change nothing. Points behind the camera or outside the image are never reported as visible, every visible point is inside the view volume used for culling, and each pixel's solid angle equals the spherical area of its footprint, so that they sum to the solid angle of the field of view. Pixel positions and resolutions are added, subtracted, scaled, divided and compared component by component.",
  ["inputs", "configurations"], "every camera configuration and image position, narrow and wide fields of view",
  "No test builds a camera.",
  [I+"cameras/camera_model.ipp", I+"cameras/distortion/brown_distortion.ipp", I+"cameras/distortion/opencv_distortion.ipp", I+"cameras/distortion/owen_distortion.ipp"],
  [("projection and ray generation", I+"cameras/camera_model.ipp"), ("iterative undistortion", I+"cameras/distortion/brown_distortion.ipp")],
  ["projected pixels, rays, solid angles"])
p("C18", "A camera's behaviour depends only on its current settings",
  "After any sequence of camera setting changes (focal length, aperture, sensor geometry, distortion, axis convention, focus, point-spread function, stray light), projection, ray casting, field-of-view tests, solid angles, aperture area and blur kernels are those of a camera freshly configured with the final settings. A rejected setting (one that throws) leaves the camera exactly as it was.",
  ["histories", "configurations"], "every sequence of setter calls, including rejected ones",
  "No test builds a camera; the quantifier is over setter histories.",
  [I+"cameras/camera_model.ipp", I+"cameras/sensors/sensor_model.ipp", H+"cameras/camera_model.hpp"],
  [("derived-state recomputation in setters", I+"cameras/camera_model.ipp")],
  ["observable camera outputs compared with a fresh camera"])
p("C19", "Blur kernels and apertures are normalised, centred and correctly shaped",
  "Every point-spread and defocus kernel is non-negative, sums to one for every sub-pixel offset, has its centroid at the requested offset, and has the symmetry and width its optics prescribe (diffraction width scales with wavelength and f-number; a wider requested radius never loses normalisation). Samples drawn on an aperture are uniform over it and never outside, and aperture area and diameter agree.",
  ["inputs", "configurations"], "every f-number, pixel pitch, wavelength, radius, bank count and sub-pixel offset",
  "No test touches apertures or point-spread functions.",
  [I+"cameras/psfs/psf.ipp", I+"cameras/psfs/airy_disk.ipp", I+"cameras/apertures/circular_aperture.ipp", I+"cameras/apertures/aperture.ipp"],
  [("kernel normalisation", I+"cameras/psfs/psf.ipp"), ("polyphase banks", I+"cameras/psfs/psf.ipp")],
  ["kernel images and aperture samples"])
p("C20", "Sensor read-out follows the photo-electron budget, clamps and validates",
  "Without noise, sensor output is collected photons times quantum efficiency, limited to full well, over gain, as a fraction of full scale at the bit depth: never outside [0,1] or NaN, saturating at full well or full scale. With noise, the mean (including dark current and bias) and variance (shot and read noise) over many pixels match the settings, pixels, channels and successive exposures are independent, concurrent read-outs of different sensors do not race, and a program's sequence of read-outs is the same on every run. Invalid parameters are rejected by setters and constructor alike, leaving the sensor unchanged, and gain in decibels and in electrons per count convert both ways.",
  ["inputs", "configurations", "histories"], "every sensor configuration, exposure and irradiance image",
  "No test touches the sensor.",
  [I+"cameras/sensors/simple_sensor.ipp", I+"cameras/sensors/sensor_model.ipp"],
  [("read-out chain", I+"cameras/sensors/simple_sensor.ipp"), ("setter validation", I+"cameras/sensors/sensor_model.ipp")],
  ["sensor response images against a double-precision model"])
p("C21", "Surface reflection models are reciprocal, energy-conserving and self-consistent",
  "Every reflection model evaluates to its documented formula (Lambert, Oren-Nayar, Cook-Torrance with GGX, Hapke, Lommel-Seeliger, McEwen): finite and non-negative down to the smoothest surface and grazing directions, zero when light arrives from below the surface (and, except for a Lambertian surface, when it leaves below it), reciprocal for directions above it, and independent of rotating both about the normal. Sampling returns directions above the surface distributed with the density it reports, which equals the density query, with a value equal to reflectance times cosine over that density; the energy reflected equals the albedo for a Lambertian surface and is never more than what arrives for the bounded models (all but Hapke's empirical one and the dielectric diffuse-plus-specular sum).",
  ["inputs"], "every direction pair, albedo, roughness, metalness, shading frame and random sample",
  "No test evaluates a reflection model.",
  [I+"materials/bsdfs/lambertian_bsdf.ipp", I+"materials/bsdfs/oren_nayar_bsdf.ipp", I+"materials/bsdfs/cook_torrance_bsdf.ipp", I+"materials/bsdfs/hapke_bsdf.ipp", I+"materials/bsdfs/lommel_seeliger_bsdf.ipp", I+"materials/bsdfs/mcewen_bsdf.ipp", I+"materials/bsdfs/null_bsdf.ipp"],
  [("eval/sample/pdf", I+"materials/bsdfs/cook_torrance_bsdf.ipp")],
  ["eval, sample and pdf results over direction grids"])
p("C22", "Every sampling routine draws from the density it reports",
  "Each hemisphere (uniform, cosine, power-cosine, sine-weighted) and microfacet (half-vector, visible-normal) sampling routine returns finite unit directions inside its domain for every pair of uniform numbers in [0,1), and the density it reports is the documented one it samples from. Default tangent frames are right-handed and orthonormal for every normal, and local/world conversions are inverse rotations. Random-number samplers return uniform, uncorrelated values in [0,1), reproducible for equal seeds and different for different ones; the deterministic sampler returns the values it was given.",
  ["inputs"], "every pair of uniform numbers including 0 and values next to 1, and every normal or parameter",
  "No test samples.",
  [H+"materials/sampling_utils.hpp", H+"render/sampler.hpp", H+"render/interaction.hpp", I+"render/interaction.ipp"],
  [("inverse-CDF maps", H+"materials/sampling_utils.hpp")],
  ["samples and reported densities; moment and histogram tests at fixed seeds"])
p("C23", "Materials combine textures, factors and vertex data as documented",
  "Shading parameters of a material are its texture sample times its factor (times vertex colour for albedo) at the surface coordinates, with neutral defaults when no texture is set; resetting a channel restores the default, and channels a reflection model does not need stay neutral. A flat normal map leaves the shading normal unchanged, any normal map (including degenerate samples) yields a finite unit shading normal, and the shading frame is orthonormal for every surface.",
  ["inputs", "histories"], "every material configuration history, surface coordinate and normal map",
  "No test builds a material.",
  [I+"materials/material.ipp", H+"materials/material.hpp", H+"materials/texture.hpp", I+"render/interaction.ipp"],
  [("parameter evaluation and normal mapping", I+"materials/material.ipp")],
  ["shading parameters and frames against a direct computation"])
p("C24", "Light sources illuminate by the inverse-square law at every distance",
  "A spherical light of given power or radiance illuminates any point outside it with the irradiance of that sphere (radiance times pi times the squared sine of its angular radius, i.e. power over 4 pi d squared for total power), from just above its surface to interplanetary distances. Sampled directions always hit the light, the reported density equals the density query and integrates to one over its cone, and sampled contributions average to the analytic irradiance.",
  ["inputs"], "every radius, power, spectrum, light position and receiver distance (1.0001 radii to 100 au)",
  "No test builds a light.",
  [I+"assets/lights/sphere_light.ipp", H+"assets/lights/light.hpp"],
  [("cone sampling", I+"assets/lights/sphere_light.ipp")],
  ["sample, density and irradiance results against closed forms"])
p("C25", "Unresolved objects are photometrically consistent",
  "The irradiance an unresolved object sends to the observer is non-negative, finite, proportional to albedo, to the illuminating irradiance and to size squared, and falls with the square of the observer's distance; it comes from the placed instance of the light the object was given, wherever else that light is placed; a Lambertian sphere follows its analytic phase law, brightest at full phase and zero at new phase, and conserves energy over all directions. Emitters of given power radiate it isotropically, and asteroids follow the H-G magnitude system at one astronomical unit.",
  ["inputs"], "every object size, albedo, geometry (phase 0 to 180 degrees inclusive) and distance",
  "No test reaches unresolved objects.",
  [I+"assets/unresolved/unresolved_sphere.ipp", I+"assets/unresolved/unresolved_asteroid.ipp", I+"assets/unresolved/unresolved_emitter.ipp", I+"assets/unresolved/unresolved_object.ipp"],
  [("phase function and distance scaling", I+"assets/unresolved/unresolved_sphere.ipp")],
  ["received irradiance against closed forms"])
p("C26", "Rays meet meshes and ellipsoids exactly where the shapes are",
  "A ray reports a hit on a mesh or ellipsoid exactly when it meets the surface within its range, at the nearest such point, and the resolved position lies on the surface and on the ray, for instances placed, rotated, unevenly scaled and moving during the exposure; the geometric normal is the surface normal facing the ray and surface coordinates and interpolated attributes are those of the hit point. Meshes with out-of-range indices or mismatched attribute buffers are rejected, and shadow queries agree with nearest-hit queries. Each of these answers is the same asked alone or together with the others.",
  ["inputs"], "every shape, ray origin (outside, inside, far away) and direction",
  "No test traces a ray.",
  [I+"geometry/ellipsoid.ipp", I+"geometry/mesh.ipp", I+"scene/scene_view.ipp", I+"render/interaction.ipp"],
  [("ellipsoid intersection callback", I+"geometry/ellipsoid.ipp"), ("attribute interpolation", I+"geometry/mesh.ipp")],
  ["hits and surface interactions against brute-force double-precision intersection"])
p("C27", "Participating media attenuate exponentially and nest correctly",
  "Transmittance through a medium is exp(-extinction times distance) per band, multiplicative over segments, between zero and one; free paths are sampled from the matching exponential law, the scattering function integrates to one over the sphere, and invalid media are rejected. Entering and leaving media in any order leaves a ray inside exactly the media it has entered and not left.",
  ["inputs", "histories"], "every medium, distance, random number and enter/leave sequence within the nesting limit",
  "No test touches media.",
  [H+"volumes/medium.hpp", H+"volumes/medium_stack.hpp", H+"volumes/density/constant_density_field.hpp", H+"volumes/scattering/isotropic_scatter.hpp"],
  [("transmittance, free-path sampling", H+"volumes/medium.hpp"), ("medium stack", H+"volumes/medium_stack.hpp")],
  ["transmittance and sampled distances against closed forms; stack contents against a model"])
p("C28", "Clipping and motion arcs keep exactly what is in view",
  "Clipping a triangle or a motion arc to the view volume keeps exactly the part inside: kept points satisfy every plane, no inside point is lost, and clipped pieces cover the inside part once. A motion arc through three samples passes through each at its time, and its plane crossings are found for every motion, large or small, within the exposure.",
  ["inputs"], "every triangle, arc and view volume, including tiny motions and tangential crossings",
  "No test clips anything.",
  [I+"render/frustum.ipp", H+"render/frustum.hpp", I+"render/trajectory_arc.ipp", H+"render/trajectory_arc.hpp"],
  [("Sutherland-Hodgman clip", I+"render/frustum.ipp"), ("quadratic/cubic root finding", I+"render/trajectory_arc.ipp")],
  ["clip results against dense sampling"])
p("C29", "A render is race-free and reproducible",
  "Rendering the same scene view twice with the same renderer settings and seed gives bit-identical frame buffers, whatever the number of worker threads or their scheduling, and no two threads access shared state without synchronisation, renders running at the same time included (only simulated sensor noise, whose generator continues from render to render, may differ). Rendering does not modify the scene, so the order of renders does not matter. The other parallel loops (blur kernels, star epochs, rays traced in bulk) give the same results as one thread alone.",
  ["schedules", "histories", "configurations"], "every thread count, schedule, scene and render order",
  "No test renders; the quantifier is over schedules.",
  [I+"render/renderer.ipp", H+"render/sampler.hpp", I+"cameras/sensors/simple_sensor.ipp"],
  [("per-tile samplers and disjoint tile writes", I+"render/renderer.ipp")],
  ["frame buffers of repeated renders", "ThreadSanitizer reports"])
p("C30", "Every visible point source deposits its whole energy, wherever it falls",
  "A star or unresolved object inside the image contributes its irradiance times the aperture area projected towards it exactly once to the received power (in watts; the exposure is applied by the sensor), split between pixels by the blur kernel and centred at its projected position, independent of where it falls relative to pixel and tile boundaries; sources outside the image plus kernel contribute nothing (between the image and the kernel's reach it is unspecified, and kernel rings that bring less than a tenth of a photon per second may be left out). Sources that move during the exposure deposit the same total along their path, reduced only by the time they spend outside the image, without gaps along the trail, and sources hidden by a nearer surface contribute nothing.",
  ["inputs", "configurations"], "every source position (tile and image borders included), kernel size, image size and motion",
  "No test renders; loss at tile borders depends on positions no fixed test samples.",
  [I+"render/renderer.ipp", H+"render/psf_lut.hpp", I+"render/psf_lut.ipp"],
  [("tile assignment and splatting of point sources", I+"render/renderer.ipp")],
  ["received-power frame buffer against a direct double-precision splat"])
p("C31", "Rendered surfaces have the radiance, depth and normals physics prescribes",
  "For scenes with a closed-form answer (lit Lambertian surfaces, visible light sources, background radiance, absorbing media, rooms in which light bounces any number of times), the received power of each pixel converges to radiance times solid angle and aperture area (in watts; the exposure is applied by the sensor); adding samples never biases it, nor does adaptive sampling, which spends between its minimum and maximum count on a pixel and stops once the relative variance is below its threshold; a world n times brighter is n times brighter in the picture. What an opaque body or lamp encloses or hides never shows and never lights anything. Depth, position, normal, identity, direct and indirect buffers describe the first visible surface of each pixel in the documented frame, contain no NaN, hold only what they were told to, and are the same whether the frame is new, cleared or reused; moving or scaled instances appear with the placement of their exposure time.",
  ["inputs", "configurations"], "every scene of the analytic family, camera, sample count and buffer selection",
  "No test renders.",
  [I+"render/renderer.ipp", H+"render/frame_buffer.hpp", I+"scene/scene_view.ipp"],
  [("path tracing and buffer writes", I+"render/renderer.ipp")],
  ["frame buffers against closed-form radiometry and brute-force geometry"])
p("C32", "Star catalogues load every valid record exactly and survive bad files",
  "Each valid Tycho-2 record yields one star with its identifier, position, proper motion and magnitudes exactly as its fixed columns state, moved to J2000; unusable records are skipped without affecting their neighbours, whether or not the file ends in a newline. A catalogue written and read back returns the same stars sorted by magnitude, a magnitude limit returns exactly the stars not fainter than it, identifiers round-trip, and truncated or corrupt files are rejected without reading or writing out of bounds; every star has a positive temperature and the solid angle that reproduces its V magnitude, star directions advance by proper motion, a scene's own list of stars holds exactly those last set, added or loaded, and the command that converts the Tycho-2 files writes the stars of all its inputs and removes the inputs only when asked to and only after it succeeded.",
  ["inputs", "fault_sequences"], "every catalogue content, record, magnitude limit and file truncation or corruption",
  "No test loads a catalogue.",
  [I+"stars/io/load_tycho2.ipp", I+"stars/io/star_catalog.ipp", I+"stars/io/star_data.ipp", H+"stars/io/tycho2_id.hpp", I+"stars/star.ipp"],
  [("column parser", I+"stars/io/load_tycho2.ipp"), ("binary catalogue reader", I+"stars/io/star_catalog.ipp")],
  ["parsed stars against an independent parser", "AddressSanitizer/UBSan reports"])
p("C33", "Loading a model reproduces the file's geometry, placement and materials",
  "Loading a model file creates, for every mesh, a primitive with the same triangles, normals, texture coordinates and vertex colours, placed by the product of the node transforms above it (mirrored ones included), with the base colour, opacity, roughness, metalness, emission and normal map that the file's factors and textures state, each kept by the material it belongs to; a texture gives the same linear colours whether embedded or stored as a file. A missing, malformed or truncated model file produces an exception and leaves no model behind; a missing or damaged texture never prevents loading and never crashes; loading twice gives two independent models with distinct names.",
  ["inputs", "fault_sequences"], "every model file of the supported subset, well-formed or not",
  "No test loads a model.",
  [I+"assets/io/model_loader.ipp", I+"assets/model.ipp"],
  [("node and mesh conversion", I+"assets/io/model_loader.ipp")],
  ["contents of the scene after loading", "AddressSanitizer reports"])
p("C34", "Logging is thread-safe and keeps the newest messages in order",
  "Any number of threads may log, dump, resize the buffer, change levels and replace the sink at once without data races or crashes. A dump contains exactly the most recent messages up to the buffer size, each whole, in the order they were logged per thread, without messages below the level; the sink sees each accepted message once, and exceptions thrown by the sink do not reach the logging thread; each console level includes the more severe ones. A crash or uncaught exception writes the log once, naming the active scopes, and still ends the process the way it would have ended (also with the handler off, which leaves the program's own handlers in place), and logging while the program exits is safe.",
  ["schedules", "histories"], "every interleaving of logging and configuration calls and every buffer size",
  "No test logs concurrently; the quantifier is over schedules.",
  [H+"util/logger.hpp", I+"util/logger.ipp"],
  [("ring buffer index", I+"util/logger.ipp")],
  ["dump files and sink calls against the recorded history", "ThreadSanitizer reports"])
p("C35", "The header-only library can be used from several source files and paths resolve",
  "Including the library from any number of source files of one program links and gives one shared logger, data directory and SPICE state. The data directory is the last one set (relative ones resolved against the executable) or the default after a reset, and creating an output path creates its directories and nothing else.",
  ["programs", "histories"], "every program with two or more including source files; every sequence of path settings",
  "Every test is a single source file.",
  [I+"util/paths.ipp", I+"render/trajectory_arc.ipp", H+"util/logger.hpp", I+"stars/io/load_tycho2.ipp", I+"platform/info.ipp"],
  [("inline definitions", I+"util/logger.ipp")],
  ["a linked two-source program and its run-time observations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
