"""Single source of the property list; gen_meta.py turns it into properties.jsonl and MANIFEST.json."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), technique="", note="", hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state, technique=technique, note=note, hook=hook))

prop("P01", "Ray queries return exactly the nearest surface hit",
 "For every scene graph of triangle meshes under nested (also non-uniform, mirrored or repeated) transforms, a ray query with any range returns the nearest triangle crossed inside the range, and nothing when none is crossed (or the environment, if there is one and the range is unbounded). The reported distance, primitive, face, position, geometry and shading normal, texture coordinates and tangent frame are those of that triangle, for scenes with no triangles, degenerate triangles, and hierarchies of any shape.",
 ["inputs", "configurations"], "all scenes, rays and ranges, with sizes from 1e-7 to 1e7 as far as double precision resolves them",
 "No unit test traces a ray through a generated scene; one functional test shoots rays at one fixed scene and compares two builders of the same code base, so most node layouts, ranges and transforms are never exercised.",
 ["src/accel/accel_sahbvh.cpp", "src/scene.cpp", "include/lm/math.h", "include/lm/surface.h", "src/mesh/mesh_raw.cpp"],
 [("hierarchy build and traversal", "src/accel/accel_sahbvh.cpp"), ("hit to surface point", "src/scene.cpp"), ("normal/texture interpolation", "src/mesh/mesh_raw.cpp")],
 ["result of a ray query on the scene and on the acceleration structure"], 
 technique="property-based testing: generated scenes and rays against an exhaustive extended-precision reference",
 note="Generated-input search; hits within 1e-10 of an edge, range end or grazing (|det|<1e-7) may go either way.")

prop("P02", "Visibility between two scene points equals what lies between them",
 "Two points of a scene see each other exactly when no surface crosses the open segment between them, for surface points, endpoints (lights, cameras) and points at infinity. The answer is the same in both orders, and geometry beyond either end or at the end points themselves never occludes.",
 ["inputs", "configurations"], "all scenes and pairs of points, including points on surfaces and infinitely distant ones",
 "No unit test calls the visibility query; it is only reached through image comparisons that cannot separate a wrong answer from noise.",
 ["src/scene.cpp", "include/lm/scene.h"], [("visibility query", "include/lm/scene.h")],
 ["boolean answer of the visibility query"],
 technique="property-based testing: generated point pairs against an exhaustive segment/triangle reference, symmetry relation",
 note="Points whose blockers lie within the documented epsilon of an end are left undecided.")

prop("P03", "Scene editing histories keep graph, traversal and light table consistent",
 "After any sequence of node creations, attachments and builds, the scene reports exactly the nodes created, traversal visits every path from the root to a primitive exactly once with the product of the group transforms on that path, and the camera, environment light and light list are exactly the ones attached. Looking a light up by index and by node agree, light selection draws every light with its reported probability, and invalid edits (bad parents, bad component references, missing camera or accelerator) are reported and leave the scene as it was.",
 ["histories", "inputs"], "all finite sequences of scene edits, including erroneous ones",
 "The tests build a couple of fixed scenes from one sequence of calls; nested groups, repeated instancing, several lights and failed edits never occur.",
 ["src/scene.cpp", "include/lm/scene.h", "include/lm/scenenode.h"], [("node creation and attachment", "src/scene.cpp"), ("light indexing", "src/scene.cpp")],
 ["node list, traversal callbacks, light queries, error codes"], 
 technique="stateful property-based testing: generated edit histories against a reference graph model",
 note="Model-based histories of up to a few dozen operations.")

prop("P04", "Material sampling, density and evaluation agree",
 "For every surface material, parameter set, surface point, transport direction and component, a sampled direction carries exactly the weight reflectance-times-cosine-free value divided by the reported density of that direction, the reported densities describe the distribution the sampler actually draws from (they integrate to the sampling probability), and the value returned is the one the evaluation gives for the same pair of directions. Nothing sampled or evaluated is negative or not a number, component selection probabilities are those of the sampler and sum to one, and non-specular components report no delta behaviour while specular ones do.",
 ["inputs", "configurations"], "all materials, parameters, geometries, incident directions and random numbers",
 "A material bug changes pixel values slightly; the tests contain no check of any material, and any sampled handful of directions cannot show that density and sampler match.",
 ["src/material/material_diffuse.cpp", "src/material/material_glossy.cpp", "src/material/material_glass.cpp", "src/material/material_mirror.cpp", "src/material/material_mask.cpp", "src/material/material_mixture.cpp", "include/lm/material.h"],
 [("sampling, density and evaluation of each material", "src/material")], ["sampled direction and weight, reported density, evaluated value"],
 technique="property-based testing: per-sample weight*density=value relation plus moment tests of the sampler against quadrature of the reported density",
 note="Exact relation per generated sample; distribution tests use >=6 sigma bounds.")

prop("P05", "Materials obey reciprocity, energy conservation and the optical laws",
 "Non-specular reflection is symmetric in its two directions and has the value of its model (constant or textured diffuse, anisotropic GGX with Smith shadowing and Schlick Fresnel, mixtures as weighted sums, masks weighted by alpha), every material sends out no more energy than it receives when its parameters are at most one, and no material lets light through unless it is transmissive. Mirrors reflect about the shading normal, and the dielectric refracts by Snell's law, splits energy by the Fresnel reflectance, reflects totally beyond the critical angle, and applies the radiance scaling only when carrying radiance.",
 ["inputs", "configurations"], "all materials, parameters and direction pairs",
 "No test evaluates a material against physics; image regression cannot tell.",
 ["src/material", "include/lm/math.h", "include/lm/material.h"], [("reflection and refraction", "src/material/material_glass.cpp"), ("microfacet model", "src/material/material_glossy.cpp")],
 ["evaluated values and sampled directions"],
 technique="property-based testing: metamorphic (reciprocity, albedo<=1) and reference-formula oracles in long double",
 note="Albedo by stratified quadrature with a stated error allowance.")

prop("P06", "Light sampling, density and emission agree under any transform",
 "For every light (area, point, directional, uniform and textured environment) and any placement in the scene, sampling a direction or position toward a receiver or a whole emitted ray carries exactly emission divided by the reported density, the density describes the distribution actually sampled over the transformed emitter, and unlit sides, delta emission and infinitely distant emitters are reported consistently. Estimating incident radiance through the sampler converges to the value obtained by integrating emission over the emitter.",
 ["inputs", "configurations"], "all lights, shapes, transforms, receivers and random numbers",
 "No test exercises a light; errors appear as brightness shifts only under transforms or light mixes that the example scenes do not contain.",
 ["src/light/light_area.cpp", "src/light/light_point.cpp", "src/light/light_directional.cpp", "src/light/light_env.cpp", "src/light/light_envconst.cpp", "include/lm/light.h", "src/scene.cpp"],
 [("sampling and density of each light", "src/light")], ["sampled points, weights, densities and emitted radiance"],
 technique="property-based testing: weight*density=emission per sample, sampler-vs-density moment tests, incident-radiance estimate against own quadrature",
 note="Area lights under affine transforms use the true transformed areas as reference.")

prop("P07", "Camera rays, raster positions and densities are mutually inverse",
 "For every camera placement (look-at or matrix form), aspect ratio and field of view, the primary ray through a raster position maps back to that position, directions outside the view have no raster position, zero density and zero importance, and a sampled primary ray carries importance divided by density. The reported density over directions integrates to one over the image, and view and projection matrices describe the same mapping.",
 ["inputs", "configurations"], "all camera settings, raster positions and directions",
 "Cameras are only exercised via rendered examples with one viewpoint.",
 ["src/camera/camera_pinhole.cpp", "include/lm/camera.h"], [("ray generation and inverse", "src/camera")],
 ["rays, raster positions, densities, matrices"],
 technique="property-based testing: round trip raster->ray->raster, own projective reference, density integral by quadrature",
 note="Fields of view within (1,175) degrees.")

prop("P08", "Tabulated distributions and sampling primitives are what they claim",
 "For every table of non-negative weights, the distribution's probability of each entry is its weight over the total and drawing with a uniform number returns the entry whose cumulative interval contains it; the two-dimensional table does so with its density. Sampling helpers (hemisphere, disk, triangle, sphere directions, interval), orthonormal bases, reflection, refraction, spherical coordinates, boxes, transforms, geometry terms and measure conversions satisfy their defining equations for all inputs, and a random generator with the same seed yields the same numbers in the half-open unit interval.",
 ["inputs"], "all weight tables (including zeros and single entries) and uniform numbers in [0,1)",
 "Tests contain no check of the distributions; boundary draws and zero entries need generated tables.",
 ["include/lm/math.h"], [("1D and 2D tables", "include/lm/math.h"), ("math helpers", "include/lm/math.h")],
 ["drawn index/position, probability, generator output"],
 technique="property-based testing: exact interval model of inverse-transform sampling and defining equations",
 note="Weights of ordinary magnitude; equality at interval ends within rounding.")

prop("P09", "Participating media sample distances and transmittance without bias",
 "For every homogeneous or heterogeneous medium, volume and ray segment, expected transmittance equals the exponential of minus the integrated extinction, distance samples follow the corresponding free-flight law with the matching weight, and rays outside the medium are unaffected. Phase functions integrate to one, their sampler follows their density, and volumes report the field they describe, never above their reported maximum and confined to their bound.",
 ["inputs", "configurations"], "all media, volumes, phase parameters, rays and random numbers",
 "No test touches media; estimators are stochastic, so example images cannot settle the bias.",
 ["src/medium/medium_homogeneous.cpp", "src/medium/medium_heterogeneous.cpp", "src/phase/phase_hg.cpp", "src/phase/phase_isotropic.cpp", "src/volume", "include/lm/medium.h", "include/lm/phase.h", "include/lm/volume.h"],
 [("distance and transmittance sampling", "src/medium"), ("phase sampling", "src/phase"), ("density fields", "src/volume")],
 ["sampled distance, weight, transmittance, phase value and density"],
 technique="property-based testing: Monte-Carlo mean against own numerical integration (>=6 sigma), per-sample weight relations, bound invariants",
 note="Statistical part detects biases of a few percent.")

prop("P10", "Texture lookups return the addressed texel",
 "A texture evaluated at any coordinate returns the texel that coordinate addresses under repeating wrap, with rows oriented as documented, values and alpha as stored, and the same answer by pixel coordinate and by texture coordinate. Sizes, constant textures and images written to and read back from disk agree with what was stored.",
 ["inputs", "configurations"], "all image sizes, channel counts, coordinates (negative, large, on texel edges)",
 "No test evaluates a texture.",
 ["src/texture/texture_bitmap.cpp", "src/texture/texture_constant.cpp", "include/lm/texture.h"], [("lookup", "src/texture")],
 ["looked-up color and alpha"],
 technique="property-based testing: generated image files and coordinates against an own image model",
 note="Images are produced by the harness through its own encoders.")

prop("P11", "Model files load exactly the geometry and materials they describe",
 "For every well-formed OBJ/MTL pair, each face becomes the triangles of its fan with exactly the positions, normals and texture coordinates referenced (by positive or negative indices), grouped by the material in force, and each material becomes the component its parameters describe with lights on emissive faces. Mesh queries (triangle list, single triangle, interpolated surface point, triangle count) all describe the same geometry, and meshes given inline load the same way.",
 ["inputs", "configurations"], "all well-formed OBJ/MTL files of the documented subset, both loaders",
 "Tests load no generated model file; index forms, group and material changes and missing attributes have combinatorially many mixes.",
 ["src/objloader/objloader_simple.cpp", "plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp", "src/model/model_wavefrontobj.cpp", "src/mesh/mesh_wavefrontobj.cpp", "src/mesh/mesh_raw.cpp"],
 [("OBJ/MTL parsing", "src/objloader/objloader_simple.cpp"), ("material mapping", "src/model/model_wavefrontobj.cpp")],
 ["triangles, materials, lights of the loaded model"],
 technique="property-based testing: printed generated models re-loaded and compared with the generator's own description, two loaders",
 note="Numbers are printed round-trippably.")

prop("P12", "Malformed model files are rejected or skipped without memory corruption",
 "Whatever bytes a model, material or mesh-parameter file contains, loading it either raises an ordinary error or yields a model whose queries are all safe to use; it never crashes, hangs, reads or writes outside its data. A file whose faces refer to missing vertex data, or that names a material, library or texture that does not exist, is refused and leaves nothing behind, and every triangle a loaded mesh reports refers to data that was in the file.",
 ["inputs"], "all byte strings as OBJ/MTL files and all inline mesh parameter values",
 "Tests only use well-formed inputs.",
 ["src/objloader/objloader_simple.cpp", "src/mesh/mesh_raw.cpp", "src/mesh/mesh_wavefrontobj.cpp", "src/model/model_wavefrontobj.cpp"], [("parsing", "src/objloader/objloader_simple.cpp")],
 ["process survival under AddressSanitizer, error codes, mesh query results"],
 technique="structure-aware mutation fuzzing of model files under AddressSanitizer",
 note="Inputs of up to a few kilobytes.")

prop("P13", "Film contents follow from the history of operations",
 "After any sequence of setting, splatting, incremental averaging, accumulating, rescaling and clearing, each pixel of a film equals the value obtained by replaying the operations on a plain array, sizes and aspect ratios match, and pixels not named in an operation are unchanged. Raster positions map to the pixel that contains them, and positions outside are clamped to the nearest pixel without touching others.",
 ["histories", "inputs"], "all finite operation sequences on films of all sizes",
 "Tests only check that a blank film serialises.",
 ["src/film/film_bitmap.cpp", "include/lm/film.h"], [("pixel store", "src/film/film_bitmap.cpp")], ["pixel buffer"],
 technique="stateful property-based testing against an array model",
 note="Values compared with rounding allowance.")

prop("P14", "Concurrent film updates lose nothing",
 "When any number of threads splat into the same film at the same time, the final pixel values are the exact sums of all contributions. User-defined atomic updates and film accumulations are each applied exactly once, concurrent sets leave one of the written colors whole, and updates of different pixels do not disturb one another.",
 ["schedules", "inputs"], "all interleavings of splats from all threads",
 "Tests are single-threaded.",
 ["src/film/film_bitmap.cpp"], [("atomic accumulation", "src/film/film_bitmap.cpp")], ["pixel buffer after joins"],
 technique="randomised concurrency stress with exactly representable contributions and an exact-sum oracle",
 note="Random schedules on 8 cores; lost updates recur within milliseconds when atomicity is broken.")

prop("P15", "Saved images reproduce the film",
 "Saving a film to any supported format and reading the file back gives the film's pixels: exactly for the floating-point formats and within quantisation of the documented gamma curve for the 8-bit ones, with the same width, height, orientation and channel order. Saving to an unsupported or unwritable path, or to a device without space, reports failure and leaves the film unchanged.",
 ["inputs", "configurations"], "all films (sizes, values incl. extreme ones) and formats",
 "No test saves and reloads an image.",
 ["src/film/film_bitmap.cpp"], [("encoding", "src/film/film_bitmap.cpp")], ["bytes of the saved file"],
 technique="property-based testing: round trip through own PFM/HDR/PNG decoding",
 note="Quantisation bounds per format.")

prop("P16", "Parallel loops and schedulers process each sample exactly once",
 "A parallel loop over any range runs its body exactly once for every index with thread numbers below the configured count (whichever thread starts the loop), reports progress that never goes back and never exceeds the total (the same to every configured reporter; a delayed one is told a part of it, never more often than its delay), and passes an exception thrown by the body to the caller. Sample schedulers issue exactly the configured number of samples per pixel (or per image), each pixel inside the image, and report the number processed; time-limited ones stop after the limit.",
 ["schedules", "inputs", "configurations"], "all range sizes, thread counts and schedules",
 "The tests never run a parallel loop.",
 ["src/parallel/parallel_openmp.cpp", "src/scheduler.cpp", "include/lm/parallel.h", "include/lm/scheduler.h"], [("loop distribution", "src/parallel/parallel_openmp.cpp"), ("sample scheduling", "src/scheduler.cpp")],
 ["per-index counts, progress values, return value"],
 technique="property-based testing over sizes, thread counts and body delays with exact counting oracle",
 note="Random schedules.")

prop("P17", "Saved and reloaded state behaves identically",
 "For every component and every assembly of assets (scene, meshes, materials, lights, cameras, media, textures, films, accelerators, renderers), saving and loading yields a component that answers every query exactly as the original, with references resolved to the reloaded instances. Saving the same state twice yields the same bytes, and a component that refers to assets outside of itself is refused when saved on its own.",
 ["inputs", "configurations", "histories"], "all serialisable components, parameters and asset graphs",
 "Tests round-trip a handful of fixed components and look at one or two members.",
 ["include/lm/serial.h", "include/lm/serialtype.h", "include/lm/assetgroup.h", "src/assetgroup.cpp", "src/scene.cpp"], [("archive of each component", "src"), ("weak references as locators", "include/lm/serial.h")],
 ["query results before and after"],
 technique="property-based testing: save/load round trip, differential query comparison of original and reloaded",
 note="Every built-in component type is generated.")

prop("P18", "References always denote the asset's current instance",
 "After any history of adding, replacing and re-using assets, every component that refers to an asset uses the current instance under that name, and no use reaches a destroyed instance. Replacing an asset gives observably the same result as having created it in that form in the first place.",
 ["histories"], "all histories of asset creation and replacement over all component kinds",
 "Two tests replace one asset once.",
 ["src/assetgroup.cpp", "include/lm/component.h", "src/component.cpp", "src/scene.cpp"], [("reference update on replacement", "src/assetgroup.cpp")],
 ["query results through dependants under AddressSanitizer"],
 technique="stateful property-based testing: replacement histories compared with fresh construction, under AddressSanitizer",
 note="Histories of up to a dozen replacements.")

prop("P19", "Failed asset creation leaves everything else intact",
 "When creating or replacing an asset fails, because the type is unknown, a parameter is missing or wrong, or a file is unreadable, the caller gets an error, all other assets keep working and the failed name does not denote a half-made asset. An asset that was to be replaced stays in use, a later successful creation under that name works as if the failure had not happened, and a failed save or load of the whole state raises an error and leaves the current assets.",
 ["fault_sequences", "histories"], "all failing creations inserted at any point of a history",
 "One functional test triggers one failure.",
 ["src/assetgroup.cpp", "src/component.cpp"], [("asset registration", "src/assetgroup.cpp")], ["error codes, lookups and asset behaviour"],
 technique="stateful property-based testing with injected failing creations against a reference asset table",
 note="Failures from missing/invalid parameters and unknown types.")

prop("P20", "Component registry and locators resolve to the right instance",
 "Registering, unregistering and creating components by key, including from plugins loaded and unloaded in any order, always constructs the implementation registered under exactly that key or reports failure, and never one of another interface. A locator resolves to the component at that path of the hierarchy, and to an error when the path does not exist or names another kind of component.",
 ["histories", "inputs"], "all histories of registrations, plugin loads and lookups; all locator strings",
 "Tests cover one registration and one plugin at a time.",
 ["src/component.cpp", "include/lm/component.h", "src/assetgroup.cpp", "src/model/model_wavefrontobj.cpp"], [("factory table", "src/component.cpp"), ("locator resolution", "src/component.cpp")],
 ["created instances, errors"],
 technique="stateful property-based testing against a reference registry",
 note="Uses the repository's own component API with harness-defined components.")

prop("P21", "Parameters convert between JSON and native values exactly or fail",
 "Every vector, matrix, number, string and reference converted to a parameter value and back is unchanged, with matrices laid out as documented. A parameter that is missing takes the default where one is defined and otherwise raises an error, and values of wrong type or length are rejected rather than read as something else; command-line style overrides parse by the same rules.",
 ["inputs"], "all parameter values and shapes",
 "Tests convert one fixed value of each type.",
 ["include/lm/json.h", "include/lm/jsontype.h"], [("conversions", "include/lm/json.h")], ["converted values and errors"],
 technique="property-based testing: round trips and generated malformed values",
 note="Finite numbers.")

prop("P22", "Path weights and densities satisfy their defining identities",
 "For every path sampled from either end of any scene, the accumulated sampling weight equals contribution divided by sampling density, that density is the one samples are actually drawn with, and connecting sub-paths gives the same contribution for every split of the same path. Multiple-importance weights over all strategies of a path are non-negative and sum to one.",
 ["inputs", "configurations"], "all scenes, sampled paths and strategies",
 "No test inspects a path; renderers only expose the aggregate.",
 ["include/lm/path.h", "include/lm/bidir.h"], [("sampling and evaluation primitives", "include/lm/path.h"), ("bidirectional weights", "include/lm/bidir.h")],
 ["weights, densities, contributions of sampled paths"],
 technique="property-based testing: algebraic identities on randomly sampled paths of generated scenes",
 note="Relative tolerance 1e-6; drawing frequencies at >=6 sigma. Includes media and lights defined by the user. One known finding (several placements of one area light).")

prop("P23", "All light transport algorithms converge to the same image",
 "Rendering the same scene with path tracing (each sampling mode), light tracing, bidirectional path tracing in all its variants and volumetric path tracing gives the same expected value for every pixel, for the same bound on path length. The expectation does not depend on the number of threads, the scheduler or the sample count.",
 ["configurations", "inputs", "schedules"], "all scenes with the materials and lights each algorithm supports",
 "The tests compare no two renderers.",
 ["src/renderer", "include/lm/path.h", "include/lm/bidir.h"], [("estimators", "src/renderer")], ["film contents"],
 technique="differential Monte-Carlo testing of renderers on generated scenes with >=6 sigma bounds",
 note="Detects biases above the reached standard error (about 1% of the image mean).")

prop("P24", "Renders match closed-form results and repeat with the same seed",
 "For scenes with known solution (constant environment, directly seen emitters, surfaces lit directly by point, directional or polygonal area lights, open and closed furnaces, homogeneous media, flat-coloured, shaded and normal raycasts) every renderer gives the known value at each pixel. A single-threaded render with a fixed seed in a fresh process repeats exactly, a render overwrites whatever the film held before, and every pixel holds finite non-negative values.",
 ["inputs", "configurations"], "all furnace albedos, shapes, cameras, image sizes and seeds",
 "The functional tests only check that examples run.",
 ["src/renderer/renderer_raycast.cpp", "src/renderer/renderer_pt.cpp", "src/renderer"], [("estimators", "src/renderer")], ["film contents"],
 technique="property-based testing against closed-form solutions and repeat runs in fresh processes",
 note="Stochastic comparisons at >=6 sigma.")

prop("P25", "Log output contains every message at or above the severity, in order",
 "For any sequence of log calls, indentation changes and severity settings, exactly the messages at or above the threshold appear, complete, once each and in order, prefixed line by line with the current indentation. A progress message replaces the preceding one on its line without residue and the end of the progress ends that line; messages from concurrent threads never interleave within a line.",
 ["histories", "schedules"], "all log call histories and severities",
 "Tests print fixed messages and check a few lines.",
 ["src/logger.cpp", "include/lm/logger.h"], [("formatting and filtering", "src/logger.cpp")], ["text written by the logger"],
 technique="stateful property-based testing against a reference formatter, concurrent stress",
 note="")

prop("P26", "Values and calls cross the Python boundary unchanged",
 "Every number, vector, matrix, array, parameter object and component reference passed to or returned from Python arrives with the same values, shape and identity, whatever the memory layout, size, element type or nesting of the Python object, or else raises a Python error. A component written in Python, registered, loaded, replaced, held, saved or reset in any order, is called by the engine with the arguments and results of the overridden function, draws from the engine's own random numbers and lives exactly as long as it is referenced; native components, scenes and callbacks used from Python give what the same native calls give.",
 ["inputs", "histories"], "all numpy layouts, sizes and dtypes, nested parameter objects, overridable functions whose types are exposed, and histories of Python components",
 "Tests pass one contiguous array per type and override one or two functions.",
 ["include/lm/pylm.h", "src/pylm.cpp"], [("type casters", "include/lm/pylm.h"), ("registration and lifetime of Python components", "include/lm/pylm.h"), ("interface bindings and trampolines", "src/pylm.cpp")], ["values seen on each side of the boundary, calls recorded in Python, live Python objects"],
 technique="property-based testing (hypothesis): generated values, overrides and histories through the bindings against an own model of the conversion and differential native calls",
 note="Numbers of other element types and integers beyond 32 bits may be refused with an error instead of converted.")

prop("P27", "Sessions and services start, end and reset cleanly in any order",
 "For any history of starting, ending and resetting the session and of starting, replacing and stopping the log, parallel, progress and model-loading services, a call is served by exactly the service started last, with its configuration, arguments and results unchanged, replaced services are gone, and a call whose service or session is not running raises an uninitialised error instead of crashing. Starting or resetting a session leaves no earlier asset and touches no service by reset. The asset tree lists exactly the owned components and, on request, the references, and polled values reach the registered handler unchanged.",
 ["histories"], "all histories of session and service calls",
 "Tests start a session once, use it and end it.",
 ["src/user.cpp", "include/lm/component.h", "src/debug.cpp", "src/logger.cpp", "src/progress.cpp", "src/parallel", "src/objloader"], [("session", "src/user.cpp"), ("service instances", "include/lm/component.h"), ("asset tree and polling", "src/debug.cpp")], ["calls received by recording services, live instances, errors, asset set, text of the tree"],
 technique="stateful property-based testing against a model of the session, recording services, AddressSanitizer",
 note="Logging without a logger falls back to the standard output. After a service could not be started, which service is in force is unspecified.")
