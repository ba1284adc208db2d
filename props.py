"""The properties, their anchors, and the assurance note of each check (single source; see gen.py)."""

PROPS, NA = [], []


def P(pid, title, statement, qtext, why, files, mech, note, over=("inputs",), dst=None, **kw):
    d = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "note": note,
    }
    d.update(kw)
    (PROPS if dst is None else dst).append(d)


def X(pid, title, statement, qtext, why, files, mech, reason, over=("inputs",)):
    P(pid, title, statement, qtext, why, files, mech, "", over, NA, reason=reason)


TRUST = ("Sound for the modelled Python subset; trusts the value-flow engine in sa/flow.py, the declared field list of the C++ "
         "bindings, and the identity of representation conversions (list/np.array/float). ")

P("P01", "Cameras survive being written to disk and read back",
  "For every projection type, a camera that is saved (in the cameras file, the camera overrides, or a reconstruction) and loaded again "
  "has the same projection type, id, width, height and every intrinsic and distortion parameter it had. The flat parameter vector of a "
  "camera converts back to the same camera as well.",
  "Every camera model, every value of every parameter (including zero and negative values).",
  "The suite needs the compiled extension for its camera tests (they do not run here), and they sample one camera per type with "
  "values that can hide swapped or truthiness-gated fields.",
  ["opensfm/io.py"],
  [("camera_to_json / camera_from_json", "opensfm/io.py"), ("camera_to_vector / camera_from_vector", "opensfm/io.py")],
  "Decides, for each of the 10 projection types, that reader composed with writer is the identity on every factory slot and attribute. " + TRUST)

P("P02", "A saved reconstruction reads back with everything it held",
  "Saving a reconstruction and loading it restores every camera, camera bias, rig camera, rig instance, shot, panorama shot, point and the "
  "geographic reference under the same ids, with the same poses, rig membership, scales, merge components, covariances, meshes, "
  "measurements, coordinates and colors. Optional measurements that were absent stay absent, and present ones are kept whatever their value.",
  "Every reconstruction: any mix of shots, rigs, missing or falsy measurements.",
  "Round-trip tests need the compiled extension and use one fixture whose values are neither zero nor missing in the combinations that matter.",
  ["opensfm/io.py", "opensfm/types.py"],
  [("reconstruction_to_json / reconstruction_from_json", "opensfm/io.py"), ("shot_to_json / shot_in_reconstruction_from_json", "opensfm/io.py")],
  "Decides every stored attribute by composing the reader with the writer and comparing value and gate. " + TRUST)

P("P03", "Ground control points keep their position and image observations",
  "Ground control points written to disk and read back keep their id, their latitude, longitude and (when they have one) altitude, and every "
  "image observation with its coordinates; a point without altitude comes back without one. Reading a text list yields one point per distinct "
  "position, with the listed coordinates in the right axes, and one observation per line of a known image, normalised with that image's own size.",
  "Every list of points and observations, any projection, known and unknown altitudes, repeated images.",
  "Existing tests need the compiled extension and use one small well-formed file.",
  ["opensfm/io.py"],
  [("write_ground_control_points / read_ground_control_points", "opensfm/io.py"), ("_read_gcp_list_lines", "opensfm/io.py")],
  "Decides every stored field by composing the reader with the writer, and every value of the text reader. " + TRUST)

P("P05", "Every dataset file loads back as what was saved",
  "For every kind of dataset file that OpenSfM both writes and reads (features, words, matches, EXIF, camera models and overrides, reference "
  "position, rig cameras and assignments, segmentations and masks, tracks, reconstructions, depthmaps, undistorted images and shot ids, submodel "
  "image lists and clusters), loading returns what was last saved, with nothing lost, swapped or rescaled. Features in particular keep their "
  "points, descriptors, colors and semantics for every supported descriptor type, and files of older versions are still understood.",
  "Every dataset, image name and content; every saver/loader pair of the dataset classes.",
  "The pairs live in different methods and classes, most have no test at all, and the tests that exist save one fixture.",
  ["opensfm/dataset.py", "opensfm/features.py", "opensfm/large/metadataset.py"],
  [("save_* / load_*", "opensfm/dataset.py"), ("FeaturesData.save / from_file", "opensfm/features.py"),
   ("UndistortedDataSet", "opensfm/dataset.py"), ("MetaDataSet", "opensfm/large/metadataset.py")],
  "Decides every pair by composing the loader with the files written by the saver. " + TRUST, over=("inputs", "histories"))

P("P06", "Each artifact has one path of its own that saver, loader and existence test agree on",
  "A dataset artifact is written to exactly the path its loader reads and its existence test probes. Different kinds of artifacts never share a "
  "path, artifacts of different images never share a path, and the folder a file is written to exists by the time it is written.",
  "Every dataset location and image name; every pair of artifacts.",
  "Collisions and missing folders need particular combinations of stages, options and image names.",
  ["opensfm/dataset.py", "opensfm/large/metadataset.py"],
  [("path helpers", "opensfm/dataset.py"), ("path helpers", "opensfm/dataset.py")],
  "Compares the symbolic paths of every reader, writer and test. " + TRUST, over=("inputs", "histories"))

P("P10", "Opening a dataset never runs code it contains",
  "Reading any file of a dataset (matches, features, words, clusters, configuration, metadata, overrides) never runs code found in that file: "
  "stored matches can only rebuild plain numpy arrays and anything else is refused, arrays are never unpickled as objects, configuration is "
  "plain data, and no shell command is built from dataset content.",
  "Every file content, including crafted ones, and every reader in the repository.",
  "A crafted file is needed for each reader, and a new unsafe reader has no test until someone writes the exploit.",
  ["opensfm/dataset.py", "opensfm/features.py", "opensfm/config.py"],
  [("MatchingUnpickler", "opensfm/dataset.py"), ("FeaturesData.from_file", "opensfm/features.py")],
  "Complete over the references the resolved syntax tree shows; a loader reached through reflection is not seen. The list of unsafe readers is fixed in the check.")

P("P15", "The web servers give out only files of the dataset",
  "The viewer and the annotation tool answer a request with a file only when that file lies below the dataset folder they were started on. A "
  "request path with parent steps, absolute parts or encoded separators never makes them read any other file.",
  "Every request URL and request body, every route.",
  "No test starts the servers, and ordinary browsers normalise the paths that would show it.",
  ["viewer/server.py", "annotation_gui_gcp/lib/image_manager.py"],
  [("get_data / get_image / verified_send", "viewer/server.py"), ("ImageManager.get_image", "annotation_gui_gcp/lib/image_manager.py")],
  "Taint over every registered view; trusts werkzeug's safe_join. Symbolic links inside the dataset are followed, as the submodels need.")

P("P18", "Matched feature indices always refer to the right image's features",
  "A stored match is a pair (index of a feature of the first image, index of a feature of the second image) into the full feature files of "
  "the two images it is stored under, whichever matcher, direction, mask, filter and robust estimator produced it, and also after it is read "
  "from the other image's file. Each image's points are used with that image's own camera, mask, words and pose, and the two directions of "
  "symmetric matching are intersected in one common orientation.",
  "Every pair of images and features, every matcher_type, masked or not, one-way or symmetric, guided or not.",
  "Swapped sides cancel out on similar images with no mask and one camera, which is what the synthetic tests use.",
  ["opensfm/matching.py", "opensfm/feature_loading.py", "opensfm/features.py", "opensfm/dataset.py", "opensfm/tracking.py"],
  [("match and the matchers", "opensfm/matching.py"), ("save_matches", "opensfm/matching.py"), ("masked loading", "opensfm/feature_loading.py")],
  "Type-checks every argument, selection and result of the Python matching code for the image it belongs to. Signatures of the C++ and OpenCV "
  "matchers are trusted, and values the type rules do not cover are not judged.")

P("P20", "Tracks hold exactly the features their matches join",
  "Each track groups features joined, directly or through other features, by matches, sees every image at most once, and has at least "
  "min_track_length features. Every observation of a track carries the coordinates, scale, color, segmentation, instance and depth prior of the "
  "very feature (image and index) it names. The common tracks of an image pair list each track with its point in the first and in the second "
  "image, in that order.",
  "Every set of features and matches, with or without semantics and depth, every pair of images.",
  "A wrong column or index only shows with semantic data, depth maps or unusual colors, and the tracking tests need the compiled extension.",
  ["opensfm/tracking.py", "opensfm/unionfind.py", "opensfm/actions/create_tracks.py"],
  [("create_tracks_manager / _good_track", "opensfm/tracking.py"), ("load_features", "opensfm/tracking.py"), ("UnionFind.union", "opensfm/unionfind.py")],
  "Traces every field of every observation and the conditions of every addition. That union-find computes the transitive closure is checked only "
  "as far as linking representatives. " + TRUST)

P("P24", "Points come only from successful triangulations of their own observations",
  "A point enters a reconstruction, and an observation is attached to it, only when triangulating rays of at least two reconstructed images "
  "succeeded under the configured reprojection threshold, minimum ray angle (degrees) and minimum depth. Each ray starts at its image's position "
  "and follows the bearing of that image's observation through that image's camera and rotation. Outlier removal takes out exactly the "
  "observations whose reprojection error exceeds the threshold in force, and the points left with fewer than two observations.",
  "Every track, pose, camera and configuration; robust and full triangulation; ground control points.",
  "Wrong frames, angle units or gates shift a few points out of thousands, and these functions need the compiled extension to run at all.",
  ["opensfm/reconstruction.py", "opensfm/multiview.py"],
  [("TrackTriangulator", "opensfm/reconstruction.py"), ("triangulate_gcp", "opensfm/multiview.py"), ("remove_outliers", "opensfm/reconstruction.py")],
  "Decides how rays, thresholds and gates reach the C++ solvers and what is stored from them; the solvers themselves are trusted. " + TRUST)

P("P21", "Pair selection proposes each pair once, between a reference and a candidate image",
  "Every pair selected for matching joins a reference image with a different candidate image and is returned once, reference image first. Each "
  "strategy (GPS distance, triangulation graph, time, sequence order, BoW, VLAD) works with the number of neighbours and the distance configured "
  "for it, with overrides applied, selects nothing when switched off, and attributes each neighbour found to the image its position, time or "
  "histogram belongs to. Without GPS on all images the position based strategies are off. With every strategy off all pairs are selected, "
  "otherwise the union of the strategies.",
  "Every list of reference and candidate images (equal, overlapping or disjoint), metadata and configuration.",
  "The tests use one dataset with equal lists; mixed up rows, sides or options still return plausible pairs.",
  ["opensfm/pairs_selection.py"],
  [("match_candidates_from_metadata", "opensfm/pairs_selection.py"), ("match_candidates_by_distance", "opensfm/pairs_selection.py"), ("ordered_pairs", "opensfm/pairs_selection.py")],
  "Decides which images pairs are made of and where numbers come from, not the quality of the neighbours (KD-tree, Delaunay and histograms are "
  "trusted). " + TRUST)

P("P25", "Alignment and export move every part of a reconstruction by one and the same transform",
  "A similarity y = s A x + b applied to a reconstruction moves points and rig instances by it, keeps what every camera sees (rotation R A^T, origin moved "
  "with the points) and scales rig cameras without turning them. Similarities are estimated from reconstruction positions to the GPS and ground control "
  "measurements of the same instances and points, paired one by one, only with measurements that exist and are enabled; scale is kept when rigs fix it, "
  "and failed or degenerate estimates change nothing. The orientation tag selects the image axes used for levelling. GPS biases and submodel "
  "transformations are the inverses of what was estimated for that camera or submodel. Geographic export maps points, images, poses and the dense cloud by one affine map "
  "built from easting, northing and altitude.",
  "Every reconstruction (rigs included), similarity, set of constraints, orientation tag, submodel partition and projection.",
  "Swapped frames or a missing factor cancel for identity rotations, unit scales and single-camera rigs, which is what small tests use.",
  ["opensfm/align.py", "opensfm/large/tools.py", "opensfm/actions/export_geocoords.py", "opensfm/reconstruction.py"],
  [("apply_similarity", "opensfm/align.py"), ("compute_naive_similarity", "opensfm/align.py"), ("align_reconstructions", "opensfm/large/tools.py"), ("_get_transformation", "opensfm/actions/export_geocoords.py")],
  "Matrix identities are decided symbolically on the expressions in the source (rotations taken orthogonal); the numerical solvers are trusted. " + TRUST)

P("P31", "Metadata say what the image tags, overrides and calibrations say",
  "For every combination of present and absent tags: no absent tag is read; latitude and longitude are signed degrees by their reference letters; altitude "
  "is negative below sea level; image size, focal ratio (35 mm equivalent, else focal over sensor width) and orientation come from their own tags in the documented "
  "order; the capture time is UTC (GPS time, else each local time minus its own offset, sub-seconds included); omega, phi, kappa describe the rotation "
  "given by yaw, pitch and roll. Each field of the record and of the shot measurements holds its own quantity, the camera identifier distinguishes all fields it names, "
  "cameras get each calibration parameter of their own projection type (hard coded before metadata before default, shared tables unchanged), overrides "
  "replace extracted values before anything is saved, and the reference is the weighted mean of the positions.",
  "Every set of tags and values, projection type, override and configuration.",
  "No stable test reads EXIF; most images lack most tags, and wrong signs or swapped fields show only at particular places or devices.",
  ["opensfm/exif.py", "opensfm/actions/extract_metadata.py", "opensfm/reconstruction_helpers.py", "opensfm/dataset.py"],
  [("EXIF", "opensfm/exif.py"), ("camera_from_exif_metadata", "opensfm/exif.py"), ("run_dataset", "opensfm/actions/extract_metadata.py"), ("exif_to_metadata", "opensfm/reconstruction_helpers.py"), ("invent_reference_from_gps_and_gcp", "opensfm/dataset.py")],
  "Enumerates the worlds of present tags on the symbolic results of the extractors. " + TRUST)

P("P34", "A reconstruction holds what is added to it",
  "Adding a camera or rig camera that is held already changes nothing and gives back the one held; adding a new one stores it. A shot made without naming a rig camera or rig instance gets an identity rig camera under its camera's id and an instance under its own id, made only when they are not held yet; naming one "
  "that is not held is refused before anything is made. Adding a shot of another reconstruction brings its camera, rig camera and rig instance when they are not held yet, makes the shot once under its own ids with its own pose, and then takes over the rest of the shot. A rig instance whose shots are in another instance is refused "
  "untouched; otherwise its new rig cameras are stored and the instance is taken over. Panorama shots get a rig camera and an instance of their own, under ids that no ordinary camera or shot has. Points are stored with their coordinates and colour; assigning the points removes the former ones first, while assigning another collection adds "
  "each of its members. Each collection is the view of its kind on the reconstruction's own map; a deep copy has a map of its own, seen through its own views, with observations exactly when they are asked for. Observations of a tracks manager are added for exactly the points and shots held. The reference keeps latitude, longitude and altitude.",
  "Every sequence of additions, whatever is held already and whichever arguments are left out.",
  "What is made depends on what happens to be held; tests build reconstructions from scratch, with one camera and trivial rigs.",
  ["opensfm/types.py"],
  [("Reconstruction.create_shot", "opensfm/types.py"), ("Reconstruction.add_shot", "opensfm/types.py"), ("Reconstruction.add_rig_instance", "opensfm/types.py"), ("Reconstruction.create_pano_shot", "opensfm/types.py"), ("Reconstruction.__deepcopy__", "opensfm/types.py")],
  "The map itself is C++ and judged in P33. " + TRUST)
P("P35", "Splitting a dataset loses no image, and aligning the submodels uses all of them",
  "Every image with a latitude and a longitude is listed with its own, whatever their values, and is in one cluster: that of its group where groups are given, or one of ceil(images / size). A submodel has the images of its cluster and all images within the overlap, in metres on the ground, of "
  "any of them, once each; groups without such images do not end the split. Image lists and clusters are read back as they were written. Each submodel's folder lists exactly its images, each linked to its original, and shares the dataset's cameras, reference, metadata, features, matches, "
  "masks and segmentations, as far as they exist, and has its configuration. Old submodels are removed first and nothing else is; the reference is set before the split. The maps of the clusters draw each image at its own longitude and latitude with its own submodel. All submodels are found again, and all partial "
  "reconstructions of all of them are aligned, each under a name of its own; those that share an image are connected. In the alignment each reconstruction starts from the identity, each shot takes part once per reconstruction with its own pose, its own position and deviation, and shots that two "
  "reconstructions share are tied to each other.",
  "Every dataset: any number of images, with or without positions, any groups, cluster size and overlap, any files that exist, and any number of partial reconstructions.",
  "Losing an image, a shared file or a partial reconstruction only shows on large datasets with unusual images; no stable test splits a dataset.",
  ["opensfm/actions/create_submodels.py", "opensfm/large/metadataset.py", "opensfm/large/tools.py"],
  [("run_dataset", "opensfm/actions/create_submodels.py"), ("MetaDataSet.create_submodels", "opensfm/large/metadataset.py"), ("add_cluster_neighbors", "opensfm/large/tools.py"), ("load_reconstruction_shots", "opensfm/large/tools.py"), ("add_camera_constraints_soft", "opensfm/large/tools.py")],
  "The transformation applied to each submodel is judged in P25. The extracted calls are derived for a range of datasets, clusters and folders, not for all. k-means itself, cKDTree and the file system are taken to do what they say. " + TRUST)
P("P36", "Aligning reconstructions minimises the errors of the constraints added, and moves only what is free",
  "The problem solved when reconstructions are aligned has exactly one error for each constraint added, over the parameters of the shots and reconstructions that constraint names, divided by its own deviations (or multiplied by its own matrix): "
  "a relative motion compares the pose of the shot in its reconstruction with its pose in the world moved by the reconstruction; an absolute position compares the shot's optical centre with the position; a position of a shot in a reconstruction compares it with the centre "
  "brought to the world; a common camera compares orientations and centres, and a common point both points, brought to the world by the two reconstructions (points scaled by both scales, so that they cannot vanish by shrinking). "
  "Reconstructions and shots added as fixed do not move, all others may; scales stay positive. What is added again replaces what was there. Every value is read back under its own name, where the optimisation ended.",
  "Every set of shots, reconstructions and constraints, all values of poses, scales, measurements, deviations and matrices.",
  "The extension is not built here, so no stable test aligns anything; the existing ones have identity rotations and unit scales only, which hide transposed rotations and swapped reconstructions.",
  ["opensfm/src/bundle/reconstruction_alignment.h"],
  [("ReconstructionAlignment::Run", "opensfm/src/bundle/reconstruction_alignment.h"), ("RARelativeMotionError", "opensfm/src/bundle/reconstruction_alignment.h"), ("RACommonCameraError", "opensfm/src/bundle/reconstruction_alignment.h")],
  "Three scenes with unknown values contain every kind of constraint, fixed and free parameters and shared ones; other numbers of them are not derived. Rotations are unknown matrices with known inverses and products; ceres itself (the solver, its rotation functions and losses) is taken to do what it says. ")
P("P37", "Features lie in the image and mask they are stored with",
  "Normalized coordinates have their origin at the image centre, unit the larger side and pixel centres at half, and denormalizing undoes normalizing. "
  "Upright coordinates follow each of the eight EXIF orientations, at the size of the picture looked up. Features are extracted from the resized image with the "
  "settings for panoramas exactly when the image is one; points, sizes and colours are taken in that image. A feature is masked or labelled by the pixel it lies "
  "on in its own image's mask or segmentation; masks keep a pixel when each of them does. Points, descriptors, colours, labels and words are selected and "
  "ordered alike, and saved for their own image; nothing is skipped when features or needed words are missing. Every image is read once, reaches the detection with "
  "its own data, and all workers are told to stop, whatever the number of processes and the memory.",
  "Every image size, orientation, mask, feature type, configuration and number of workers.",
  "A stable test covers four points of one size; orientation, masks and parallel reading are not exercised.",
  ["opensfm/features.py", "opensfm/features_processing.py", "opensfm/masking.py", "opensfm/upright.py"],
  [("normalized_image_coordinates", "opensfm/features.py"), ("opensfm_to_upright", "opensfm/upright.py"), ("combine_masks", "opensfm/masking.py"), ("detect / run_features_processing", "opensfm/features_processing.py")],
  "Evaluates coordinate maps column by column to polynomials for each orientation. " + TRUST)

P("P08", "Camera models project, invert and differentiate as they are defined",
  "Every camera model projects a direction as its definition says, each named parameter in its place: perspective, fisheye, spherical or mixed projection, then the model's radial, tangential "
  "and thin prism distortion, then focal length, aspect ratio and principal point. The bearing of an image point is the direction that projects there: un-distortion solves exactly the distortion's equation, "
  "with its own derivative, and is defined at the center too. The analytic derivatives of projections, poses and their compositions by the point and by every parameter are the derivatives "
  "of what is projected, each block at the place of its parameters. A pose subtracts its position and undoes its rotation. A camera is created, read and changed by parameter name, knows the name of its model, "
  "and converts pixels and normalized coordinates into each other by its own size, the larger side being the unit.",
  "Every camera model, point, direction, parameter value, pose and image size.",
  "Stable tests do not run the compiled code at all; its own tests try one parameter set per model, none on the special branches near zero.",
  ["opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h", "opensfm/src/geometry/transformations_functions.h", "opensfm/src/geometry/functions.h", "opensfm/src/geometry/camera_instances.h", "opensfm/src/geometry/src/camera.cc", "opensfm/src/foundation/newton_raphson.h"],
  [("Forward / ForwardDerivatives / Backward", "opensfm/src/geometry/camera_distortions_functions.h"), ("ComposeForwardDerivatives", "opensfm/src/geometry/functions.h"), ("Camera::Create* / Project / Bearing", "opensfm/src/geometry/src/camera.cc"), ("NewtonRaphson", "opensfm/src/foundation/newton_raphson.h")],
  "Formulas are compared over the reals; convergence of the iterations and rounding are not bounded. " + TRUST)

P("P09", "Poses, similarities and orientation angles are the motions they were set to",
  "A pose is one rigid motion, whatever it was set by: world-to-camera or camera-to-world, matrix, rotation matrix or rotation vector with translation, origin, or a rotation or translation alone. After any setter, "
  "matrices, rotations, rotation vectors, translations and origin of both directions are those of this motion, nothing of an earlier one is left. Composition, relative pose and inverse are those of the motions and leave "
  "their operands alone; points are transformed by the motion, one or many; an immutable pose refuses every setter; identity and validity look at rotation and translation. "
  "A similarity scales, rotates, then translates, and its inverse undoes it. Rotation matrices made from omega, phi, kappa or pan, tilt, roll are the products of the axis rotations that define them, and the angles read off a matrix are those it was made of.",
  "Every rotation, translation, scale, point and angle (recovered angles within the range of their arc functions).",
  "Stable tests do not run the compiled classes; the C++ tests set a few poses once, never one that was set before, and no test converts angles both ways.",
  ["opensfm/src/geometry/pose.h", "opensfm/src/geometry/similarity.h", "opensfm/src/geometry/transformations_functions.h", "opensfm/geometry.py"],
  [("Pose::Set* / Compose / RelativeTo / Inverse", "opensfm/src/geometry/pose.h"), ("Similarity", "opensfm/src/geometry/similarity.h"), ("rotation_from_opk / opk_from_rotation / rotation_from_ptr", "opensfm/geometry.py")],
  "Matrices given to setters are taken as rotations; compared over the reals. " + TRUST)

P("P22", "Bundle adjustment minimises exactly the errors of what was added to it",
  "The problem given to the solver has one error for every observation, prior and constraint added, and no other, each with its definition: the reprojection of a point into its own shot - through the rig "
  "instance's pose, then the rig camera's, then the camera's model - minus where it was observed; depth along the axis or the ray; relative motions, rotations and common positions between the two shots named, "
  "each with its own rig camera; pan, tilt, roll, up vector, heatmap and linear motion of the shots named; priors on positions through the bias of the instance's camera, on points, rig cameras and every camera "
  "parameter that has a configured deviation, logarithmic for focal length and aspect ratio; each divided by the deviation given and passed through the loss function set. Cameras, instances, rig cameras and points "
  "added as fixed are held constant and nothing else is; scales and deviations stay positive. Analytic derivatives are those of the residuals. What is read back - cameras, biases, points, poses, scales, "
  "reprojection errors, covariances - is that of the same object where the optimisation ended, and the solver runs with the options set.",
  "Every set of cameras, rigs, points, observations and constraints, every value, analytic and automatic derivatives, every loss function.",
  "Stable tests do not run the compiled code; its own tests optimise a few tiny scenes where most errors are absent.",
  ["opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/src/bundle/bundle_adjuster.h", "opensfm/src/bundle/error/projection_errors.h", "opensfm/src/bundle/error/relative_motion_errors.h", "opensfm/src/bundle/error/absolute_motion_errors.h", "opensfm/src/bundle/error/motion_prior_errors.h", "opensfm/src/bundle/error/prior_error.h", "opensfm/src/bundle/data/pose.h", "opensfm/src/bundle/data/bias.h"],
  [("BundleAdjuster::Run", "opensfm/src/bundle/src/bundle_adjuster.cc"), ("cost functors", "opensfm/src/bundle/error"), ("Data<T> conversions", "opensfm/src/bundle/data")],
  "The solver itself (Ceres) is trusted to minimise what it is given; branches are chosen at a few samples of the unknown values. " + TRUST)

P("P33", "The map's shots, rigs, landmarks and observations keep referring to each other",
  "After any sequence of operations on a map, every shot, panoramic shot, camera, bias, rig camera, rig instance and landmark that was created and not removed is there under its own id, with the values last set, and "
  "nothing else is. An observation links its shot and its landmark in both directions, by landmark and by feature, exactly from when it is added until it, its shot or its landmark is removed; nothing leads to an "
  "element that is gone, and removing an element leaves every other as it was. Reprojection errors of a removed observation go with it. Landmarks with fewer than the asked number of observations, and only those, are cleaned. "
  "The pose of a shot is its rig camera's composed with its rig instance's; setting the pose of a shot or of an instance through a shot moves the instance accordingly. "
  "Asking for, updating or removing what is not there, creating what is, or putting two shots on one rig camera of an instance is refused and changes nothing. Updating a shot takes over measurements, scale, cluster, "
  "mesh and covariance of the other. Tracks, valid observations and reprojection errors read off the map are those of the observations that are there, with the pose and camera of their shot. A deep copy has the shots, poses, cameras, biases, rigs, landmarks, colors, attributes and origin of the original, observations if asked for, and shares nothing with it.",
  "Every sequence of operations, every pose, position, measurement and id (an observation of a landmark by a shot, and a feature of a shot, is added once).",
  "Stable tests do not run the compiled code; its own tests apply a few operations one at a time, to maps of one kind of element, and never look at what should not have changed.",
  ["opensfm/src/map/src/map.cc", "opensfm/src/map/src/shot.cc", "opensfm/src/map/src/rig.cc", "opensfm/src/map/src/landmark.cc", "opensfm/src/map/map.h", "opensfm/src/map/shot.h", "opensfm/src/map/rig.h", "opensfm/src/map/landmark.h"],
  [("Map", "opensfm/src/map/src/map.cc"), ("Shot", "opensfm/src/map/src/shot.cc"), ("RigInstance", "opensfm/src/map/src/rig.cc"), ("Landmark", "opensfm/src/map/src/landmark.cc")],
  "Every operation and every two (thorough: all pairs; quick: a seventh of them and some longer) from one map in which each kind of element occurs in each situation; longer histories are sampled. The copy leaves out rig "
  "instances without shots, rig cameras nobody uses and observations of panoramic shots. " + TRUST)

P("P04", "Tracks: both tables, queries, merges and files agree",
  "After any additions and removals, a tracks manager answers every question about images, tracks and observations from one and the same set of observations: those added and not removed, with the values given last; "
  "per image and per track alike, and unknown images and tracks are refused. A subset has exactly the observations of the images (and tracks) asked for; the observations common to two images are those of the tracks both see, "
  "each with its own image's observation in its own place; the connectivity counts, for each pair of images, the tracks both see. Merging joins tracks, across any number of managers, exactly when a chain of "
  "features of the same images links them, and keeps all their observations. What is written to a string or a file is read back (to the six digits the text has), each version's columns as that version has them, "
  "and lines with other columns, unknown versions and files that cannot be opened are refused. Reading, writing and asking change nothing.",
  "Every sequence of additions and removals, every set of images and tracks asked about, every set of managers merged, every text of every version.",
  "Stable tests use tracks managers, if at all, through Python stand-ins; the C++ tests try one small manager.",
  ["opensfm/src/map/src/tracks_manager.cc", "opensfm/src/map/tracks_manager.h", "opensfm/src/map/observation.h", "opensfm/src/foundation/union_find.h"],
  [("TracksManager", "opensfm/src/map/src/tracks_manager.cc"), ("Observation", "opensfm/src/map/observation.h"), ("UnionFindElement", "opensfm/src/foundation/union_find.h")],
  "The numbers of the observations are unknowns; images, tracks and features are a handful in all small combinations, and sampled larger ones. Removing an observation leaves its image and track listed. The depth prior "
  "has no column in the text and is left out. " + TRUST)

P("P26", "Rigs: every image in its own instance, every rig camera from its own poses",
  "An image whose name contains a rig camera's pattern belongs to that rig camera and to the instance named by what is left of its name; all others are single images, none is lost. The rig data of an image are the id of its "
  "instance, its own rig camera and the images of that instance. Rig cameras are computed from instances all of whose images were reconstructed: each image's pose relative to the mean position and rotation of its instance, "
  "averaged per rig camera over as many as there are; groups with more instances decide before smaller ones. Rig cameras and assignments are saved together, and only when all rig cameras of the patterns were found and enough of "
  "the subset's instances reconstructed; a calibration subset is a window in time that holds the instance drawn. Loading gives every camera a default rig camera at the identity that the file overrides; assignments are those of "
  "the file, numbered when they have no ids. A rig instance is added to a reconstruction once for all its images.",
  "Every set of images, patterns, rig assignments and reconstructions.",
  "The tests of rigs need the compiled modules; the one that groups names uses one pattern list.",
  ["opensfm/rig.py", "opensfm/actions/create_rig.py", "opensfm/dataset.py", "opensfm/reconstruction_helpers.py"],
  [("compute_relative_pose", "opensfm/rig.py"), ("create_instances_with_patterns", "opensfm/rig.py"), ("create_rigs_with_pattern", "opensfm/rig.py"), ("load_rig_cameras", "opensfm/dataset.py")],
  "What a pattern matches is Python's re; what a pose relative to another is, is P01's. " + TRUST)
P("P27", "Undistorting keeps pose, camera, tracks and pixels of every image together",
  "Every shot of a supported camera type becomes one undistorted shot (six views for a panorama) whose id begins with its own, with its pose and metadata and a perspective camera without distortion of the same id, size and "
  "mean focal length; the shots of exactly those types have their images, masks and segmentations undistorted, each from its own file to the file of its undistorted shot, from its camera to the undistorted one at the size the "
  "array has, masks and segmentations never mixing values. The six views of a panorama share one rig instance with its pose, look in six different directions of its axes, and show at each pixel what the panorama shows in that "
  "direction. An undistorted shot keeps the observations of its shot on their tracks; a view gets those in front of it and within its borders, where its camera sees them. Points, reference, cameras, shots, tracks and the ids of "
  "each image's undistorted shots are saved as made. Images larger than the limit are scaled down as a whole to it.",
  "Every reconstruction, camera type, image size, mask size and observation.",
  "Stable tests do not run the undistortion (it needs the compiled modules); its own test renders one panorama view.",
  ["opensfm/undistort.py"],
  [("undistort_reconstruction", "opensfm/undistort.py"), ("undistort_image", "opensfm/undistort.py"), ("perspective_views_of_a_panorama", "opensfm/undistort.py"), ("add_pano_subshot_tracks", "opensfm/undistort.py")],
  "The mapping between two cameras is P08's; what OpenCV computes is taken as documented. Which of left and right, top and bottom is which is not judged, only that the six directions differ and front and back are along the "
  "panorama's own axis. " + TRUST)

P("P28", "Depth maps are made of their own shot's views and merge into what was seen",
  "For every undistorted reconstruction, each shot with at least one neighbour has its depth map computed, then cleaned, then pruned, and the pruned ones are merged into one cloud of points, normals, colours and labels in matching order; what exists already is not made "
  "again, an error in one shot does not stop the others, and a shot without a depth map of its own never gets that of a neighbour. Neighbours are reconstructed shots with more than 20 reconstructed common points seen at 3 to 30 degrees, those with most points first, at "
  "most as many as configured; the shot itself is the first view. The depth range given to the estimator is 0.9 times the 10th and 1.1 times the 90th percentile of the depths, in the shot's frame, of its reconstructed points, unless configured. Each view has the rotation, "
  "translation and calibration of its shot, the calibration for the size of the image or depth map it comes with, and mask, planes, colours and labels of that same size; masks and labels are resized without mixing values; without a mask every pixel is used. The estimators "
  "get their configured options before they start. Raw depths at or above the largest depth, or with a score not above the least, become zero; planes, scores and neighbours are stored in their own places under the shot's name. PLY files have the columns and the number of rows "
  "their header declares; the points of a depth map's file are where the shot saw the pixels with a depth, with their colours; a cloud is read back column by column.",
  "Every reconstruction, image size, resolution, configuration, and set of depth maps that exist already.",
  "The estimators are compiled code that the tests do not have; swapped arguments, sizes that only differ for some images and neighbours without depth maps need particular scenes.",
  ["opensfm/dense.py", "opensfm/io.py"],
  [("compute_depthmaps", "opensfm/dense.py"), ("find_neighboring_images", "opensfm/dense.py"), ("compute_depth_range", "opensfm/dense.py"), ("add_views_to_depth_estimator", "opensfm/dense.py"), ("depthmap_to_ply", "opensfm/dense.py"), ("point_cloud_to_ply", "opensfm/io.py")],
  "What the compiled estimators compute (dense/src/depthmap.cc, which needs OpenCV's headers) is not judged. " + TRUST)
P("P29", "Exported scenes describe the reconstruction in the conventions of their format",
  "For every reconstruction the exporters write, for each image they export, that image's own camera and pose, for each point its own coordinates and colour and the observations of its own track in the exported images, in the conventions of the format. "
  "Bundler: focal length in pixels (focal times the larger side), k1, k2, rotation and translation with y and z reversed; images without a shot as fifteen zeros; observations as index of the image, feature, x and minus y times the larger side from the "
  "image's centre. NVM (VisualSfM): path of the undistorted image, focal length in pixels of that image, quaternion of the rotation, position; observations in pixels of the undistorted image from its corner; only points seen by two exported images. "
  "OpenMVS: calibration, size, rotation, position, image and mask of each exported perspective shot, and for each point the exported shots that observe it. PMVS: the image, its projection matrix at the size it is written in, and who sees what others see. "
  "COLMAP: camera models and their parameters in COLMAP's order, quaternion and translation, all the image points with the number of the point they observe or -1, tracks that refer to them by number; text and binary files have the same content; "
  "in the database, matches and the geometry of a pair go from the image with the smaller number to the other. Indices number the list of what is written, in every exporter, also when only some images are exported; declared counts are those of what is written.",
  "Every reconstruction, camera type, list of images to export and mode of export.",
  "The exporters need the compiled modules; no stable test runs them.",
  ["opensfm/actions/export_bundler.py", "opensfm/actions/export_visualsfm.py", "opensfm/actions/export_openmvs.py", "opensfm/actions/export_pmvs.py", "opensfm/actions/export_colmap.py"],
  [("export_bundler", "opensfm/actions/export_bundler.py"), ("export", "opensfm/actions/export_visualsfm.py"), ("export", "opensfm/actions/export_openmvs.py"), ("export", "opensfm/actions/export_pmvs.py"),
   ("export_images_reconstruction", "opensfm/actions/export_colmap.py"), ("export_matches", "opensfm/actions/export_colmap.py")],
  "How OpenMVS's archive is written (C++) is not judged, nor whether a half pixel is added to image coordinates; the distortion Bundler is given for Brown cameras is an approximation and is not judged. " + TRUST)
P("P30", "Geographic coordinates convert by WGS84 and keep their roles",
  "Latitude, longitude and altitude convert to geocentric coordinates and back by the WGS84 ellipsoid, degrees outside and radians inside; the topocentric frame "
  "at a reference has x east, y north, z up, converting back uses the same transform inverted, and a converter always uses its own reference, in Python and in C++ alike. "
  "The distance between two positions is that of their geocentric points. Wherever the system converts or stores positions, a latitude is given where a latitude "
  "is expected, a longitude where a longitude, an altitude where an altitude, and metric coordinates never stand for degrees or the reverse. A GPX track keeps each "
  "point's time and coordinates together, and an interpolated position combines the two enclosing points by time, each coordinate with itself, the bearing from the "
  "first to the second. Position tags carry degrees, minutes and seconds of their own coordinate, with the hemisphere in the reference letter.",
  "Every latitude, longitude, altitude, reference, point, track, time and conversion call in the repository.",
  "Stable tests convert a handful of points through Python only; the C++ conversions, tracks, tags and most call sites are not exercised by them.",
  ["opensfm/geo.py", "opensfm/geotag_from_gpx.py", "opensfm/src/geo/geo.cc", "annotation_gui_gcp/run_ba.py", "opensfm/stats.py"],
  [("ecef_from_lla / topocentric_from_lla / TopocentricConverter", "opensfm/geo.py"), ("geo::*", "opensfm/src/geo/geo.cc"), ("get_lat_lon_time / interpolate_lat_lon", "opensfm/geotag_from_gpx.py"), ("gcp_geopositional_error", "annotation_gui_gcp/run_ba.py")],
  "The sequential closed-form inverse (Bowring) is compared with its published formula, not proved accurate to a bound. " + TRUST)

P("P23", "Every image ends in at most one partial reconstruction, and only once resected",
  "A new partial reconstruction starts only from two images that no earlier one contains. Every image that enters one, at the start or while it "
  "grows, leaves the set from which later ones start, whatever follows. An image is added only with at least resection_min_inliers inliers, at "
  "the pose found for it; its rig companions are added with it, each with its own camera, metadata and rig place, and all added images are "
  "reported as added. What is left is reported as not reconstructed.",
  "Every sequence of image pairs, successful and failed resections, rig assignments and configurations.",
  "Losing an image twice needs several partial reconstructions; the synthetic tests have one and need the compiled extension.",
  ["opensfm/reconstruction.py"],
  [("incremental_reconstruction / grow_reconstruction", "opensfm/reconstruction.py"), ("resect", "opensfm/reconstruction.py"), ("add_shot", "opensfm/reconstruction.py")],
  "Follows the set object through both functions, aliases and loops included. " + TRUST)

P("P16", "Configuration options are declared, effective and private to the step that overrides them",
  "Every option the program needs is declared with a default, an option in config.yaml replaces exactly its own default and leaves the others, "
  "every declared option is read by the program (Python or C++) and the value read is used, and a step that overrides options for itself works on "
  "a copy, so that later steps still see the user's configuration.",
  "Every option, config.yaml and command, including options only read on rare paths.",
  "A misspelt or dropped option on a rarely taken path, or an override that leaks into a later step, only shows with that configuration.",
  ["opensfm/config.py", "opensfm/dataset.py", "opensfm", "opensfm/src"],
  [("OpenSfMConfig / load_config_from_fileobject", "opensfm/config.py"), ("config reads", "opensfm/**/*.py, opensfm/src/**/*.cc"), ("configuration copies", "opensfm/reconstruction.py")],
  "Accesses with computed keys are not judged; whether an option has the effect its comment promises is decided only in the properties of its step.")

P("P17", "Every command-line option takes effect as the option it is",
  "Each command can be called under its own name, reads only the options it declares, and hands every declared option to its action as the "
  "parameter meant for it, with the right kind of value; that parameter has an effect in the action, and the reconstruction or file named by an "
  "option is the one loaded or saved. The run-all scripts run every step after the steps whose results it needs and stop at the first failure.",
  "Every command and combination of options.",
  "No test runs the command line; exchanged or ignored options go unnoticed until somebody needs them.",
  ["opensfm/commands", "opensfm/actions", "bin/opensfm_run_all", "bin/opensfm_main.py"],
  [("Command.add_arguments_impl / run_impl", "opensfm/commands/*.py"), ("run_dataset", "opensfm/actions/*.py"), ("command_runner", "opensfm/commands/command_runner.py")],
  "Decides that an option has an effect and reaches the right place, not that the effect is the documented one.")
