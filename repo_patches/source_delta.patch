From be059efcdb4316ac692c9e3f139979ae5eb831df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 01/55] fix: keep the OPK angles and accuracy of a shot when
 saving and loading it

---
 opensfm/io.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..a41fa09 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -570,6 +570,12 @@ def pymap_metadata_to_json(metadata: pymap.ShotMeasurements) -> Dict[str, Any]:
         elif metadata.compass_accuracy.has_value:
             # pyrefly: ignore [unsupported-operation]
             obj["compass"] = {"accuracy": metadata.compass_accuracy.value}
+    if metadata.opk_angles.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        obj["opk_angles"] = list(metadata.opk_angles.value)
+    if metadata.opk_accuracy.has_value:
+        # pyrefly: ignore [unsupported-operation]
+        obj["opk_accuracy"] = metadata.opk_accuracy.value
     if metadata.sequence_key.has_value:
         # pyrefly: ignore [unsupported-operation]
         obj["skey"] = metadata.sequence_key.value
@@ -590,6 +596,10 @@ def json_to_pymap_metadata(obj: Dict[str, Any]) -> pymap.ShotMeasurements:
         metadata.sequence_key.value = obj.get("skey")
     if obj.get("gravity_down") is not None:
         metadata.gravity_down.value = obj.get("gravity_down")
+    if obj.get("opk_angles") is not None:
+        metadata.opk_angles.value = obj.get("opk_angles")
+    if obj.get("opk_accuracy") is not None:
+        metadata.opk_accuracy.value = obj.get("opk_accuracy")
     if obj.get("compass") is not None:
         compass = obj.get("compass")
         if "angle" in compass:
-- 
2.43.0


From 94eab29d7f1c8d2c0349d23e96cd27e7fdeb10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 02/55] fix: group the observations of a ground control point
 whose altitude is unknown

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index a41fa09..9cfb64d 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -904,7 +904,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # NaN is not equal to itself, so unknown altitudes need another key.
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From f5d501cda752134c23705366da763875dddd9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 03/55] fix: load the features just saved rather than those of
 a leftover legacy file

---
 opensfm/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..8ba4fa7 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -313,7 +313,8 @@ class DataSet(DataSetBase):
     def load_features(self, image: str) -> Optional[features.FeaturesData]:
         features_filepath = (
             self._feature_file_legacy(image)
-            if self.io_handler.isfile(self._feature_file_legacy(image))
+            if not self.io_handler.isfile(self._feature_file(image))
+            and self.io_handler.isfile(self._feature_file_legacy(image))
             else self._feature_file(image)
         )
         with self.io_handler.open_rb(features_filepath) as f:
-- 
2.43.0


From ec786ffb2d954831a07142726db24d8655e438ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 04/55] fix: recognise feature_type and matcher_type in any
 letter case everywhere

---
 opensfm/bow.py                 | 4 ++--
 opensfm/feature_loading.py     | 2 +-
 opensfm/features.py            | 8 ++++----
 opensfm/features_processing.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/opensfm/bow.py b/opensfm/bow.py
index 9bcaecf..1be4d51 100644
--- a/opensfm/bow.py
+++ b/opensfm/bow.py
@@ -51,7 +51,7 @@ class BagOfWords:
 
 def load_bow_words_and_frequencies(config: Dict[str, Any]) -> Tuple[NDArray, NDArray]:
     if config["bow_file"] == "bow_hahog_root_uchar_10000.npz":
-        assert config["feature_type"] == "HAHOG"
+        assert config["feature_type"].upper() == "HAHOG"
         assert config["feature_root"]
         assert config["hahog_normalize_to_uchar"]
 
@@ -62,7 +62,7 @@ def load_bow_words_and_frequencies(config: Dict[str, Any]) -> Tuple[NDArray, NDA
 
 def load_vlad_words_and_frequencies(config: Dict[str, Any]) -> Tuple[NDArray, NDArray]:
     if config["vlad_file"] == "bow_hahog_root_uchar_64.npz":
-        assert config["feature_type"] == "HAHOG"
+        assert config["feature_type"].upper() == "HAHOG"
         assert config["feature_root"]
         assert config["hahog_normalize_to_uchar"]
 
diff --git a/opensfm/feature_loading.py b/opensfm/feature_loading.py
index f672273..2012afc 100644
--- a/opensfm/feature_loading.py
+++ b/opensfm/feature_loading.py
@@ -126,7 +126,7 @@ class FeatureLoader:
     ) -> ft.FeaturesData:
         if (
             not data.config["hahog_normalize_to_uchar"]
-            or data.config["feature_type"] != "HAHOG"
+            or data.config["feature_type"].upper() != "HAHOG"
         ):
             raise RuntimeError(
                 "Semantic segmentation in descriptor only supported for HAHOG UCHAR descriptors"
diff --git a/opensfm/features.py b/opensfm/features.py
index cacfa1f..ec3c723 100644
--- a/opensfm/features.py
+++ b/opensfm/features.py
@@ -165,7 +165,7 @@ class FeaturesData:
 
         Scale (desc[2]) set to reprojection_error_sd by default (legacy behaviour)
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -182,7 +182,7 @@ class FeaturesData:
 
         Scale is not properly set higher in the pipeline, default is gone.
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -204,7 +204,7 @@ class FeaturesData:
         e5da878bea455a1e4beac938cb30b796acfe3c8c, but has been superseded by version 3 as this version
         uses 'allow_pickle=True' which isn't safe (RCE vulnerability)
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
@@ -255,7 +255,7 @@ class FeaturesData:
 
         Same as version 2, except that
         """
-        feature_type = config["feature_type"]
+        feature_type = config["feature_type"].upper()
         if feature_type == "HAHOG" and config["hahog_normalize_to_uchar"]:
             descriptors = data["descriptors"].astype(np.float32)
         else:
diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index bca17cb..53d89e3 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -267,7 +267,7 @@ def detect(
     log.setup()
 
     need_words = (
-        data.config["matcher_type"] == "WORDS"
+        data.config["matcher_type"].upper() == "WORDS"
         or data.config["matching_bow_neighbors"] > 0
     )
     has_words = not need_words or data.words_exist(image)
-- 
2.43.0


From 3bf313aaba03df33d3c4cf7f8c71d189e786d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 05/55] fix: store the clusters of submodels without pickled
 objects

---
 opensfm/large/metadataset.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opensfm/large/metadataset.py b/opensfm/large/metadataset.py
index 81da9f6..17851b8 100644
--- a/opensfm/large/metadataset.py
+++ b/opensfm/large/metadataset.py
@@ -146,13 +146,17 @@ class MetaDataSet:
         labels = c["labels"].ravel()
         return images, c["positions"], labels, c["centers"]
 
-    def save_clusters_with_neighbors(self, clusters: List[List[int]]) -> None:
+    def save_clusters_with_neighbors(self, clusters: List[List[str]]) -> None:
         filepath = self._clusters_with_neighbors_path()
-        np.savez_compressed(filepath, clusters=np.array(clusters, dtype=object))
+        np.savez_compressed(
+            filepath,
+            members=np.array([m for c in clusters for m in c], dtype=str),
+            sizes=np.array([len(c) for c in clusters], dtype=int),
+        )
 
-    def load_clusters_with_neighbors(self) -> NDArray:
-        c = np.load(self._clusters_with_neighbors_path(), allow_pickle=True)
-        return c["clusters"]
+    def load_clusters_with_neighbors(self) -> List[NDArray]:
+        c = np.load(self._clusters_with_neighbors_path())
+        return np.split(c["members"], np.cumsum(c["sizes"]))[:-1]
 
     def save_cluster_with_neighbors_geojson(self, geojson: Dict[str, Any]) -> None:
         filepath = self._clusters_with_neighbors_geojson_path()
@@ -174,7 +178,7 @@ class MetaDataSet:
         for path in paths:
             shutil.rmtree(path)
 
-    def create_submodels(self, clusters: NDArray) -> None:
+    def create_submodels(self, clusters: List[NDArray]) -> None:
         data = DataSet(self.data_path)
         for i, cluster in enumerate(clusters):
             # create sub model dirs
-- 
2.43.0


From 9a1ad2afb593cd93fde75cddac6c4836d8dbc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 06/55] fix: serve only files of the dataset from the viewer
 and the annotation tool

---
 annotation_gui_gcp/lib/image_manager.py |  7 +++++--
 viewer/server.py                        | 15 +++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/annotation_gui_gcp/lib/image_manager.py b/annotation_gui_gcp/lib/image_manager.py
index a4271cb..94b69d0 100644
--- a/annotation_gui_gcp/lib/image_manager.py
+++ b/annotation_gui_gcp/lib/image_manager.py
@@ -1,10 +1,11 @@
 # pyre-strict
 from io import BytesIO
 
-from flask import Response, send_file
+from flask import abort, Response, send_file
 from magic import Magic
 from opensfm import dataset
 from PIL import Image
+from werkzeug.utils import safe_join
 
 
 class ImageManager:
@@ -13,7 +14,9 @@ class ImageManager:
         self.path = path
 
     def get_image(self, image_name: str, max_sz: int = 0) -> Response:
-        path_image = f"{self.path}/images/{image_name}"
+        path_image = safe_join(f"{self.path}/images", image_name)
+        if path_image is None:
+            abort(404)
 
         # Downsample before sending if max_sz
         if max_sz > 0:
diff --git a/viewer/server.py b/viewer/server.py
index c863bec..135e7bf 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -4,6 +4,7 @@ import os
 from typing import List
 
 from flask import abort, Flask, jsonify, Response, send_file
+from werkzeug.utils import safe_join
 
 
 app = Flask(__name__, static_folder="./", static_url_path="")
@@ -43,16 +44,12 @@ def get_recs() -> Response:
 
 @app.route("/data/<path:subpath>")
 def get_data(subpath) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, subpath)
-    return verified_send(path)
+    return verified_send(datapath, subpath)
 
 
 @app.route("/image/<shot_id>")
 def get_image(shot_id) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, IMAGES, shot_id)
-    return verified_send(path)
+    return verified_send(datapath, IMAGES, shot_id)
 
 
 def json_files(path) -> List[str]:
@@ -81,8 +78,10 @@ def reconstruction_files(path) -> List[str]:
     return sorted(filter(probably_reconstruction, files))
 
 
-def verified_send(file) -> Response:
-    if os.path.isfile(file):
+def verified_send(directory, *parts) -> Response:
+    """Send a file if it exists below a directory."""
+    file = safe_join(directory, *parts) if directory is not None else None
+    if file is not None and os.path.isfile(file):
         return send_file(file)
     else:
         abort(404)
-- 
2.43.0


From efc0375964e6cce7dc2c1f516f173b0b8c6c8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 07/55] fix: store the matches of a pair in the order of the
 images they are saved under

---
 opensfm/matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..41cd322 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,7 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            matches_per_im1[im2][im1] = np.array([(b, a) for a, b in m], dtype=int)
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From 991b772f6c73002ae1970369bc9fcb234e26fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 08/55] fix: let robust triangulation try every pair of views
 and count its iterations

---
 opensfm/reconstruction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..bffdad8 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -952,8 +952,8 @@ class TrackTriangulator:
 
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
-        for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+        for iteration in range(ransac_tries):
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
@@ -1020,7 +1020,7 @@ class TrackTriangulator:
                     optimal_iter = math.log(1.0 - pout) / math.log(
                         1.0 - inliers_ratio * inliers_ratio
                     )
-                    if optimal_iter <= i:
+                    if optimal_iter <= iteration:
                         break
 
         if len(best_inliers) > 1:
-- 
2.43.0


From fdd2ad56bbed960af3548d27bbf626d3bfedb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 09/55] fix: refine points triangulated by DLT with bearings in
 the world frame

---
 opensfm/reconstruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index bffdad8..53ec7f8 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1081,7 +1081,7 @@ class TrackTriangulator:
         iterations: int,
     ) -> None:
         """Triangulate track using DLT and add point to reconstruction."""
-        Rts, bs, os, ids = [], [], [], []
+        Rts, bs, os, world_bs, ids = [], [], [], [], []
         for shot_id, obs in self.tracks_handler.get_observations(track).items():
             shot = self.reconstruction.shots[shot_id]
             os.append(self._shot_origin(shot))
@@ -1089,6 +1089,7 @@ class TrackTriangulator:
             # pyrefly: ignore [bad-argument-type]
             b = shot.camera.pixel_bearing(np.array(obs.point))
             bs.append(b)
+            world_bs.append(self._shot_rotation_inverse(shot).dot(b))
             ids.append(shot_id)
 
         if len(Rts) >= 2:
@@ -1106,7 +1107,7 @@ class TrackTriangulator:
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     np.array(os),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                    np.array(bs),
+                    np.array(world_bs),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     X,
                     iterations,
-- 
2.43.0


From 27a4f01f815dd046459aa65f46011cf6ec7de5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 10/55] fix: export_colmap does not change the configuration of
 the dataset

---
 opensfm/actions/export_colmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..0daa092 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -473,14 +473,15 @@ def export_matches(
                     # pyrefly: ignore [missing-attribute]
                     pair_matches.update({(match[1], match[0]): True})
 
-    data.config["robust_matching_threshold"] = 8
+    config = data.config.copy()
+    config["robust_matching_threshold"] = 8
     for pair, matches in matches_per_pair.items():
         # pyrefly: ignore [not-iterable]
         matches_numpy = np.array([np.array([m[0], m[1]]) for m in matches])
         if len(matches_numpy) < 10:
             continue
         F, inliers = matching.robust_match_fundamental(
-            features_map[pair[0]], features_map[pair[1]], matches_numpy, data.config
+            features_map[pair[0]], features_map[pair[1]], matches_numpy, config
         )
         if len(inliers) > 10:
             db.add_two_view_geometry(
-- 
2.43.0


From 7464b4d02e9e8c38678a6bfd127be19c2949111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 11/55] fix: export_pmvs exports only the shots of the given
 image list

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..af07535 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    images = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(images)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From c24f369498adf39f2ff90fbb06e9a68b464322dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 12/55] fix: export_geocoords gives each of several exports its
 own default file

---
 opensfm/actions/export_geocoords.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..a949e65 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -44,26 +44,26 @@ def run_dataset(
     t = _get_transformation(reference, projection)
 
     if transformation:
-        output = output or "geocoords_transformation.txt"
-        output_path = os.path.join(data.data_path, output)
+        filename = output or "geocoords_transformation.txt"
+        output_path = os.path.join(data.data_path, filename)
         _write_transformation(t, output_path)
 
     if image_positions:
         reconstructions = data.load_reconstruction()
-        output = output or "image_geocoords.tsv"
-        output_path = os.path.join(data.data_path, output)
+        filename = output or "image_geocoords.tsv"
+        output_path = os.path.join(data.data_path, filename)
         _transform_image_positions(reconstructions, t, output_path)
 
     if reconstruction:
         reconstructions = data.load_reconstruction()
         for r in reconstructions:
             _transform_reconstruction(r, t)
-        output = output or "reconstruction.geocoords.json"
-        data.save_reconstruction(reconstructions, output)
+        filename = output or "reconstruction.geocoords.json"
+        data.save_reconstruction(reconstructions, filename)
 
     if dense:
-        output = output or "undistorted/depthmaps/merged.geocoords.ply"
-        output_path = os.path.join(data.data_path, output)
+        filename = output or "undistorted/depthmaps/merged.geocoords.ply"
+        output_path = os.path.join(data.data_path, filename)
         udata = data.undistorted_dataset()
         _transform_dense_point_cloud(udata, t, output_path)
 
-- 
2.43.0


From 20a0e5aa0df2cdb2550196df9aebf82e7d2468d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 13/55] fix: export_geocoords transforms dense point clouds
 again

---
 opensfm/actions/export_geocoords.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index a949e65..37d7761 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -145,17 +145,15 @@ def _transform_dense_point_cloud(
     input_path = udata.point_cloud_file()
     with io.open_rt(input_path) as fin:
         with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
+            header = True
+            for line in fin:
+                if header:
                     fout.write(line)
+                    header = line.strip() != "end_header"
                 else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
+                    x, y, z, nx, ny, nz, *rest = line.split()
+                    x, y, z = np.dot(A, [float(x), float(y), float(z)]) + b
+                    nx, ny, nz = np.dot(A, [float(nx), float(ny), float(nz)])
                     fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
-                        )
+                        " ".join(map(str, [x, y, z, nx, ny, nz] + rest)) + "\n"
                     )
-- 
2.43.0


From bc37a1ded8c814567ba3e400c0ced6b400197a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 14/55] fix: distance based pairs search among the candidates
 only

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0


From 06a093b55d58887d45e934edc63029357f2f752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 15/55] fix: representative points of oriented images do not
 require GPS on every image

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 33dfc1c..ce4a6f7 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -144,7 +144,7 @@ def get_representative_points(
         altitude = find_best_altitude(origin, directions)
         logger.info(f"Altitude for orientation based matching {altitude}")
         directions_scaled = {k: v / DEFAULT_Z * altitude for k, v in directions.items()}
-        points = {k: origin[k] + directions_scaled[k] for k in images}
+        points = {k: origin[k] + directions_scaled[k] for k in origin}
     else:
         points = origin
 
-- 
2.43.0


From 690ac9c8664e43e76d8d557313aa078992fe2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 16/55] fix: export_geocoords transforms the images of
 multi-camera rigs too

---
 opensfm/actions/export_geocoords.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 37d7761..64a909e 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -128,10 +128,11 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+    for rig_instance in reconstruction.rig_instances.values():
+        R = rig_instance.pose.get_rotation_matrix()
+        origin = rig_instance.pose.get_origin()
+        rig_instance.pose.set_rotation_matrix(np.dot(R, A1))
+        rig_instance.pose.set_origin(np.dot(A, origin) + b)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From f4960974a241f1b134ac6d46c7ec582665c70e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 17/55] fix: subtract the minutes of positive time zone offsets
 too

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..93b36fb 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -455,7 +455,8 @@ class EXIF:
                     offset_time = self.tags[offset_tag].values
                     try:
                         d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                            hours=-int(offset_time[0:3]),
+                            minutes=-int(offset_time[0] + offset_time[4:6]),
                         )
                     except (TypeError, ValueError):
                         logger.debug(
-- 
2.43.0


From 82364fc16090168547b10b065c5ab12ee5bece5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 18/55] fix: do not store a camera's projection type in the
 shared calibrations

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 93b36fb..5051af8 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -738,7 +738,8 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        # The calibration may be shared with other cameras: leave it unchanged
+        calib = {**calib, "projection_type": pt}
     return calib
 
 
-- 
2.43.0


From fee5e0ee4bf71bcaaf792a898f694bcec727d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 19/55] fix: ignore a GPS latitude without longitude instead of
 failing

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 5051af8..4bb480b 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -348,7 +348,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From a7bf7596704f8ee2bd88acf573f5e94a72322358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 20/55] fix: give dual cameras without calibration the default
 transition instead of failing

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 4bb480b..9ab9c27 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -848,7 +848,7 @@ def camera_from_exif_metadata(
         )
     elif calib_pt == "dual":
         camera = pygeometry.Camera.create_dual(
-            calib["transition"], calib["focal"], calib["k1"], calib["k2"]
+            calib.get("transition", 0.5), calib["focal"], calib["k1"], calib["k2"]
         )
     elif pygeometry.Camera.is_panorama(calib_pt):
         camera = pygeometry.Camera.create_spherical()
-- 
2.43.0


From a9fe9db674b92a9b189f1972b4d1c4b6831aaa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 21/55] fix: combine masks by which pixels are zero, not by the
 bits of their values

---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..aab143d 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return ((mask1 != 0) & (mask2 != 0)).astype(mask1.dtype)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From 5c3e3082972e58e7979f2edaabf5a410c47ebb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 22/55] fix: masks of images with mirrored orientation tags

---
 opensfm/upright.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/upright.py b/opensfm/upright.py
index 9fbc551..fcd4fc7 100644
--- a/opensfm/upright.py
+++ b/opensfm/upright.py
@@ -36,8 +36,12 @@ def opensfm_to_upright(
 
     R = {
         1: np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
+        2: np.array([[-1, 0, 1], [0, 1, 0], [0, 0, 1]]),
         3: np.array([[-1, 0, 1], [0, -1, 1], [0, 0, 1]]),
+        4: np.array([[1, 0, 0], [0, -1, 1], [0, 0, 1]]),
+        5: np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]),
         6: np.array([[0, -1, 1], [1, 0, 0], [0, 0, 1]]),
+        7: np.array([[0, -1, 1], [-1, 0, 1], [0, 0, 1]]),
         8: np.array([[0, 1, 0], [-1, 0, 1], [0, 0, 1]]),
     }
 
@@ -51,8 +55,8 @@ def opensfm_to_upright(
 
     p = np.dot(coords, T[:2, :2].T) + T[:2, 2].reshape(1, 2)
 
-    upright_width = width if orientation < 6 else height
-    upright_height = height if orientation < 6 else width
+    upright_width = width if orientation < 5 else height
+    upright_height = height if orientation < 5 else width
     if new_width is not None:
         upright_width = new_width
     if new_height is not None:
-- 
2.43.0


From 409d6036cc1151c6096b9a67157103f8f9ed405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 23/55] fix: feature extraction with a single process and
 little memory waited forever

---
 opensfm/features_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/features_processing.py b/opensfm/features_processing.py
index 53d89e3..0824e02 100644
--- a/opensfm/features_processing.py
+++ b/opensfm/features_processing.py
@@ -76,7 +76,8 @@ def run_features_processing(data: DataSetBase, images: List[str], force: bool) -
         f"Expecting to queue at most {expected_images} images while parallel processing of {processes} images."
     )
 
-    process_queue: ProcessQueue = queue.Queue(expected_images)
+    # room for an image and the end marker: a single process reads before it detects
+    process_queue: ProcessQueue = queue.Queue(max(2, expected_images))
     arguments: List[Tuple[str, Union[ProducerArgs, ConsumerArgs]]] = []
 
     if processes == 1:
-- 
2.43.0


From ed7040e55df335b9510004df2cf3ec9907f909dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 24/55] fix: convert GCP latitude/longitude to topocentric when
 comparing with triangulated points

---
 annotation_gui_gcp/run_ba.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..f3db0cf 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -94,7 +94,11 @@ def gcp_geopositional_error(
     coords_reconstruction = triangulate_gcps(gcps, reconstruction)
     out = {}
     for ix, gcp in enumerate(gcps):
-        expected = reconstruction.reference.to_lla(*gcp.lla_vec) if gcp.lla else None
+        expected = (
+            np.array(reconstruction.reference.to_topocentric(*gcp.lla_vec))
+            if gcp.lla
+            else None
+        )
         triangulated = (
             coords_reconstruction[ix] if coords_reconstruction[ix] is not None else None
         )
-- 
2.43.0


From 90213ec490b686ca7db62c2102658dafaae0a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 25/55] fix: rotation derivatives of a pose near zero rotation
 had the wrong sign

---
 opensfm/src/geometry/transformations_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/transformations_functions.h b/opensfm/src/geometry/transformations_functions.h
index efb8153..6073a45 100644
--- a/opensfm/src/geometry/transformations_functions.h
+++ b/opensfm/src/geometry/transformations_functions.h
@@ -219,7 +219,8 @@ struct PoseFunctor : Functor<3, 6, 3> {
 
     // Use Taylor approximation near zero angle : R = I + [angle_axis]x
     if (theta2 < T(std::numeric_limits<double>::epsilon())) {
-      Eigen::Map<Mat3<T>> mapped_rotation(rotation);
+      Eigen::Map<Eigen::Matrix<T, 3, 3, Eigen::RowMajor>> mapped_rotation(
+          rotation);
       const Eigen::Map<const Vec3<T>> mapped_angle_axis(angle_axis);
       foundation::SkewMatrixT(mapped_angle_axis, &mapped_rotation);
       for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From a77d9ca1658bb0b836c0ca960eb905519746129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 26/55] fix: undistortion with k1 and k2 iterated with a wrong
 derivative and stopped short of the solution

---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From 6b0f26feb94da307d1eec7caa2f24413def3199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 27/55] fix: undistortion with thin prism terms iterated with a
 transposed jacobian

---
 opensfm/src/geometry/camera_distortions_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 253f09d..07d8181 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -687,7 +687,7 @@ struct Disto624 : Functor<2, 12, 2> {
     }
 
     Mat2<T> derivative(const Vec2<T>& point) const {
-      Mat2<T> jacobian;
+      Eigen::Matrix<T, 2, 2, Eigen::RowMajor> jacobian;
       std::array<double, 2> dummy{};
       std::array<double, 12> ks{k1, k2, k3, k4, k5, k6, p1, p2, s0, s1, s2, s3};
       Disto624::ForwardDerivatives<T, false>(point.data(), ks.data(),
-- 
2.43.0


From 6072ec6efd7033a08fc60a8f3c33e406d818a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 28/55] fix: bearing of the center of a dual camera was not a
 number

The scale tan(theta) / (t tan(theta) + (1 - t) theta) is 0 / 0 at the
center of the image, where it tends to 1.
---
 opensfm/src/geometry/camera_projections_functions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..b010cd3 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,12 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    // As theta -> 0, so does the denominator, and s goes to 1
+    T s{1.0};
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From f53d5c40cdd607fcc2c084dcef1101c65a74d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 29/55] fix: linear motion prior takes the third shot's own rig
 camera when it is the second's

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..4e8e2f8 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1075,7 +1075,9 @@ void BundleAdjuster::Run() {
         parameter_blocks.push_back(shot2_rig_camera);
       } else {
         linear_motion->shot2_rig_camera_index =
-            linear_motion->shot0_rig_camera_index;
+            shot2_rig_camera == shot0_rig_camera
+                ? linear_motion->shot0_rig_camera_index
+                : linear_motion->shot1_rig_camera_index;
       }
     }
     problem.AddResidualBlock(cost_function, linear_motion_prior_loss_,
-- 
2.43.0


From d28f8e2ec4f2e1070a1fd82ea3724cae502e1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 30/55] fix: the prior on the fourth radial distortion
 parameter uses its own deviation

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 4e8e2f8..019f036 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From 17210cc8eaec324ef55018a257bd192d7aec51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 31/55] fix: ask for the covariance of a rig instance once
 however many shots it has

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 019f036..1a3db08 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1136,11 +1136,10 @@ void BundleAdjuster::ComputeCovariances(ceres::Problem* problem) {
     ceres::Covariance covariance(options);
 
     std::vector<std::pair<const double*, const double*>> covariance_blocks;
-    covariance_blocks.reserve(shots_.size());
-    for (auto& [_, shot] : shots_) {
-      covariance_blocks.emplace_back(
-          shot.GetRigInstance()->GetValueData().data(),
-          shot.GetRigInstance()->GetValueData().data());
+    covariance_blocks.reserve(rig_instances_.size());
+    for (auto& [_, rig_instance] : rig_instances_) {
+      covariance_blocks.emplace_back(rig_instance.GetValueData().data(),
+                                     rig_instance.GetValueData().data());
     }
 
     bool worked = covariance.Compute(covariance_blocks, problem);
-- 
2.43.0


From 5928e158e7067741f835013daa16106a8fc8b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 32/55] fix: setting a pose's rotation keeps both directions of
 the pose consistent

---
 opensfm/src/geometry/pose.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..9b0938c 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -84,9 +84,7 @@ class Pose {
 
   virtual void SetWorldToCamRotation(const Vec3d& r_cw) {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
-    world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
-    UpdateMinRotations();
+    SetWorldToCamRotationMatrix(R_cw);
   }
 
   virtual void SetWorldToCamTranslation(const Vec3d& t_cw) {
@@ -96,7 +94,7 @@ class Pose {
 
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From b295355be42f4f798ee5bd76a547a3ad987cd010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 33/55] fix: keep the colors of the landmarks in a deep copy of
 a map

---
 opensfm/src/map/src/map.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..07639f9 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -44,7 +44,9 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
   }
 
   if (copy_observations) {
-- 
2.43.0


From 05b231d9203c26a5c3420133058acd5e4374cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:37 +0000
Subject: [PATCH 34/55] fix: copy the mesh of a shot along with its other
 attributes

---
 opensfm/src/map/src/map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 07639f9..f1e3644 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -13,6 +13,7 @@ namespace {
 void AssignShot(map::Shot& to, const map::Shot& from) {
   to.merge_cc = from.merge_cc;
   to.scale = from.scale;
+  to.mesh = from.mesh;
   to.SetShotMeasurements(from.GetShotMeasurements());
   to.SetCovariance(from.GetCovariance());
 }
-- 
2.43.0


From d270abe308ba3942677261e5f757b19fc4f274fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 35/55] fix: rig calibration subsets may hold the last instance

---
 opensfm/rig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..30c09f4 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -195,7 +195,7 @@ def propose_subset_dataset_from_instances(
             random_index = random.randint(0, len(instances_sorted) - 1)
             instances_calibrate = instances_sorted[
                 max([0, random_index - int(subset_size / 2)]) : min(
-                    [random_index + int(subset_size / 2), len(instances_sorted) - 1]
+                    [random_index + int(subset_size / 2), len(instances_sorted)]
                 )
             ]
 
-- 
2.43.0


From 6af0b7829324c9f481e336f95f960d2c0e4bdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 36/55] fix: adding a rig instance again for each of its images
 dropped the shots it had

---
 opensfm/actions/create_rig.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opensfm/actions/create_rig.py b/opensfm/actions/create_rig.py
index 98e6352..4fd9941 100644
--- a/opensfm/actions/create_rig.py
+++ b/opensfm/actions/create_rig.py
@@ -43,15 +43,14 @@ def _reconstruction_from_rigs_and_assignments(
     reconstruction = types.Reconstruction()
     reconstruction.cameras = data.load_camera_models()
     for rig_instance_id, instance in assignments.items():
+        instance_obj = reconstruction.add_rig_instance(
+            pymap.RigInstance(rig_instance_id)
+        )
         for image, rig_camera_id in instance:
             rig_camera = rig_cameras[rig_camera_id]
             reconstruction.add_rig_camera(
                 pymap.RigCamera(rig_camera.pose, rig_camera_id)
             )
-
-            instance_obj = reconstruction.add_rig_instance(
-                pymap.RigInstance(rig_instance_id)
-            )
             instance_obj.pose.set_origin(
                 # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                 helpers.get_image_metadata(data, image).gps_position.value
-- 
2.43.0


From 68cddd9bf96ccbf64c5139768a4e19901cef8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 37/55] fix: images of one rig instance lost each other in the
 reconstruction from metadata

---
 opensfm/reconstruction_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index 688adcf..90cc920 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -101,7 +101,8 @@ def reconstruction_from_metadata(
             rig_camera_id = camera_id
 
         reconstruction.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), rig_camera_id))
-        reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+        if rig_instance_id not in reconstruction.rig_instances:
+            reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
             shot_id=image,
             camera_id=camera_id,
-- 
2.43.0


From 6b3bcddc30b52df887fbdd021aaca02c90b03d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 38/55] fix: OpenMVS export named the first image as seeing
 what images not exported see

---
 opensfm/actions/export_openmvs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..a4e9323 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -45,6 +45,7 @@ def export(
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
             exporter.add_camera(str(camera.id), K, w, h)
 
+    exported = set()
     for shot in reconstruction.shots.values():
         if export_only is not None and shot.id not in export_only:
             continue
@@ -63,15 +64,12 @@ def export(
                 shot.pose.get_rotation_matrix(),
                 shot.pose.get_origin(),
             )
+            exported.add(shot.id)
 
     for point in reconstruction.points.values():
         observations = tracks_manager.get_track_observations(point.id)
 
-        if export_only is not None:
-            shots = [k for k in observations if k in export_only]
-        else:
-            shots = list(observations)
-
+        shots = [k for k in observations if k in exported]
         if shots:
             coordinates = np.array(point.coordinates, dtype=np.float64)
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-- 
2.43.0


From b86a8dd13302eaba5846050225645bfbabd80368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 39/55] fix: OpenMVS export gave the working directory as the
 mask of images without one

---
 opensfm/actions/export_openmvs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index a4e9323..b1f50f8 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -54,11 +54,11 @@ def export(
             image_path = udata._undistorted_image_file(shot.id)
             mask_path = udata._undistorted_mask_file(shot.id)
             if not os.path.isfile(mask_path):
-                mask_path = ""
+                mask_path = None
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(os.path.abspath(mask_path)) if mask_path else "",
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From ca9f97a51bb37ac5eb489ff3618ee48b7f3f88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 40/55] fix: bundler export failed on shots outside the list of
 images

---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..c44296a 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -105,7 +105,7 @@ def export_bundler(
             lines.append(" ".join(map(str, color)))
             view_line = []
             for shot_key, obs in view_list.items():
-                if shot_key in shots.keys():
+                if shot_key in shots.keys() and shot_key in shots_order:
                     v = obs.point
                     shot_index = shots_order[shot_key]
                     camera = shots[shot_key].camera
-- 
2.43.0


From 7e7d482e2609471840406d1f6803928ec77f16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 41/55] fix: bundler export of brown cameras read an attribute
 they do not have

---
 opensfm/actions/export_bundler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c44296a..2d0854b 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -75,8 +75,7 @@ def export_bundler(
                 camera = shot.camera
                 if shot.camera.projection_type == "brown":
                     # Will approximate Brown model, not optimal
-                    # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
+                    focal_normalized = camera.focal * (1 + camera.aspect_ratio) / 2.0
                 else:
                     focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
-- 
2.43.0


From 0bcfe24a60aa4ef7d0978d7c6fa2606893e4d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 42/55] fix: visualsfm export of brown cameras read attributes
 they do not have

---
 opensfm/actions/export_visualsfm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..83daf5f 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -56,7 +56,9 @@ def export(
         i += 1
         if shot.camera.projection_type == "brown":
             # Will approximate Brown model, not optimal
-            focal_normalized = (shot.camera.focal_x + shot.camera.focal_y) / 2.0
+            focal_normalized = (
+                shot.camera.focal * (1 + shot.camera.aspect_ratio) / 2.0
+            )
         else:
             focal_normalized = shot.camera.focal
 
-- 
2.43.0


From 1c0f9888b7b9c37d286a51e51549712a8728ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 43/55] fix: visualsfm export scaled observations by the
 smaller side of the image too

---
 opensfm/actions/export_visualsfm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 83daf5f..4ccf034 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -101,8 +101,10 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    height, width = shot_size_cache[shot_key]
+                    size = max(height, width)
+                    x = 0.5 * width + v[0] * size
+                    y = 0.5 * height + v[1] * size
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From c0f308c53bfdfe4b7c6557d90631dc7f2734e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 44/55] fix: pmvs export wrote undistorted images with red and
 blue exchanged

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index af07535..75d9e56 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -126,7 +126,7 @@ def export(
         # radially undistort the original image
         camera = shot.camera
         if undistorted:
-            undistorted_image = udata.load_undistorted_image(image)
+            undistorted_image = udata.load_undistorted_image(image)[:, :, ::-1]
         else:
             original_image = data.load_image(image)[:, :, ::-1]
             original_h, original_w = original_image.shape[:2]
-- 
2.43.0


From 36d8bec63c608f46209f9c5c0cd4b937a9a8c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:48 +0000
Subject: [PATCH 45/55] fix: COLMAP export of fisheye_opencv cameras mixed
 pixels and normalized coordinates

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 0daa092..0c95d4b 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From 82e3410c752d88ee8f6f65a916ec810e034679f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 46/55] fix: COLMAP tracks referred to other image points than
 those observed

---
 opensfm/actions/export_colmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 0c95d4b..2c01588 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -589,10 +589,10 @@ def export_images_reconstruction(
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
+                # tracks refer to the image points by their index, so write all
+                x, y = features_map[shot_id][feature_id]
+                format_line += "%f %f %d "
+                points_tuple += [x, y, colmap_point_id]
             format_line += "\n"
 
             if binary:
@@ -600,7 +600,7 @@ def export_images_reconstruction(
                 for i in range(0, len(points_tuple), 3):
                     x, y, colmap_point_id = points_tuple[i : i + 3]
                     fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
+                    fout_bin.write(pack("<q", colmap_point_id))
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + points_tuple))
-- 
2.43.0


From 153237ffdf3b5869493b01ad51ea272008aea09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 47/55] fix: COLMAP export of shots without rotation wrote NaN

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 2c01588..afc488c 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -668,6 +668,8 @@ def export_points_reconstruction(
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
     angle = np.linalg.norm(angle_axis)
+    if angle == 0:
+        return [1.0, 0.0, 0.0, 0.0]
 
     x = angle_axis[0] / angle
     y = angle_axis[1] / angle
-- 
2.43.0


From 9046a8c7d82d7abe0fe2131380d94dd1ebd80653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 48/55] fix: binary COLMAP export failed on image names beyond
 ASCII

---
 opensfm/actions/export_colmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index afc488c..0014d7b 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -559,8 +559,7 @@ def export_images_reconstruction(
                 fout_bin.write(pack("<I", colmap_shot_id))
                 fout_bin.write(pack("<7d", *(list(q) + list(t))))
                 fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
+                fout_bin.write(shot_id.encode("utf-8"))
                 fout_bin.write(pack("<c", b"\x00"))
             format_line = "%d %f %f %f %f %f %f %f %d %s\n"
             format_tuple = [
-- 
2.43.0


From 2a0f15a0b298a878846434ac6862c46123ebf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 49/55] fix: COLMAP two-view geometries kept their direction
 when the pair was exchanged

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 0014d7b..e5d64bd 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -347,6 +347,8 @@ class COLMAPDatabase(sqlite3.Connection):
         F = np.asarray(F, dtype=np.float64)
         E = np.asarray(E, dtype=np.float64)
         H = np.asarray(H, dtype=np.float64)
+        if image_id1 > image_id2:
+            F, E, H = F.T, E.T, np.linalg.inv(H)
         self.execute(
             "INSERT INTO two_view_geometries VALUES (?, ?, ?, ?, ?, ?, ?, ?)",
             (pair_id,)
-- 
2.43.0


From a0b6160f04e8e8e71dc996384ecd684614ee7310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:49 +0000
Subject: [PATCH 50/55] fix: COLMAP export did not say which camera type it
 cannot convert

---
 opensfm/actions/export_colmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index e5d64bd..e6bd027 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -403,7 +403,7 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         k4 = camera.k4
         return f, fy, cx, cy, k1, k2, k3, k4
     else:
-        raise ValueError("Can't convert {camera.projection_type} to COLMAP")
+        raise ValueError(f"Can't convert {camera.projection_type} to COLMAP")
 
 
 def export_cameras(
-- 
2.43.0


From 923b24a38d8d19130448bbeda1b4540eba3ee92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 51/55] fix: images of one reconstruction referred to points of
 another in the COLMAP export

---
 opensfm/actions/export_colmap.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index e6bd027..4ca8962 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -534,7 +534,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_map: Dict[Tuple[int, str], int],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -549,7 +549,7 @@ def export_images_reconstruction(
     else:
         fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
 
-    for reconstruction in reconstructions:
+    for index, reconstruction in enumerate(reconstructions):
         for shot_id, shot in reconstruction.shots.items():
             colmap_camera_id = camera_map[shot.camera.id]
             colmap_shot_id = images_map[shot_id]
@@ -587,8 +587,8 @@ def export_images_reconstruction(
                 colmap_point_id = -1
                 if feature_id in point_per_feat:
                     point_id = point_per_feat[feature_id]
-                    if point_id in points_map:
-                        colmap_point_id = points_map[point_id]
+                    if (index, point_id) in points_map:
+                        colmap_point_id = points_map[(index, point_id)]
 
                 # tracks refer to the image points by their index, so write all
                 x, y = features_map[shot_id][feature_id]
@@ -609,7 +609,7 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> Dict[Tuple[int, str], int]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
@@ -625,7 +625,7 @@ def export_points_reconstruction(
         fout_txt = data.io_handler.open_wt(os.path.join(path, "points3D.txt"))
 
     i = 0
-    for reconstruction in reconstructions:
+    for index, reconstruction in enumerate(reconstructions):
         for point in reconstruction.points.values():
             c = point.coordinates
             cl = point.color
@@ -662,7 +662,7 @@ def export_points_reconstruction(
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + track_tuple))
-            points_map[point.id] = i
+            points_map[(index, point.id)] = i
             i += 1
     return points_map
 
-- 
2.43.0


From dd7177246455da6e5b8f2ebde98133d4d1cfb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:13 +0000
Subject: [PATCH 52/55] fix: pruning a shot without clean depth map stored the
 points of a neighbour under its name

---
 opensfm/dense.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..01f779e 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -226,6 +226,9 @@ def prune_depthmap(
     if data.pruned_depthmap_exists(shot.id):
         logger.info("Using precomputed pruned depthmap {}".format(shot.id))
         return
+    if not data.clean_depthmap_exists(shot.id):
+        logger.warning("No clean depthmap for image {}".format(shot.id))
+        return
     logger.info("Pruning depthmap for image {}".format(shot.id))
 
     dp = pydense.DepthmapPruner()
-- 
2.43.0


From 02d2a71b921ed919a3a0b41c05cd765f966c7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:13 +0000
Subject: [PATCH 53/55] fix: PLY points lacked the number of views the header
 announces without tracks

---
 opensfm/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 9cfb64d..44c9ff4 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1162,9 +1162,9 @@ def reconstruction_to_ply(
                 p[0], p[1], p[2], int(c[0]), int(c[1]), int(c[2])
             )
 
-            if point_num_views and tracks_manager:
+            if point_num_views:
                 obs_count = point.number_of_observations()
-                if obs_count == 0:
+                if obs_count == 0 and tracks_manager:
                     obs_count = len(tracks_manager.get_track_observations(point.id))
                 s += " {}".format(obs_count)
 
-- 
2.43.0


From c403d2299d28b30b82cce6bfbd388e5edac97233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:44 +0000
Subject: [PATCH 54/55] fix: split datasets with an image group that has no
 image with a position

---
 opensfm/actions/create_submodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 001cc5f..d02e20a 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -114,7 +114,7 @@ def _add_cluster_neighbors(meta_data: MetaDataSet, max_distance: float) -> None:
 
     image_clusters = []
     for cluster in clusters:
-        image_clusters.append(list(np.take(images, np.array(cluster))))
+        image_clusters.append(list(np.take(images, np.array(cluster, dtype=int))))
 
     meta_data.save_clusters_with_neighbors(image_clusters)
 
-- 
2.43.0


From 36723ac7dc288cb58aa235f515e1c13bbcc00bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 55/55] fix: stop opensfm_run_all.bat at the first failed step

---
 bin/opensfm_run_all.bat | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/opensfm_run_all.bat b/bin/opensfm_run_all.bat
index 1d9c36a..aa46661 100644
--- a/bin/opensfm_run_all.bat
+++ b/bin/opensfm_run_all.bat
@@ -1,8 +1,8 @@
-call %~dp0opensfm.bat extract_metadata %1
-call %~dp0opensfm.bat detect_features %1
-call %~dp0opensfm.bat match_features %1
-call %~dp0opensfm.bat create_tracks %1
-call %~dp0opensfm.bat reconstruct %1
-call %~dp0opensfm.bat mesh %1
-call %~dp0opensfm.bat undistort %1
-call %~dp0opensfm.bat compute_depthmaps %1
+call %~dp0opensfm.bat extract_metadata %1 || exit /b 1
+call %~dp0opensfm.bat detect_features %1 || exit /b 1
+call %~dp0opensfm.bat match_features %1 || exit /b 1
+call %~dp0opensfm.bat create_tracks %1 || exit /b 1
+call %~dp0opensfm.bat reconstruct %1 || exit /b 1
+call %~dp0opensfm.bat mesh %1 || exit /b 1
+call %~dp0opensfm.bat undistort %1 || exit /b 1
+call %~dp0opensfm.bat compute_depthmaps %1 || exit /b 1
-- 
2.43.0

