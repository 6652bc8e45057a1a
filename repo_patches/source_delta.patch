From ce6d45570b100a425e48c9403f3fad20d10092d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 01/38] fix: cut every SIDD chip from the source image rather
 than from the previously created chip

---
 src/aws/osml/image_processing/sidd_updater.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..ce78a28 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original chip information (if any) to support the case where multiple chips are
+        # created from the same SIDD image. Every chip is cut from the source image, not from the previous chip.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -78,6 +84,9 @@ class SIDDUpdater:
         if not self.sidd.downstream_reprocessing:
             self.sidd.downstream_reprocessing = sidd_namespace.DownstreamReprocessingType()
 
+        # Discard the results of any earlier update so the new bounds are always relative to the source image.
+        self.sidd.downstream_reprocessing.geometric_chip = self.original_geometric_chip
+
         # Identify the location of the UL, UR, LR, LL corners of this chip in the full image. If the image is already
         # a chip of a full image these coordinates need to be updated, so they are still the positions of the new chip
         # in the original full image.
-- 
2.43.0


From 504ec35703ca047da3972234730d21a7ca17cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 02/38] fix: map SIDD chip corners to the first and last pixel
 of the chip

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..0c89a5b 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -114,12 +114,14 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             # This 4 corner transformation handles images that are cropped, rotated, and scaled, from the full
             # SIDD image grid.
             geo_chip = sidd.downstream_reprocessing.geometric_chip
-            chip_num_rows = geo_chip.chip_size.row
-            chip_num_cols = geo_chip.chip_size.col
+            # The original coordinates are the locations of the corner pixels of the chip so they correspond to the
+            # first and last row/column. See section 5.1.1 of the SIDD specification v3.0 Volume 1.
+            chip_last_row = geo_chip.chip_size.row - 1
+            chip_last_col = geo_chip.chip_size.col - 1
 
             chipped_image_coords = [
                 ImageCoordinate(coord)
-                for coord in [[0, 0], [chip_num_cols, 0], [chip_num_cols, chip_num_rows], [0, chip_num_rows]]
+                for coord in [[0, 0], [chip_last_col, 0], [chip_last_col, chip_last_row], [0, chip_last_row]]
             ]
             full_image_coords = [
                 ImageCoordinate([x.col, x.row])
-- 
2.43.0


From 0432d4b467b7556ba65b92b66acccb82773d9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:59 +0000
Subject: [PATCH 03/38] fix: never return or leave behind a partially written
 tile when the source image cannot be read

---
 .../image_processing/gdal_tile_factory.py     | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..a673827 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -92,7 +92,8 @@ class GDALTileFactory:
         :param output_size: an optional size of the output tile (width, height)
         :return: the encoded image tile or None if one could not be produced
         """
-        temp_ds_name = f"/vsimem/{token_hex(16)}.{self.tile_format}"
+        temp_ds_dir = f"/vsimem/{token_hex(16)}"
+        temp_ds_name = f"{temp_ds_dir}/tile.{self.tile_format}"
 
         # Use the request and metadata from the raster dataset to create a set of keyword
         # arguments for the gdal.Translate() function. This will configure that function to
@@ -125,16 +126,20 @@ class GDALTileFactory:
         # From GDAL documentation:
         #   srcWin --- subwindow in pixels to extract:
         #               [left_x, top_y, width, height]
-        gdal.Translate(
-            temp_ds_name,
-            self.raster_dataset,
-            srcWin=src_window,
-            **gdal_translate_kwargs,
-        )
-
-        # Read the VSIFile
         vsifile_handle = None
         try:
+            temp_ds = gdal.Translate(
+                temp_ds_name,
+                self.raster_dataset,
+                srcWin=src_window,
+                **gdal_translate_kwargs,
+            )
+            if temp_ds is None:
+                # The tile could not be written completely (e.g. a region of the source image was not readable)
+                return None
+            temp_ds = None  # Close the dataset to ensure that everything has been flushed to the VSIFile
+
+            # Read the VSIFile
             vsifile_handle = gdal.VSIFOpenL(temp_ds_name, "r")
             if vsifile_handle is None:
                 return None
@@ -144,7 +149,8 @@ class GDALTileFactory:
         finally:
             if vsifile_handle is not None:
                 gdal.VSIFCloseL(vsifile_handle)
-            gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            # Remove everything written for this tile, even if it is not complete enough for the driver to delete it
+            gdal.RmdirRecursive(temp_ds_dir)
 
     def create_orthophoto_tile(
         self, geo_bbox: Tuple[float, float, float, float], tile_size: Tuple[int, int]
-- 
2.43.0


From 05c77fc55b3f4bb03c30f4d131f25e596aa19c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 04/38] fix: keep the raster cache of a digital elevation model
 consistent when it is shared by threads

---
 src/aws/osml/photogrammetry/digital_elevation_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/digital_elevation_model.py b/src/aws/osml/photogrammetry/digital_elevation_model.py
index 05b60b5..2cb34b8 100644
--- a/src/aws/osml/photogrammetry/digital_elevation_model.py
+++ b/src/aws/osml/photogrammetry/digital_elevation_model.py
@@ -4,6 +4,7 @@
 # from numpy.typing import ArrayLike
 
 import operator
+import threading
 from abc import ABC, abstractmethod
 from typing import Any, Optional, Tuple
 
@@ -76,6 +77,10 @@ class DigitalElevationModel(ElevationModel):
     coverage.
     """
 
+    # This protects the bookkeeping of the raster caches when an elevation model is shared by multiple threads. It is
+    # not held while tiles are being loaded.
+    _raster_cache_lock = threading.RLock()
+
     def __init__(
         self,
         tile_set: DigitalElevationModelTileSet,
@@ -138,7 +143,7 @@ class DigitalElevationModel(ElevationModel):
         interpolation_grid, sensor_model, summary = self.get_interpolation_grid(tile_id)
         return summary
 
-    @cachedmethod(operator.attrgetter("raster_cache"))
+    @cachedmethod(operator.attrgetter("raster_cache"), lock=operator.attrgetter("_raster_cache_lock"))
     def get_interpolation_grid(
         self, tile_path: str
     ) -> Tuple[Optional[RectBivariateSpline], Optional[SensorModel], Optional[ElevationRegionSummary]]:
-- 
2.43.0


From 0b4684a1d6dc439473328ffcc5cc5b6deb25abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 05/38] fix: treat damaged or unreadable elevation tiles as
 unavailable

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..0dab90b 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -47,7 +47,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # This is how GDAL reports a raster that can't be opened when UseExceptions is enabled
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
@@ -63,9 +67,20 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         raster_band = ds.GetRasterBand(1)
-        band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        try:
+            band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+            stats = raster_band.GetStatistics(True, True)
+            sensor_model = GDALAffineSensorModel(geo_transform)
+        except (RuntimeError, ValueError) as error:
+            logging.warning(f"DEM tile is damaged and can't be used: {tile_location} {error}")
+            return None, None, None
+
+        # GDAL reports errors through empty results when UseExceptions is not enabled
+        if band_as_array is None or stats is None:
+            logging.warning(f"DEM tile is damaged and can't be used: {tile_location}")
+            return None, None, None
+
         height, width = band_as_array.shape
-        sensor_model = GDALAffineSensorModel(geo_transform)
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
@@ -73,7 +88,6 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        stats = raster_band.GetStatistics(True, True)
         summary = ElevationRegionSummary(
             min_elevation=stats[0],
             max_elevation=stats[1],
-- 
2.43.0


From d306e7a0ab39b2967834f4977b875eadef5809c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 06/38] fix: fall back to the image metadata when an elevation
 model has no data for a SAR image

---
 .../osml/photogrammetry/sicd_sensor_model.py    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 912d441..39b0972 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -8,7 +8,7 @@ from typing import Any, Dict, Optional, Tuple, Union
 import numpy as np
 import numpy.typing as npt
 
-from . import ElevationModel
+from . import ElevationModel, ElevationRegionSummary
 from .coordinates import (
     GeodeticWorldCoordinate,
     ImageCoordinate,
@@ -807,6 +807,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         elevation_model: ElevationModel,
         max_adjacent_point_distance: float = 10.0,
         height_threshold: float = 0.001,
+        elevation_summary: Optional[ElevationRegionSummary] = None,
     ):
         """
         Constructor for the projection that takes the image parameters and a digital elevation model (DEM).
@@ -817,6 +818,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         :param elevation_model: the digital elevation model
         :param max_adjacent_point_distance: Maximum distance between adjacent points along the R/Rdot contour
         :param height_threshold: threshold for determining if a R/Rdot contour point is on the DEM surface (m)
+        :param elevation_summary: summary of the DEM near the SCP, if none supplied it is taken from the elevation model
         """
         self.scp_ecf = scp_ecf
         self.scp_lle = geocentric_to_geodetic(scp_ecf)
@@ -828,7 +830,8 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         if side_of_track == "R":
             self.look = -1.0
 
-        elevation_summary = elevation_model.describe_region(self.scp_lle)
+        if elevation_summary is None:
+            elevation_summary = elevation_model.describe_region(self.scp_lle)
         self.hae_min = elevation_summary.min_elevation
         self.hae_max = elevation_summary.max_elevation
         self.hae_max_surface_projection = HAERRDotSurfaceProjection(
@@ -1050,9 +1053,17 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
+        # An elevation model that does not have any data for the region around the SCP is handled as if it was not supplied
+        elevation_summary = None
         if elevation_model is not None:
+            elevation_summary = elevation_model.describe_region(geocentric_to_geodetic(self.coord_converter.scp_ecf))
+
+        if elevation_summary is not None:
             surface_projection = DEMRRDotSurfaceProjection(
-                self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
+                self.coord_converter.scp_ecf,
+                self.side_of_track,
+                elevation_model=elevation_model,
+                elevation_summary=elevation_summary,
             )
         else:
             surface_projection = self.default_surface_projection
-- 
2.43.0


From 6f856cc81acb4035b5ee95731eba50fcf64ea995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 07/38] fix: always restore GDAL configuration options when a
 temporary environment ends

---
 src/aws/osml/gdal/gdal_config.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..d1eb76b 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -58,7 +58,8 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        # The values to restore for each scope that is currently active, this environment may be entered repeatedly
+        self.old_options: List[Dict] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +80,23 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
-        for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
-            gdal.SetConfigOption(key, str(val))
+        self.old_options.append({key: gdal.GetConfigOption(key) for key in self.options})
+        try:
+            for key, val in self.options.items():
+                gdal.SetConfigOption(key, str(val))
+        except Exception:
+            # The scope is never entered so __exit__ will not be called
+            self._restore_options()
+            raise
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        self._restore_options()
+
+    def _restore_options(self) -> None:
+        """
+        Revert the GDAL configuration options to the values they had before the most recent scope was entered.
+
+        :return: None
+        """
+        for key, val in self.old_options.pop().items():
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From c26316cf18abe23f211e981f24a280ad12b1b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:25 +0000
Subject: [PATCH 08/38] fix: report damaged image metadata as a ValueError when
 loading a dataset

---
 src/aws/osml/gdal/gdal_utils.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..e950df7 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -34,6 +34,20 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
         logger.info("Skipping: %s - GDAL Unable to Process", image_path)
         raise ValueError("GDAL Unable to Load: {}".format(image_path))
 
+    try:
+        return ds, _build_sensor_model(ds)
+    except Exception as e:
+        logger.info("Skipping: %s - Unable to Interpret Metadata", image_path)
+        raise ValueError("Unable to interpret image metadata: {}".format(image_path)) from e
+
+
+def _build_sensor_model(ds: gdal.Dataset) -> Optional[SensorModel]:
+    """
+    This function constructs the best sensor model possible given the metadata available in a raster dataset.
+
+    :param ds: the raster dataset
+    :return: the sensor model or None if the dataset does not have the necessary metadata
+    """
     # Get a GDAL Geo Transform and any available GCPs
     geo_transform = ds.GetGeoTransform(can_return_null=True)
     ground_control_points = ds.GetGCPs()
@@ -67,7 +81,7 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
         selected_sensor_model_types=selected_sensor_model_types,
     ).build()
 
-    return ds, sensor_model
+    return sensor_model
 
 
 def get_minmax_for_type(gdal_type: int) -> Tuple[float, float]:
-- 
2.43.0


From 54369bbb885b50c73d04e061a01d76ebab0fd9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 09/38] fix: honor the requested width and height of orthophoto
 tiles that are not square

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a673827..a4b053c 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -282,16 +282,16 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From 46b585531215b9b74619ec7a2badeee100d48009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:25 +0000
Subject: [PATCH 10/38] fix: report the exact elevation range of a DEM tile
 instead of one estimated from a sample of its rows

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 0dab90b..b5c7bb1 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -69,7 +69,8 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         raster_band = ds.GetRasterBand(1)
         try:
             band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
-            stats = raster_band.GetStatistics(True, True)
+            # The elevation range must cover every post in the tile so approximate statistics are not sufficient
+            stats = raster_band.GetStatistics(False, True)
             sensor_model = GDALAffineSensorModel(geo_transform)
         except (RuntimeError, ValueError) as error:
             logging.warning(f"DEM tile is damaged and can't be used: {tile_location} {error}")
-- 
2.43.0


From ec6b4b1fcf6f856943feddb705072b6fee070cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 11/38] fix: keep the pixel values of tiles cut from 64-bit
 floating point images

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a4b053c..0365c7e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -535,6 +535,10 @@ class GDALTileFactory:
         output_type, scale_params = get_type_and_scales(
             self.raster_dataset, desired_output_type=self.output_type, range_adjustment=self.range_adjustment
         )
+        if output_type == gdalconst.GDT_Float64 and all(scale[0:2] == scale[2:4] for scale in scale_params):
+            # The full range of a 64-bit floating point type can't be expressed as a scale without overflowing. The
+            # range is not changing so the pixels should not be scaled at all.
+            scale_params = None
 
         gdal_translate_kwargs = {
             "scaleParams": scale_params,
-- 
2.43.0


From d01f52ae427a2631af308c63bf5309589d750c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:03 +0000
Subject: [PATCH 12/38] fix: open small image chips whose corner coordinates
 coincide

The IGEOLO corners of a NITF tile have a resolution of one arc second. If a
whole chip lies within one arc second GDAL derives a geo transform that can't be
inverted and load_gdal_dataset failed with a ValueError even though the chip has
a precise SICD/SIDD/RPC/RSM sensor model.
---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..df8d01e 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
@@ -9,6 +10,8 @@ from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordina
 
 from .sensor_model_builder import SensorModelBuilder
 
+logger = logging.getLogger(__name__)
+
 
 class GDALAffineSensorModelBuilder(SensorModelBuilder):
     """
@@ -32,11 +35,18 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         Use the GDAL GeoTransform to construct a sensor model.
 
-        :return: affine transform based SensorModel that uses the GDAL GeoTransform
+        :return: affine transform based SensorModel that uses the GDAL GeoTransform if one can be constructed,
+            None otherwise
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except ValueError as e:
+            # This happens for small image chips if the corner coordinates in the metadata are not precise enough to
+            # tell the corners apart (e.g. the whole chip is inside one arc second of a NITF IGEOLO field).
+            logger.info("Skipping geo transform sensor model build: %s", e)
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0


From adc9702b18a5512e1b37aa3b33cc11e873e9b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 13/38] fix: derive the side of track of SIDD images

The SIDD sensor model assumed that every image was collected looking left. For
right looking collections the R/Rdot contour was intersected with the elevation
model on the wrong side of the track, so no intersection was found and
image_to_world failed with an IndexError for every pixel when an elevation model
was supplied.
---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index 0c89a5b..962d237 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -3,6 +3,7 @@
 import logging
 from typing import Optional, Union
 
+import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
 
 import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd100
@@ -99,10 +100,18 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         u_gpn = SICDSensorModel.compute_u_gpn(scp_ecf=scp_ecf, u_row=u_row, u_col=u_col)
 
+        # Unlike SICD the SIDD metadata does not state the side of track imaged, so it is derived from the position and
+        # velocity of the sensor when the scene center was imaged.
+        scp_time_coa = time_coa_poly(0.0, 0.0)
+        scp_arp = arp_poly(scp_time_coa)
+        scp_varp = arp_poly.deriv(m=1)(scp_time_coa)
+        is_left_looking = np.dot(np.cross(scp_arp, scp_varp), scp_ecf.coordinate - scp_arp) > 0
+
         sidd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
             u_spn=u_gpn,
+            side_of_track="L" if is_left_looking else "R",
             u_gpn=u_gpn,
         )
 
-- 
2.43.0


From d5a8d8b0be97402d4f08dd14ee585a06f1a0c261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:45 +0000
Subject: [PATCH 14/38] fix: handle SAR image locations outside of the coverage
 of the elevation model

If the elevation model had data for the scene center but not for the location of
a pixel the points without data were taken to be on the surface, so the pixel
was placed at the minimum elevation of the tile at the scene center instead of
falling back to the surface in the image metadata. Locations in a different tile
than the scene center could also fail with an IndexError because the range of
elevations was always taken from the tile at the scene center.
---
 .../osml/photogrammetry/sicd_sensor_model.py  | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 39b0972..badff1b 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -818,7 +818,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         :param elevation_model: the digital elevation model
         :param max_adjacent_point_distance: Maximum distance between adjacent points along the R/Rdot contour
         :param height_threshold: threshold for determining if a R/Rdot contour point is on the DEM surface (m)
-        :param elevation_summary: summary of the DEM near the SCP, if none supplied it is taken from the elevation model
+        :param elevation_summary: summary of the DEM near the location, if none supplied the region of the SCP is used
         """
         self.scp_ecf = scp_ecf
         self.scp_lle = geocentric_to_geodetic(scp_ecf)
@@ -935,8 +935,12 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         prev_delta_height = None
         for n in range(0, npts):
             point_lle = geocentric_to_geodetic(WorldCoordinate(points_ecf[n]))
-            point_dem = GeodeticWorldCoordinate(point_lle.coordinate.copy())
+            point_dem = GeodeticWorldCoordinate([point_lle.longitude, point_lle.latitude, np.nan])
             self.elevation_model.set_elevation(point_dem)
+            if np.isnan(point_dem.elevation):
+                # The elevation model does not have any data here, so it is unknown if this point is on the surface
+                prev_indicator = None
+                continue
             delta_height = point_lle.elevation - point_dem.elevation
 
             # Determine if the contour point is ABOVE (indicator = 1), ON (indicator = 0), or BELOW (indicator = -1)
@@ -1053,25 +1057,30 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        # An elevation model that does not have any data for the region around the SCP is handled as if it was not supplied
+        default_coords_ecf = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+        default_location = geocentric_to_geodetic(WorldCoordinate(default_coords_ecf[0]))
+
+        # An elevation model that does not have any data for this location is handled as if it was not supplied
         elevation_summary = None
         if elevation_model is not None:
-            elevation_summary = elevation_model.describe_region(geocentric_to_geodetic(self.coord_converter.scp_ecf))
-
-        if elevation_summary is not None:
-            surface_projection = DEMRRDotSurfaceProjection(
-                self.coord_converter.scp_ecf,
-                self.side_of_track,
-                elevation_model=elevation_model,
-                elevation_summary=elevation_summary,
-            )
-        else:
-            surface_projection = self.default_surface_projection
+            elevation_summary = elevation_model.describe_region(default_location)
+        if elevation_summary is None:
+            return default_location
+
+        surface_projection = DEMRRDotSurfaceProjection(
+            self.coord_converter.scp_ecf,
+            self.side_of_track,
+            elevation_model=elevation_model,
+            elevation_summary=elevation_summary,
+        )
 
         # Note that for a DEM the r/rdot contour may intersect the surface at multiple locations
         # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
         # TODO: Is there a better way to handle multiple DEM intersections?
         coords_ecf = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+        if len(coords_ecf) == 0:
+            # The contour does not intersect the part of the surface the elevation model has data for
+            return default_location
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
-- 
2.43.0


From 6b39a6990f7ef0a22bad2e9c68d3da14a45b31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 15/38] fix: geolocate image bounding boxes that extend beyond
 the image geometry

---
 src/aws/osml/features/geolocation.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..38205e0 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,18 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            # A feature can have both an image geometry and a larger image bounding box; the grid must cover both.
+            for image_geometry in (
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ):
+                if image_geometry is None:
+                    continue
+                image_geometry_bbox = image_geometry.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
-- 
2.43.0


From b437e2f9a5f00eb39d41d91c1a3c1794980b5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:18 +0000
Subject: [PATCH 16/38] fix: accept feature lists in which no feature has an
 image location

---
 src/aws/osml/features/geolocation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 38205e0..242d225 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -156,6 +156,11 @@ class Geolocator:
                 feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
                 feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        # None of the features has a location in the image so there is nothing to geolocate.
+        if feature_bounds[0] > feature_bounds[2]:
+            logging.warning("There isn't a valid detection shape for any of the features")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 6c6dc7a533fd6e2d65b1bb427ef4fd4b401e7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 17/38] fix: keep the color order of orthophoto tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 0365c7e..b6b89db 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -327,6 +327,10 @@ class GDALTileFactory:
             # add alpha mask
             output_tile_pixels = np.dstack((output_tile_pixels, alpha_mask))
 
+        # The image bands are in RGB order but imencode expects the color channels in BGR order
+        if output_tile_pixels.ndim == 3 and output_tile_pixels.shape[2] == 4:
+            output_tile_pixels = output_tile_pixels[..., [2, 1, 0, 3]]
+
         # TODO: Formats other than PNG?
         is_success, image_bytes = cv2.imencode(".png", output_tile_pixels)
         return image_bytes if is_success else None
-- 
2.43.0


From 5a3ab6af617cfddd047d1f36f7a7a370d7792564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 18/38] fix: use the actual reduction factor of overviews for
 orthophoto tiles

---
 .../osml/image_processing/gdal_tile_factory.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index b6b89db..815bf1f 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -236,8 +236,16 @@ class GDALTileFactory:
             src_dim = np.min([src_bbox[2] - src_bbox[0], src_bbox[3] - src_bbox[1]])
             return int(np.max([0, int(np.floor(np.log2(src_dim / tile_width)))]))
 
-        num_overviews = self.raster_dataset.GetRasterBand(1).GetOverviewCount()
-        r_level = min(find_appropriate_r_level(src_bbox, tile_size[0]), num_overviews)
+        # The overviews of an image normally reduce the resolution by 2, 4, 8, ... but other factors are possible.
+        band = self.raster_dataset.GetRasterBand(1)
+        r_level_scales = [1] + [
+            round(self.raster_dataset.RasterXSize / band.GetOverview(i).XSize) for i in range(band.GetOverviewCount())
+        ]
+        max_scale = 2 ** find_appropriate_r_level(src_bbox, tile_size[0])
+        r_level = max(
+            (level for level, scale in enumerate(r_level_scales) if scale <= max_scale), key=lambda i: r_level_scales[i]
+        )
+        r_scale = r_level_scales[r_level]
 
         src_bbox = (
             max(src_bbox[0], 0),
@@ -247,7 +255,7 @@ class GDALTileFactory:
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-        overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        overview_bbox = tuple([int(x / r_scale) for x in src_bbox])
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
@@ -276,8 +284,8 @@ class GDALTileFactory:
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = (src_x - src_bbox[0]) / r_scale + border_size
+        src_y = (src_y - src_bbox[1]) / r_scale + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From 997c279330416b3478174f20dc0c9d3131acbc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 19/38] fix: power of complex pixels with integer components

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..e518343 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,9 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    if np.issubdtype(complex_data.dtype, np.integer):
+        # The square of an integer pixel value does not fit the pixel type
+        complex_data = complex_data.astype(np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From 1c064712694827d5b24b23ee28ef85e8770d99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:33 +0000
Subject: [PATCH 20/38] fix: no orthophoto tile for areas that only touch the
 edge of the image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 815bf1f..d735854 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -216,10 +216,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
-- 
2.43.0


From 6cbc5555bdabaffe8c7ab7c2deb7481c127a2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 21/38] fix: read whole overview pixels for orthophoto tiles of
 small regions

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d735854..097e2e9 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -255,7 +255,14 @@ class GDALTileFactory:
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-        overview_bbox = tuple([int(x / r_scale) for x in src_bbox])
+        # Include every overview pixel that covers a part of the region, it may be smaller than one of them.
+        overview = band if r_level == 0 else band.GetOverview(r_level - 1)
+        overview_bbox = (
+            min(src_bbox[0] // r_scale, overview.XSize - 1),
+            min(src_bbox[1] // r_scale, overview.YSize - 1),
+            min(-(-src_bbox[2] // r_scale), overview.XSize),
+            min(-(-src_bbox[3] // r_scale), overview.YSize),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
-- 
2.43.0


From 283a920de6bb41a9462699b46eac41c88ea6ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:54 +0000
Subject: [PATCH 22/38] fix: name the elevation tiles of whole degrees that
 radians cannot represent exactly

---
 src/aws/osml/photogrammetry/coordinates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..fe4431a 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,7 +159,8 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
+        # Rounding keeps whole degrees, converted from radians, from being truncated to the degree below
+        ld = int(round(lat_degrees, 9))
         lm = int(round(lat_degrees - ld, 6) * 60)
         ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
 
@@ -168,7 +169,7 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
+        od = int(round(lon_degrees, 9))
         om = int(round(lon_degrees - od, 6) * 60)
         os = int(round(lon_degrees - od - om / 60, 6) * 3600)
 
-- 
2.43.0


From 71eb884f6c327dfa711dc8acea885a4c5b4a4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:05 +0000
Subject: [PATCH 23/38] fix: keep statistics computed for other tiles out of
 tiles of an entire 64-bit image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 097e2e9..f41b631 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -556,8 +556,9 @@ class GDALTileFactory:
         )
         if output_type == gdalconst.GDT_Float64 and all(scale[0:2] == scale[2:4] for scale in scale_params):
             # The full range of a 64-bit floating point type can't be expressed as a scale without overflowing. The
-            # range is not changing so the pixels should not be scaled at all.
-            scale_params = None
+            # range is not changing so any scale that keeps the pixel values will do. Without a scale GDAL would copy
+            # the statistics known for the image, e.g. those computed for other tiles, to tiles of the entire image.
+            scale_params = [[0.0, 1.0, 0.0, 1.0] for _ in scale_params]
 
         gdal_translate_kwargs = {
             "scaleParams": scale_params,
-- 
2.43.0


From 0d0118d5885a7c7bf622ddd5fc99af1acab30d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:14 +0000
Subject: [PATCH 24/38] fix: find the ground location of image coordinates near
 the edge of an RSM ground domain

---
 .../photogrammetry/replacement_sensor_model.py     | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..68e6f62 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -534,21 +534,13 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-        # domain. The starting simplex is estimated as a triangle centered in the ground domain.
+        # domain. The starting simplex is estimated as a triangle centered in the ground domain. The search is not
+        # bounded to that domain because clipping the vertices of a simplex to the bounds can flatten it, in which case
+        # the search ends far away from the solution.
         res = minimize(
             distance_to_target_coordinate,
             initial_guess,
             method="Nelder-Mead",
-            bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
-            ],
             options={
                 "xatol": radians(0.000001),
                 "fatol": 0.5,
-- 
2.43.0


From 2aaa20aa7eb052ed7ea52e909efda5434f552adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:51 +0000
Subject: [PATCH 25/38] fix: report longitudes in the usual range for RSM
 images with a ground domain of 0 to 2*PI

---
 .../replacement_sensor_model.py               | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 68e6f62..974efea 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -508,7 +508,7 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the world coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            current_world_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
+            current_world_coordinate = self._lonlat_to_world_coordinate(lonlat_coord[0], lonlat_coord[1])
             self.context.ground_domain.default_elevation_model.set_elevation(current_world_coordinate)
             if elevation_model:
                 elevation_model.set_elevation(current_world_coordinate)
@@ -550,13 +550,28 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # The minimization result is a (longitude,latitude) tuple, so we need to expand it to
         # longitude,latitude,elevation and replace the z component with the height from the elevation model.
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
+        world_coordinate = self._lonlat_to_world_coordinate(res.x[0], res.x[1])
         self.context.ground_domain.default_elevation_model.set_elevation(world_coordinate)
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
 
         return world_coordinate
 
+    def _lonlat_to_world_coordinate(self, longitude: float, latitude: float) -> GeodeticWorldCoordinate:
+        """
+        This is a helper function used to turn a location visited by the search in image_to_world into a geodetic world
+        coordinate. The search may use longitudes in the [0,2*PI) range of the ground domain but elevation models, and
+        users of the result, expect them to be in the [-PI,PI) range.
+
+        :param longitude: the longitude
+        :param latitude: the latitude
+
+        :return: the world coordinate with an elevation of 0
+        """
+        if self.context.ground_domain.ground_domain_form == RSMGroundDomainForm.GEODETIC_2PI and longitude >= pi:
+            longitude -= 2 * pi
+        return GeodeticWorldCoordinate([longitude, latitude, 0.0])
+
     def ground_domain_to_image(self, domain_coordinate: WorldCoordinate) -> ImageCoordinate:
         """
         This function implements the polynomial ground-to-image transform as defined by section 10.3.3.1.1 of the
-- 
2.43.0


From e8324316d21ef3fef1fe1553b6ef90a0f1d14a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 26/38] fix: find the terrain along the whole contour of a SAR
 image coordinate when it lies in another elevation tile

---
 .../osml/photogrammetry/sicd_sensor_model.py  | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index badff1b..68c54f5 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1066,6 +1066,9 @@ class SICDSensorModel(SensorModel):
             elevation_summary = elevation_model.describe_region(default_location)
         if elevation_summary is None:
             return default_location
+        elevation_summary = self._extend_elevation_summary(
+            elevation_summary, elevation_model, r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa
+        )
 
         surface_projection = DEMRRDotSurfaceProjection(
             self.coord_converter.scp_ecf,
@@ -1084,6 +1087,50 @@ class SICDSensorModel(SensorModel):
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
+    def _extend_elevation_summary(
+        self,
+        elevation_summary: ElevationRegionSummary,
+        elevation_model: ElevationModel,
+        r_tgt_coa: float,
+        r_dot_tgt_coa: float,
+        arp_coa: np.ndarray,
+        varp_coa: np.ndarray,
+    ) -> ElevationRegionSummary:
+        """
+        The R/RDot contour can leave the summarized region before it reaches the surface. This extends the summary by
+        the regions that contain the ends of the contour, i.e. the points at the minimum and maximum elevation, to make
+        sure that the contour starts below and ends above the surface.
+
+        :param elevation_summary: summary of the DEM near an approximate location
+        :param elevation_model: the digital elevation model
+        :param r_tgt_coa: target COA range
+        :param r_dot_tgt_coa: target COA range rate
+        :param arp_coa: ARP position
+        :param varp_coa: ARP velocity
+        :return: summary of all regions needed to find the surface along the R/RDot contour
+        """
+        max_iterations = 10
+        for _ in range(max_iterations):
+            summaries = [elevation_summary]
+            for hae in (elevation_summary.min_elevation, elevation_summary.max_elevation):
+                hae_projection = HAERRDotSurfaceProjection(self.coord_converter.scp_ecf, self.side_of_track, hae=hae)
+                point_ecf = hae_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)[0]
+                summary = elevation_model.describe_region(geocentric_to_geodetic(WorldCoordinate(point_ecf)))
+                if summary is not None:
+                    summaries.append(summary)
+
+            extended_summary = ElevationRegionSummary(
+                min_elevation=min(summary.min_elevation for summary in summaries),
+                max_elevation=max(summary.max_elevation for summary in summaries),
+                no_data_value=elevation_summary.no_data_value,
+                post_spacing=min(summary.post_spacing for summary in summaries),
+            )
+            if extended_summary == elevation_summary:
+                break
+            elevation_summary = extended_summary
+
+        return elevation_summary
+
     def world_to_image(self, world_coordinate: GeodeticWorldCoordinate) -> ImageCoordinate:
         """
         This is an implementation of Section 6.1 Scene To Image Grid Projection for a single point.
-- 
2.43.0


From 3843649ceaa7bc647208fb6780fbe1e9c718b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 27/38] fix: use the full output range for images with a
 maximum pixel value of 0

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..828f012 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
-- 
2.43.0


From da2fbda195e40055d8cb116bad02b7d13a1f2f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 28/38] fix: create tiles of images in which all pixels have
 the same value when range adjustment is selected

---
 src/aws/osml/gdal/gdal_utils.py                | 18 +++++++++++-------
 .../osml/image_processing/gdal_tile_factory.py | 12 ++++++++----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e950df7..8bd7d89 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -170,13 +170,17 @@ def get_type_and_scales(
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
-            dra = DRAParameters.from_counts(
-                counts=band.GetHistogram(
-                    buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
-                ),
-                first_bucket_value=min_value,
-                last_bucket_value=max_value,
-            )
+            if max_value > min_value:
+                dra = DRAParameters.from_counts(
+                    counts=band.GetHistogram(
+                        buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
+                    ),
+                    first_bucket_value=min_value,
+                    last_bucket_value=max_value,
+                )
+            else:
+                # There is no histogram for a band in which all pixels have the same value
+                dra = DRAParameters(min_value, max_value, min_value, max_value)
 
             if range_adjustment == RangeAdjustmentType.DRA:
                 selected_min = dra.suggested_min_value
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index f41b631..1eed256 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -500,10 +500,14 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
-        hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
-        dra_parameters = DRAParameters.from_counts(
-            hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
-        )
+        if max_value > min_value:
+            hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+            dra_parameters = DRAParameters.from_counts(
+                hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
+            )
+        else:
+            # There is no histogram for a band in which all pixels have the same value
+            dra_parameters = DRAParameters(min_value, max_value, min_value, max_value)
         normalized_pixel = (
             255
             * (pixel_array - dra_parameters.suggested_min_value)
-- 
2.43.0


From 16f02cb8fcbb1c9bf699faedc17e5113ac49e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 29/38] fix: scale the range of pixel values of map tiles to
 the full output range whatever its minimum or size

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 1eed256..14c54cc 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -482,7 +482,8 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        value_range = max_value - min_value
+        normalized_pixel = (pixel_array - min_value) * (255.0 / (value_range if value_range > 0 else 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
@@ -508,10 +509,9 @@ class GDALTileFactory:
         else:
             # There is no histogram for a band in which all pixels have the same value
             dra_parameters = DRAParameters(min_value, max_value, min_value, max_value)
+        value_range = dra_parameters.suggested_max_value - dra_parameters.suggested_min_value
         normalized_pixel = (
-            255
-            * (pixel_array - dra_parameters.suggested_min_value)
-            / max(dra_parameters.suggested_max_value - dra_parameters.suggested_min_value, 1.0)
+            255 * (pixel_array - dra_parameters.suggested_min_value) / (value_range if value_range > 0 else 1.0)
         )
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
-- 
2.43.0


From 08f10e286a7cf676dfed1e8551359715c670958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 30/38] fix: create range adjusted tiles of images with a large
 range of 32-bit integer pixel values

---
 src/aws/osml/gdal/gdal_utils.py                    | 3 ++-
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 8bd7d89..66443d0 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -166,7 +166,8 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
+            # Images with 32-bit integer pixels can have ranges that are too large to give each value its own bucket
+            num_buckets = min(int(max_value - min_value), 65536)
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 14c54cc..8f46ecc 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -502,7 +502,8 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         if max_value > min_value:
-            hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+            num_buckets = min(max(256, int(max_value - min_value)), 65536)
+            hist = band.GetHistogram(min=min_value, max=max_value, buckets=num_buckets)
             dra_parameters = DRAParameters.from_counts(
                 hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
             )
-- 
2.43.0


From 16e9a206720e6d96d3e4cf49d350a85b86cb4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 31/38] fix: build feature indexes from the geographic
 geometries of features

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 54a40e9e34cbfbe116f00fef1ee282dbb133c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 32/38] fix: keep feature indexes intact when the feature
 collection changes

---
 src/aws/osml/features/feature_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index e670051..359e65a 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -47,7 +47,8 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         property_accessor: ImagedFeaturePropertyAccessor = ImagedFeaturePropertyAccessor(),
     ) -> None:
         self.use_image_geometries = use_image_geometries
-        self.features = feature_collection.features
+        # The index refers to features by position, so it needs a list that does not change with the collection
+        self.features = list(feature_collection.features)
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-- 
2.43.0


From b49d5b44616cdc76e72b2463fa4aefd7e552490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 33/38] fix: never write 60 minutes or seconds in formatted
 coordinates

---
 src/aws/osml/photogrammetry/coordinates.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index fe4431a..429a34f 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,19 +159,17 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        # Rounding keeps whole degrees, converted from radians, from being truncated to the degree below
-        ld = int(round(lat_degrees, 9))
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        # Rounding keeps whole degrees, minutes and seconds, converted from radians, from being truncated to the one below
+        lat_seconds = int(round(lat_degrees * 3600, 5))
+        ld, lm, ls = lat_seconds // 3600, lat_seconds // 60 % 60, lat_seconds % 60
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(round(lon_degrees, 9))
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        lon_seconds = int(round(lon_degrees * 3600, 5))
+        od, om, os = lon_seconds // 3600, lon_seconds // 60 % 60, lon_seconds % 60
 
         result = []
         i = 0
-- 
2.43.0


From 7f21b8e899871f8efac92aeb09ceaec9dab7600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 34/38] fix: find the map tile of locations at the edge of the
 tile matrix set

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..31ca299 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -80,6 +80,11 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         )
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
+
+        # Locations on the outer edge of the tile matrix, or beyond the latitudes it covers, belong to the closest tile
+        max_index = 2**tile_matrix - 1
+        tile_col = min(max(tile_col, 0), max_index)
+        tile_row = min(max(tile_row, 0), max_index)
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
 
     def _resolution(self, tile_matrix: int) -> float:
-- 
2.43.0


From 84a3444b0497b381e0e9d9e65c8662218f837e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 35/38] fix: use the elevation at the center of the image for
 map tiles of images that are not square

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 8f46ecc..21dabe6 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -189,7 +189,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From 7bdaab5d77a0ae2e3de3e16316727af8be2ffa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 36/38] fix: never invert the dynamic range of images in which
 most pixels have about the same value

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 828f012..10682ef 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -80,6 +80,9 @@ class DRAParameters:
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
 
+        # If a single bucket contains most of the pixels it holds both set points, the range must not become inverted
+        e_max = max(e_max, e_min)
+
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
         max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
 
-- 
2.43.0


From 0a0f084c16cad8281a0606390dea8527c36a4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 37/38] fix: SAR images without any signal are displayed as
 black instead of not-a-number pixels

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index e518343..d702dec 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -97,6 +97,9 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
     mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
+    if mean_value == 0:
+        # There is no signal in these pixels
+        return np.zeros_like(magnitude_values)
     u = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
 
@@ -118,6 +121,9 @@ def quarter_power_mag_values(
     mean_value = precomputed_mean
     if mean_value is None:
         mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
+    if mean_value == 0:
+        # There is no signal in these pixels
+        return np.zeros_like(sqrt_magnitude)
     b = 1 / (scale_factor * mean_value)
     return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
 
-- 
2.43.0


From 457500d2fa7418821cf7b2d45dae7dbd6fb793de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:50 +0000
Subject: [PATCH 38/38] fix: geolocate features of images that cross the
 antimeridian

---
 src/aws/osml/features/geolocation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 242d225..962c260 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -60,6 +60,11 @@ class LocationGridInterpolator:
         latitude_values.shape = longitude_values.shape
         elevation_values.shape = longitude_values.shape
 
+        # Longitudes jump by a full circle at the antimeridian. If the area crosses it count them on to the east, otherwise
+        # they can't be interpolated.
+        if np.ptp(longitude_values) > np.pi:
+            longitude_values[longitude_values < 0] += 2.0 * np.pi
+
         self.longitude_interpolator = RectBivariateSpline(xs, ys, longitude_values, kx=1, ky=1)
         self.latitude_interpolator = RectBivariateSpline(xs, ys, latitude_values, kx=1, ky=1)
         self.elevation_interpolator = RectBivariateSpline(xs, ys, elevation_values, kx=1, ky=1)
@@ -79,6 +84,8 @@ class LocationGridInterpolator:
             self.latitude_interpolator(image_coord[0], image_coord[1])[0][0],
             self.elevation_interpolator(image_coord[0], image_coord[1])[0][0],
         ]
+        if world_coord[0] > np.pi:
+            world_coord[0] -= 2.0 * np.pi
         world_coordinate = GeodeticWorldCoordinate(world_coord)
         if self.elevation_model is not None:
             self.elevation_model.set_elevation(world_coordinate)
@@ -204,7 +211,12 @@ class Geolocator:
                     for corner in bbox_corners_image_coords
                 ]
                 bbox_corners_world_geometry = shapely.MultiPoint(bbox_corners_world_coords)
-                feature["bbox"] = bbox_corners_world_geometry.bounds
+                min_lon, min_lat, max_lon, max_lat = bbox_corners_world_geometry.bounds
+                if max_lon - min_lon > 180.0:
+                    # This box crosses the antimeridian, GeoJSON boxes always begin at the western edge
+                    min_lon = min(coord[0] for coord in bbox_corners_world_coords if coord[0] > 0)
+                    max_lon = max(coord[0] for coord in bbox_corners_world_coords if coord[0] < 0)
+                feature["bbox"] = (min_lon, min_lat, max_lon, max_lat)
 
             # If the feature has the "imageGeometry" property set then we will convert it to the "geometry" property
             # defined in the GeoJSON spec. The "geometry" property will have the same type (e.g. Point, LineString,
-- 
2.43.0

