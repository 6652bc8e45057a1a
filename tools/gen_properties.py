"""Writes properties.jsonl (kept as a script because JSON lines are hard to review)."""
import json
TF = "src/aws/osml/image_processing/gdal_tile_factory.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    if "state" in kw:
        kw["state"] = [{"name": kw["state"]}]
    if "observe_at" in kw:
        kw["observe_at"] = [kw["observe_at"]]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})


prop("C01", "An encoded tile depends only on its own request",
     "The encoded tile returned for a source window and output size is determined by the image, the settings given when "
     "the factory was created and that request alone: earlier, repeated, rejected or failed requests, other factories in "
     "the process and requests served by other threads never change it. When no pixel scaling, resizing or lossy "
     "compression is asked for, its pixels are exactly the pixels of the requested window, and the corner coordinates "
     "recorded in a NITF tile are those of the requested window.",
     ["histories", "schedules", "configurations", "inputs"],
     "Every image type (plain, georeferenced, RPC, SICD, SIDD), tile format, compression, pixel type and range "
     "adjustment; every sequence of tile requests including rejected ones; every interleaving of threads that each own "
     "a factory.",
     "Tests cut one or two tiles from one image with a fresh factory in one thread; a leak of state from one request to "
     "the next, or between factories, needs particular request histories or interleavings.",
     [TF, "src/aws/osml/image_processing/sicd_updater.py", "src/aws/osml/image_processing/sidd_updater.py",
      "src/aws/osml/gdal/gdal_utils.py"],
     [("per-request translate options", TF + ":create_encoded_tile"),
      ("shared SAR metadata updater", TF + ":GDALTileFactory.__init__"),
      ("temporary file naming", TF + ":create_encoded_tile"),
      ("type and scale selection", "src/aws/osml/gdal/gdal_utils.py:get_type_and_scales")],
     state="factory attributes (default translate options, metadata updater), GDAL dataset metadata, /vsimem",
     observe_at="bytes returned by create_encoded_tile, reopened with GDAL")

prop("C02", "A tile request that hits an error never yields a partial tile or leftovers",
     "If reading the source image, writing the tile, reading it back or computing its corner coordinates fails at any "
     "point, the request reports the failure (no tile or an exception) or returns exactly the complete, correct tile; a "
     "truncated, blank or garbled tile is never returned. Whatever the outcome, no temporary file and no open file handle "
     "stays behind, and the next request served without errors returns the correct tile.",
     ["fault_sequences", "crash_points", "histories", "configurations"],
     "Every position in the sequence of storage and library calls at which an error, empty result or exception can occur, "
     "storage that loses and regains its bytes between and during requests, both error-reporting modes of GDAL, every "
     "source and tile format.",
     "Tests only run against healthy local files and never inject an error in the middle of a request.",
     [TF], [("translate, read back and cleanup sequence", TF + ":create_encoded_tile")],
     state="/vsimem contents, open VSI handles", observe_at="returned tile, exceptions, listing of the in-memory file system")

prop("C03", "Chips cut from SAR chips keep pointing at the original collection",
     "When a tile is cut from a SICD or SIDD image, and tiles are cut from such tiles to any depth, reopening the result "
     "gives the pixels of the requested window and a sensor model under which every chip pixel has the ground location it "
     "has in the original image. The embedded metadata records the chip's own origin and size within the original image "
     "(and, for resized SIDD chips, the resized dimensions), and everything else in it is unchanged, whatever other tiles "
     "were cut or attempted in between.",
     ["histories", "inputs", "configurations"],
     "Every chain of nested chips, with decoy and failing requests interleaved, for every SICD projection type and SIDD, "
     "from full images and images that are already chips, with resizing for SIDD.",
     "Tests update one hand-made XML document once; accumulation of offsets over chains of chips and interference "
     "between requests needs multi-step histories on files with real metadata segments.",
     [TF, "src/aws/osml/image_processing/sicd_updater.py", "src/aws/osml/image_processing/sidd_updater.py",
      "src/aws/osml/gdal/sidd_sensor_model_builder.py", "src/aws/osml/gdal/sicd_sensor_model_builder.py",
      "src/aws/osml/gdal/nitf_des_accessor.py"],
     [("SICD chip origin update", "src/aws/osml/image_processing/sicd_updater.py:update_image_data_for_chip"),
      ("SIDD corner update", "src/aws/osml/image_processing/sidd_updater.py:update_image_data_for_chip"),
      ("chip-aware sensor models", "src/aws/osml/gdal/sidd_sensor_model_builder.py:from_dataclass")],
     state="XML metadata held by the factory", observe_at="reopened tile: pixels, embedded XML, sensor model results")

prop("C04", "Elevation lookups give the terrain value or leave the elevation untouched",
     "Looking up the elevation of a location in a tiled elevation model either sets it to the bilinear interpolation of the "
     "posts of the tile covering that location or, if that tile is missing, damaged or failed to load, leaves it unchanged; "
     "longitude and latitude are never altered, and a region's reported elevation range is that of its tile. This holds for every cache "
     "size, every order of lookups, any failure of storage and any number of threads sharing the model, and a tile whose "
     "load failed is used again once storage recovers and the failure has left the cache.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "All sequences of lookups over any tile arrangement (missing, damaged, adjacent, partial), cache sizes from zero up, "
     "interleavings of concurrent lookups, and load errors of every kind at any load.",
     "Tests look up a few points in one tile with a cache that never evicts, in one thread, with no failing storage.",
     ["src/aws/osml/photogrammetry/digital_elevation_model.py", "src/aws/osml/gdal/gdal_dem_tile_factory.py",
      "src/aws/osml/photogrammetry/srtm_dem_tile_set.py", "src/aws/osml/photogrammetry/generic_dem_tile_set.py"],
     [("raster cache", "src/aws/osml/photogrammetry/digital_elevation_model.py:get_interpolation_grid"),
      ("tile loading", "src/aws/osml/gdal/gdal_dem_tile_factory.py:get_tile"),
      ("tile selection", "src/aws/osml/photogrammetry/srtm_dem_tile_set.py:find_tile_id")],
     state="LRU cache of interpolation grids", observe_at="coordinate after set_elevation, result of describe_region")

prop("C05", "The elevation tile cache stays within its limit and keeps recent tiles",
     "A tiled elevation model never retains more tiles than the cache size it was created with, and it does not load a tile "
     "again while that tile is among the most recently used ones that fit in the cache. A load that raises an error is not "
     "remembered: it evicts nothing and the next lookup tries again.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "Every cache size, every access pattern, failing loads and concurrent lookups (the limit is then judged when no lookup "
     "is in progress, and reloads are judged for accesses that do not overlap).",
     "Tests use fewer tiles than the cache holds and never count loads or retained tiles.",
     ["src/aws/osml/photogrammetry/digital_elevation_model.py"],
     [("LRU raster cache", "src/aws/osml/photogrammetry/digital_elevation_model.py:get_interpolation_grid")],
     state="LRU cache contents", observe_at="load calls received by the tile factory; liveness of loaded tiles")

prop("C06", "Sensor models have no memory",
     "The result of converting between image and world coordinates depends only on the sensor model, the coordinate, the "
     "elevation model and the hints passed in: not on earlier conversions, on conversions that failed, or on conversions "
     "running in other threads. The coordinates, hints and elevation model passed in are not altered.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "Every kind of sensor model the toolkit builds (affine, projective, RPC, RSM, sectioned RSM, SICD of each projection, "
     "SIDD, chips, composites), every sequence and interleaving of conversions, elevation models that fail part-way.",
     "Tests call each conversion once or twice on a fresh model in one thread; memory effects need a history.",
     ["src/aws/osml/photogrammetry/rpc_sensor_model.py", "src/aws/osml/photogrammetry/replacement_sensor_model.py",
      "src/aws/osml/photogrammetry/sicd_sensor_model.py", "src/aws/osml/photogrammetry/composite_sensor_model.py",
      "src/aws/osml/photogrammetry/chipped_image_sensor_model.py", "src/aws/osml/photogrammetry/gdal_sensor_model.py",
      "src/aws/osml/photogrammetry/projective_sensor_model.py"],
     [("conversions", "src/aws/osml/photogrammetry/*.py:image_to_world, world_to_image")],
     state="sensor model attributes", observe_at="returned coordinates; arguments after the call")

prop("C07", "Geolocating features can be retried and never harms the features",
     "Geolocating a list of features only adds geographic information: image-space geometries and all other properties "
     "stay as they were, also when the sensor or elevation model fails part-way. Repeating the call after a failure, or after a success, "
     "gives exactly the result of one call that never failed, and lists handled by concurrent workers sharing the models "
     "get the same result as when handled one after another; each location agrees with the sensor and elevation models.",
     ["fault_sequences", "crash_points", "histories", "schedules", "inputs"],
     "Every feature list (all image geometry types, boxes, deprecated properties, features without geometry), a failure at any call to "
     "the models, any number of retries and any interleaving of workers.",
     "Tests geolocate one small list once with models that never fail.",
     ["src/aws/osml/features/geolocation.py", "src/aws/osml/features/imaged_feature_property_accessor.py"],
     [("in-place feature update", "src/aws/osml/features/geolocation.py:_geolocate_features_using_approximation_grid"),
      ("grid interpolation", "src/aws/osml/features/geolocation.py:LocationGridInterpolator")],
     state="the feature dictionaries", observe_at="features after the call")

prop("C08", "Temporary GDAL configuration never outlives its scope",
     "Inside a temporary GDAL configuration scope the requested options are in effect, and when the scope ends, normally or by "
     "an exception, every option has exactly the value it had before; this includes nested and repeated use of the same scope "
     "object, options and credentials added in between, scopes of different threads over different options, and scopes that fail while being "
     "entered. Exceptions raised inside the scope reach the caller, and no other toolkit operation changes GDAL configuration.",
     ["histories", "fault_sequences", "schedules"],
     "Every properly nested sequence of entering and leaving scopes, credential rotations and exceptions, a failure of any call that "
     "sets an option while entering, and interleavings of threads using disjoint options.",
     "Tests enter one scope once and leave it normally.",
     ["src/aws/osml/gdal/gdal_config.py"],
     [("save and restore of options", "src/aws/osml/gdal/gdal_config.py:GDALConfigEnv.__enter__/__exit__"),
      ("credentials", "src/aws/osml/gdal/gdal_config.py:with_aws_credentials")],
     state="process-wide GDAL configuration", observe_at="gdal.GetConfigOption")

prop("C09", "Damaged image files are refused cleanly and leave no trace",
     "Opening an image file that is missing, cut short or has damaged bytes anywhere, or whose storage fails while it is being opened, "
     "either raises the documented value error or returns the dataset with a sensor model or none. It never ends in any other "
     "error, never changes what is returned for intact files opened later, and damage confined to pixel data does not change the sensor model.",
     ["inputs", "fault_sequences", "histories"],
     "Every truncation point and byte damage of every supported kind of file (GeoTIFF, NITF with RPC, RSM, chip or corner "
     "metadata, SICD, SIDD), storage errors at any metadata call, both error-reporting modes of GDAL, any mix of intact and damaged files.",
     "Tests open one missing file; damaged metadata has a combinatorial space of positions and values.",
     ["src/aws/osml/gdal/gdal_utils.py", "src/aws/osml/gdal/sensor_model_factory.py", "src/aws/osml/gdal/nitf_des_accessor.py",
      "src/aws/osml/gdal/rsm_sensor_model_builder.py", "src/aws/osml/gdal/rpc_sensor_model_builder.py"],
     [("loading and sensor model construction", "src/aws/osml/gdal/gdal_utils.py:load_gdal_dataset")],
     observe_at="return value or exception of load_gdal_dataset")

prop("C10", "Map tiles show the ground they claim, or there is no tile",
     "An orthorectified tile has exactly the requested width and height and shows at each position the image content of that "
     "ground location (to within resampling error); a request that does not overlap the image gives no tile. The result does not depend on "
     "earlier or concurrent requests, and if the image cannot be read or located while the tile is made the request reports failure "
     "or the correct tile, never invented pixels.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "Every bounding box and tile size (square or not), images with and without overviews, one, two or several bands, range "
     "adjustments, any history of requests, and read or projection failures at any point.",
     "Tests check only the format and size of a few square tiles, with healthy storage.",
     [TF], [("orthorectification", TF + ":create_orthophoto_tile"), ("overview reads", TF + ":_read_from_rlevel_as_array"),
            ("range normalisation", TF + ":_normalize_image_for_display")],
     observe_at="decoded PNG tile")

prop("C11", "Losing the elevation data degrades to the image's own elevation",
     "When an elevation model has no usable data for a location (no coverage, missing or unreadable tiles), converting image "
     "coordinates to ground locations, and geolocating features, gives the same result as when no elevation model is supplied. "
     "As soon as the data is usable again new elevation models use it.",
     ["fault_sequences", "configurations", "histories"],
     "Every kind of sensor model, every way elevation data can be unavailable, both error-reporting modes of GDAL.",
     "Tests always supply either a working elevation tile or none at all.",
     ["src/aws/osml/photogrammetry/digital_elevation_model.py", "src/aws/osml/photogrammetry/sicd_sensor_model.py",
      "src/aws/osml/photogrammetry/rpc_sensor_model.py", "src/aws/osml/photogrammetry/replacement_sensor_model.py",
      "src/aws/osml/gdal/gdal_dem_tile_factory.py", "src/aws/osml/features/geolocation.py"],
     [("use of the elevation model", "src/aws/osml/photogrammetry/*.py:image_to_world"),
      ("unavailable tiles", "src/aws/osml/gdal/gdal_dem_tile_factory.py:get_tile")],
     observe_at="returned world coordinates")

prop("C12", "Source imagery and elevation files are never modified",
     "No operation of the toolkit, successful or failed, changes a byte of the source image and elevation files it works "
     "on or removes them; at most a statistics side file next to a source may appear.",
     ["histories", "fault_sequences", "schedules"],
     "Every history of loading, tiling, orthorectification, elevation lookups and geolocation with failures injected at any point.",
     "Tests never compare source files before and after, and never inject failures.",
     [TF, "src/aws/osml/gdal/gdal_utils.py", "src/aws/osml/gdal/gdal_dem_tile_factory.py"],
     [("read-only open", "src/aws/osml/gdal/gdal_utils.py:load_gdal_dataset"),
      ("temporary files", TF + ":create_encoded_tile")],
     observe_at="bytes of the source files")

prop("C13", "Image and ground coordinates agree with each other, terrain and metadata",
     "For image coordinates inside the image (and slightly outside), converting to a ground location and back returns the same pixel: within "
     "a hundredth of a pixel for geotransform, ground control point and projective models, a tenth for SAR models without elevation model, and a "
     "pixel for RPC and RSM models, with hints and with any elevation model (SAR locations on terrain excepted). The locations are finite, with longitudes between -180 and 180 degrees, lie on the terrain of the "
     "elevation model wherever elevation tiles begin and end, and satisfy the imaging equation "
     "stated by the metadata: geotransform and projection, rational polynomials, RSM polynomials in each ground domain, and for SAR images the range and range "
     "rate (Doppler) of the pixel. This holds whatever was converted before, after conversions that failed because the elevation "
     "data failed, and with threads converting in parallel.",
     ["histories", "fault_sequences", "schedules", "configurations", "inputs"],
     "Every kind of sensor model, pixel, terrain and tiling of the elevation data; histories with failing or vanishing elevation data; parallel conversions.",
     "Tests compare a handful of pixels of a few images with flat or no elevation; iterative solutions go wrong for particular pixels and terrain.",
     ["src/aws/osml/photogrammetry/rpc_sensor_model.py", "src/aws/osml/photogrammetry/replacement_sensor_model.py",
      "src/aws/osml/photogrammetry/sicd_sensor_model.py", "src/aws/osml/photogrammetry/gdal_sensor_model.py",
      "src/aws/osml/photogrammetry/projective_sensor_model.py", "src/aws/osml/photogrammetry/composite_sensor_model.py",
      "src/aws/osml/photogrammetry/chipped_image_sensor_model.py", "src/aws/osml/photogrammetry/coordinates.py",
      "src/aws/osml/photogrammetry/digital_elevation_model.py", "src/aws/osml/gdal/rsm_sensor_model_builder.py",
      "src/aws/osml/gdal/rpc_sensor_model_builder.py", "src/aws/osml/gdal/sicd_sensor_model_builder.py", "src/aws/osml/gdal/sidd_sensor_model_builder.py"],
     [("conversions", "src/aws/osml/photogrammetry/*_sensor_model.py:image_to_world, world_to_image"),
      ("construction from metadata", "src/aws/osml/gdal/*_sensor_model_builder.py"),
      ("terrain", "src/aws/osml/photogrammetry/digital_elevation_model.py:set_elevation, describe_region")],
     observe_at="returned world and image coordinates")


prop("C14", "Feature indexes return exactly the matching features, unaltered",
     "A spatial index made from a feature collection returns, for every query geometry, exactly the features of that collection whose image geometry (or "
     "geographic geometry, if chosen) intersects it, or the nearest ones within the distance limit; features without such a geometry are never returned. It "
     "describes the collection as it was when the index was made, whatever the owner adds, removes, moves or reorders afterwards, after an attempt to build it failed, and "
     "for threads that share it, and alters no feature. Updating the image geometry of a feature changes every property that holds its location (current and, "
     "if allowed, deprecated ones) to the new geometry and nothing else, so that indexes made later find it at its new place.",
     ["histories", "schedules", "fault_sequences", "configurations", "inputs"],
     "All feature collections, property conventions and query geometries; histories of building, failing, querying, changing and updating; shared indexes.",
     "Tests query one collection that never changes.",
     ["src/aws/osml/features/feature_index.py", "src/aws/osml/features/imaged_feature_property_accessor.py"],
     [("index", "feature_index.py:STRFeature2DSpatialIndex"), ("image geometries of features", "imaged_feature_property_accessor.py:find_image_geometry, update_existing_image_geometries")],
     observe_at="returned features, and the features themselves")

prop("C15", "Map tiles, coordinate strings and conversions mean the location given",
     "In the WebMercatorQuad tile sets a location belongs to a tile of the requested tile matrix that contains it (locations beyond the covered latitudes and at 180 degrees to the closest "
     "tile), the bounds of every tile are those of the tile matrix set, four tiles of the next tile matrix cover it exactly, and the limits of an area are those of the tiles of its "
     "corners. Formatted coordinates denote the location they were made from (degrees, minutes and seconds in range and truncated to the second, hemispheres, decimal degrees and "
     "radians, elevation, literal text), and geodetic and geocentric coordinates convert into each other on the WGS 84 ellipsoid. Coordinates and tiles are values: results do not change "
     "with what was looked up before, with failed projections, with changes callers make to their own copies, or with other threads using the same objects.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "All locations including borders, poles and the antimeridian, all tile matrices and format strings; histories with failing projections, and threads.",
     "Tests sample a few tiles and coordinates one at a time.",
     ["src/aws/osml/image_processing/map_tileset.py", "src/aws/osml/image_processing/map_tileset_wmq.py", "src/aws/osml/image_processing/map_tileset_factory.py",
      "src/aws/osml/photogrammetry/coordinates.py"],
     [("tiles", "map_tileset_wmq.py:get_tile, get_tile_for_location; map_tileset.py:get_tile_matrix_limits_for_area"),
      ("strings", "coordinates.py:GeodeticWorldCoordinate.__format__, to_dms_string"), ("conversions", "coordinates.py:geodetic_to_geocentric, geocentric_to_geodetic")],
     observe_at="returned tiles, strings and coordinates")

prop("C16", "Range adjustment is one linear scale per band, taken from the whole image",
     "Every encoded tile and every map tile of an image shows a source value of a band as the same output value (within a level), on one linear scale to the "
     "full output range that is limited at its ends, so that higher values are never shown darker; this holds for all pixel types, also for images with negative, constant or very "
     "few values, for tiles of any place and size, for several factories and reopened images, after failed requests, and in parallel threads. The scale begins and ends, with MINMAX, at the smallest and "
     "largest value of the band in the whole image; with DRA, at the histogram bucket of its 2nd and 98th percentile (97th for map tiles), widened by 0.2 and 0.4 times their "
     "distance but not beyond the values of the image; and without range adjustment, if an output type is requested, at the limits of the source type. Where GDAL estimates "
     "statistics (overviews, many blocks) the limits may differ, the rest holds.",
     ["histories", "fault_sequences", "schedules", "configurations", "inputs"],
     "Histograms of every shape, pixel types, adjustments and output types; histories of encoded and map tiles with failing statistics, replaced images and threads.",
     "Tests look at one image with a well-behaved histogram, one tile at a time.",
     ["src/aws/osml/gdal/dynamic_range_adjustment.py", "src/aws/osml/gdal/gdal_utils.py", "src/aws/osml/image_processing/gdal_tile_factory.py"],
     [("scale of encoded tiles", "gdal_utils.py:get_type_and_scales"), ("scale of map tiles", "gdal_tile_factory.py:_normalize_band_minmax, _normalize_band_dra"),
      ("DRA parameters", "dynamic_range_adjustment.py:DRAParameters.from_counts")],
     observe_at="decoded pixels of the tiles")


prop("C17", "SAR pixels are displayed on one scale of their power",
     "Histogram-stretched and quarter-power images of SAR pixels have a finite level from 0 to 255 for every finite pixel, proportional to its power (histogram stretch) or to "
     "the fourth root of it (quarter power, as in map tiles of SAR images) and limited at 255, so that stronger pixels are never shown darker; it is 255 / (scale factor x mean) times that "
     "value, where the mean is that of all finite pixels given or the mean the caller states, and pixels without any signal are black. This holds for all SICD pixel types (real and "
     "imaginary parts as floating point numbers or integers over their full range, amplitude and phase with or without amplitude table), and all map tiles of an image use one scale, "
     "taken from the whole image, so that a given power looks the same in each of them. Conversions change neither their inputs nor earlier results, and do not depend on earlier, interrupted or parallel ones.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "All complex pixel arrays, pixel types and parameters; histories with reused and changed arrays, interrupted conversions, map tiles of SAR images and threads.",
     "Tests convert one array once.",
     ["src/aws/osml/image_processing/sar_complex_imageop.py", "src/aws/osml/image_processing/gdal_tile_factory.py"],
     [("power mapping", "sar_complex_imageop.py:quarter_power_image, histogram_stretch, image_pixels_to_complex"), ("map tiles", "gdal_tile_factory.py:create_orthophoto_tile")],
     observe_at="returned arrays, decoded pixels of map tiles")

prop("C18", "SICD and SIDD documents that are read and written say the same",
     "A valid SICD (1.2.1, 1.3.0) or SIDD (1.0, 2.0, 3.0) document that SICDUpdater or SIDDUpdater read and write contains every element, attribute and value of the original in "
     "its place and order and nothing else (numbers and times by value, other text exactly), and updating it for a chip changes only what describes the chip (rows, columns, first row and column; the geometric "
     "chip of a SIDD document). Damaged or incomplete XML is refused, and content that is not in the schema is never dropped silently. This holds whatever was read, updated or written "
     "before, also by failed attempts, for several updaters of one document, and in parallel threads.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "All valid documents of the supported versions; histories of reading, chipping and writing several documents with damaged input, allocation failures and threads.",
     "Tests read a few examples.",
     ["src/aws/osml/formats", "src/aws/osml/image_processing/sicd_updater.py", "src/aws/osml/image_processing/sidd_updater.py"],
     [("data classes", "src/aws/osml/formats/sicd, src/aws/osml/formats/sidd"), ("reading and writing", "sicd_updater.py:SICDUpdater; sidd_updater.py:SIDDUpdater")],
     observe_at="text of the written documents")


with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
