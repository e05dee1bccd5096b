From d22a4311dac2b9fe6b0d9586b981fb0a79a6dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 01/32] fix: do not average over an empty upwind window on
 coarse grids

---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From bf88f3fcf667cbe98377ff93b48db2f3aa65b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 02/32] fix: save multipliers when the git version cannot be
 obtained

A failing 'git describe' (no git, no checkout, no tag) ended the run and
left the process in another working directory.
---
 utilities/nctools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..791d048 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,10 +318,13 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    try:
+        git_info = subprocess.check_output(
+            ["git", "describe"],
+            cwd=os.path.dirname(os.path.realpath(__file__)))
+    except (OSError, subprocess.SubprocessError):
+        LOGGER.warning("Cannot obtain the code version from git")
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From e1e9f8ab34988efec7a1e2e24fbbe828dadc2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 03/32] fix: keep the working directory while cleaning up
 shielding files

Changing into the shielding directory broke every relative path of the
configuration used afterwards.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..9f381ad 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From 851429633322f5f409e5db9eb386400896d847d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 04/32] fix: end the whole parallel run when one process fails

The other processes kept waiting for a message or barrier, and the failing
process for the others in MPI.Finalize, so the job never ended.
---
 all_multipliers.py      |  4 +++-
 utilities/mpi_runner.py | 13 +++++++++----
 utilities/parallel.py   | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..a42483d 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -33,7 +33,8 @@ import topographic.topo_mult
 from utilities import mpi_runner
 from utilities.config import configparser as config
 from utilities.files import fl_start_log
-from utilities.parallel import attempt_parallel, disable_on_workers
+from utilities.parallel import abort_on_failure, attempt_parallel,\
+    disable_on_workers
 
 __version__ = '2.0'
 
@@ -670,6 +671,7 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     return
 
 
+@abort_on_failure
 @timer
 def run():
     """
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..b87a396 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -8,7 +8,7 @@ from osgeo import gdal
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
 from convert import Converter, create_sub_dirs_for_convert
-from parallel import attempt_parallel
+from parallel import abort_on_failure, attempt_parallel
 
 
 def parallelise_convert_on_tiles(data_path, comm):
@@ -64,7 +64,12 @@ if __name__ == '__main__':
     global MPI, comm
     MPI = attempt_parallel()
     comm = MPI.COMM_WORLD
-    if comm.rank == 0:
-        create_sub_dirs_for_convert(args.path)
 
-    parallelise_convert_on_tiles(args.path, comm)
+    @abort_on_failure
+    def main():
+        if comm.rank == 0:
+            create_sub_dirs_for_convert(args.path)
+
+        parallelise_convert_on_tiles(args.path, comm)
+
+    main()
diff --git a/utilities/parallel.py b/utilities/parallel.py
index 12878eb..2fbcda0 100644
--- a/utilities/parallel.py
+++ b/utilities/parallel.py
@@ -17,6 +17,9 @@
 
 """
 
+import logging as log
+import sys
+import traceback
 from functools import wraps
 
 
@@ -119,6 +122,35 @@ def attempt_parallel():
     return MPI
 
 
+def abort_on_failure(f):
+    """
+    Decorator to end the whole parallel run if `f` fails in one process.
+    Without it the other processes would wait forever for a message or a
+    barrier, and the failing one for the others in `MPI.Finalize`.
+
+    :param f: Function to be wrapped
+    :type f: function
+    """
+
+    @wraps(f)
+    def wrap(*args, **kwargs):
+        try:
+            return f(*args, **kwargs)
+        except BaseException as err:
+            if isinstance(err, SystemExit) and not err.code:
+                raise
+            comm = attempt_parallel().COMM_WORLD
+            if comm.size > 1:
+                try:
+                    log.critical("Aborting all processes", exc_info=True)
+                    traceback.print_exc()
+                    sys.stderr.flush()
+                finally:
+                    comm.Abort(1)
+            raise
+    return wrap
+
+
 def disable_on_workers(f):
     """
     Decorator to disable function `f` calculation on workers.
-- 
2.43.0


From 62abc8bcf0e426c91beeafd40a839b619c2deaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 05/32] fix: fail when the terrain table cannot be read

The process left with a success status.
---
 terrain/terrain_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..acbeebc 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -18,7 +18,6 @@ for 8 directions and output as NetCDF format.
 
 # Import system & process modules
 import os
-import sys
 import logging as log
 
 from utilities.config import configparser as config
@@ -168,7 +167,7 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
+        raise
     except:
         raise
 
-- 
2.43.0


From 553bfdf56307cc39806c2e5942a51fac521ea2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 06/32] fix: tolerate another process creating the log
 directory

The process that lost the race logged to the start directory instead.
---
 all_multipliers.py | 2 +-
 utilities/files.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index a42483d..04dc8cd 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -728,7 +728,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..18f7ab6 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From f29dfdf6e1d9b42e8c5f5650823dd5230a8d4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:44 +0000
Subject: [PATCH 07/32] fix: fail when the configuration file cannot be read

It was ignored silently and the default settings were used, including the
output directory, which is deleted at the start of a run.
---
 utilities/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/config.py b/utilities/config.py
index c6c3eae..aba63d8 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -42,7 +42,8 @@ class _ConfigParser(RawConfigParser):
         Read the specified config file if not read already
         """
         if not self.readonce:
-            self.read(self.config_file)
+            with open(self.config_file) as config_file:
+                self.read_file(config_file)
             self.readonce = True
 
     def set_config_file(self, config_file):
-- 
2.43.0


From fdf97741ef5ea85cf24b3a972eec429503acb4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:44 +0000
Subject: [PATCH 08/32] fix: keep a singleton instance whose truth value is
 false

---
 utilities/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5c29cfc..628345a 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -25,9 +25,9 @@ class Singleton(type):
         return super(Singleton, cls).__new__(cls, name, bases, dct)
 
     def __call__(cls, *args, **kwargs):
-        if not cls._instance_for_singleton_ssfusousoifusos:
+        if cls._instance_for_singleton_ssfusousoifusos is None:
             with cls._lock_for_singleton_ssfusousoifusos:
-                if not cls._instance_for_singleton_ssfusousoifusos:
+                if cls._instance_for_singleton_ssfusousoifusos is None:
                     cls._instance_for_singleton_ssfusousoifusos = \
                         super(Singleton, cls).__call__(*args, **kwargs)
         return cls._instance_for_singleton_ssfusousoifusos
-- 
2.43.0


From 6b0e4962aba5acff436dd746bbfc85925bbf65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:44 +0000
Subject: [PATCH 09/32] fix: save every variable of a grid, not only the first

---
 utilities/nctools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 791d048..a299cd0 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,16 +281,17 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
+    ncobj.setncatts(gatts)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From b91187728b05122887329e8e2b56264185955e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 10/32] fix: tiles do not overlap where a buffer reaches the
 raster edge

The last tile but one was extended to the edge if the edge lay within its
buffer, and several tiles got the same name if the buffer exceeded a tile.
---
 all_multipliers.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 04dc8cd..3d1490a 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -167,25 +167,12 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        i, j = divmod(k, self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        y1 = j * self.y_step
+        x2 = min(x1 + self.x_step, self.x_dim)
+        y2 = min(y1 + self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 8c9cef61f651b451768eb15e94be616abcff36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 11/32] fix: do not skip tiles whose checksum happens to be
 zero

The checksum truncates the elevations to integers and is taken modulo
65536, so tiles with data were dropped, e.g. below half a metre.
---
 all_multipliers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 3d1490a..6413978 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -364,8 +364,7 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # if the elevation data of the tile are not all zero, go ahead
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -378,7 +377,7 @@ class Multipliers(object):
         checksum = band.Checksum()
         log.info(f'This DEM tile checksum is {str(checksum)}')
 
-        if checksum > 0:
+        if np.nan_to_num(band.ReadAsArray()).any():
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From ce93045066a655d704ff711af9c2399e27da2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 12/32] fix: finish the conversion when there is no tile to
 convert

---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index b87a396..4c56a01 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -38,12 +38,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From 41abecfb47afb7740d3204f0156c7b1f8161c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 13/32] fix: replace a missing layer by ones for any layer and
 tile shape

The conversion failed if the first layer was the missing one or the tile
was not square.
---
 utilities/convert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..558e8ab 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -121,16 +120,12 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From c387674c47f927f50e4111254d228bd192e4aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 14/32] fix: write the maximum as the single band of its raster

---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 558e8ab..4a80d9f 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 39de30034a496e4e994febbd39c4475fe175e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 15/32] fix: mark cells without data in the combined rasters

The product of a missing and a valid value was written as if it were data.
---
 utilities/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/convert.py b/utilities/convert.py
index 4a80d9f..2d00f57 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -127,6 +127,8 @@ class Converter:
 
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
+            multiplied = ma.array(
+                ma.masked_invalid(multiplied).filled(self.missing_value))
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
-- 
2.43.0


From 1aabe63fd0b2055c7e6b3c734ca2de809736029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 16/32] fix: georeference layers with a single row or column

GDAL cannot derive the geotransform of such a layer from its coordinates,
so the tile was missing from the mosaics and flipped.
---
 shielding/shield_mult.py |  3 ++-
 terrain/terrain_mult.py  |  3 ++-
 topographic/topo_mult.py |  3 ++-
 utilities/nctools.py     | 18 ++++++++++++++++--
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 9f381ad..3170cb4 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -325,7 +325,8 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         result_nobuffer = clip_array(result, x_left, y_upper, pixelwidth,
                                      pixelheight, tile_extents_nobuffer)
 
-        save_multiplier('Ms', result_nobuffer, lat, lon, tile_nc)
+        save_multiplier('Ms', result_nobuffer, lat, lon, tile_nc,
+                        (pixelwidth, pixelheight))
 
         del result
 
diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index acbeebc..61e5f61 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -145,7 +145,8 @@ def terrain(temp_tile, tile_extents_nobuffer):
         outdata_nobuffer = clip_array(outdata, x_left, y_upper, pixelwidth,
                                       pixelheight, tile_extents_nobuffer)
 
-        save_multiplier('Mz', outdata_nobuffer, lat, lon, tile_nc)
+        save_multiplier('Mz', outdata_nobuffer, lat, lon, tile_nc,
+                        (pixelwidth, pixelheight))
 
         del outdata
 
diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..776c382 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -145,7 +145,8 @@ def topomult(input_dem, tile_extents_nobuffer):
         mhsmooth_nobuffer = clip_array(mhsmooth, x_left, y_upper, pixelwidth,
                                        pixelheight, tile_extents_nobuffer)
 
-        save_multiplier('Mt', mhsmooth_nobuffer, lat, lon, tile_nc)
+        save_multiplier('Mt', mhsmooth_nobuffer, lat, lon, tile_nc,
+                        (pixelwidth, pixelheight))
         del mhsmooth
 
         log.info('Finished direction {0}'.format(direction))
diff --git a/utilities/nctools.py b/utilities/nctools.py
index a299cd0..b482020 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -6,6 +6,7 @@ import sys
 import logging
 import os
 from netCDF4 import Dataset
+from osgeo import osr
 import numpy as np
 import time
 import getpass
@@ -294,7 +295,8 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
         return
 
 
-def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
+def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name,
+                    pixelsize=None):
     """
     Save multiplier data to a netCDF file.
 
@@ -303,6 +305,8 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
     :param lat: :class:`numpy.ndarray` containing latitude values
     :param lon: :class:`numpy.ndarray` containing longitude values
     :param nc_name: `string` the netcdf file name
+    :param pixelsize: `tuple` the pixel width and height. The coordinates of a
+                      single row or column alone do not tell its extent.
 
     """
     direction = os.path.splitext(nc_name)[0][-2:]
@@ -400,7 +404,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                 ' multiplier values for each grid',
                 'actual_range': (np.nanmin(multiplier_values),
                                  np.nanmax(multiplier_values)),
-                'grid_mapping': 'WGS-1984'
+                'grid_mapping': 'crs'
             }
         },
         1: {
@@ -417,6 +421,16 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
         }
     }
 
+    if pixelsize is not None:
+        width, height = pixelsize
+        geotransform = (lon[0] - 0.5 * width, width, 0.0,
+                        lat[0] + 0.5 * height, 0.0, -height)
+        srs = osr.SpatialReference()
+        srs.ImportFromEPSG(4326)
+        variables[1]['atts']['spatial_ref'] = srs.ExportToWkt()
+        variables[1]['atts']['GeoTransform'] = ' '.join(
+            str(float(x)) for x in geotransform)
+
     nc_save_grid(nc_name,
                  dimensions, variables,
                  nodata=-9999,
-- 
2.43.0


From af77f94e378558d1792be0e173f2b4a7a5ca6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:12 +0000
Subject: [PATCH 17/32] fix: pixel sizes of tiles with one or two rows or
 columns

The grid was bisected into blocks of one cell, which gave NaN or failed,
and the run with it.
---
 utilities/blrb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..1b20fd2 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -49,8 +49,8 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
@@ -189,7 +189,7 @@ def interpolate_grid(depth=0, origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE,
     assert eval_func is not None
     assert grid is not None
 
-    if depth == 0:
+    if depth == 0 or min(shape) < 3:
         interpolate_block(origin, shape, eval_func, grid)
     else:
         blocks = subdivide(origin, shape)
-- 
2.43.0


From bbd9448ac59e01ad4a40f71d35e5c5f005879109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 18/32] fix: join shapes with shapely 2

STRtree.query returns indices since then, which ended pre-processing with
a TypeError.
---
 utilities/shapefiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..fa68de6 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -74,8 +74,10 @@ class shp_file:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the query returns geometries up to shapely 1.8, then indices
+            fids = [index_by_id.get(id(pt), pt)
+                    for pt in idx_other.query(poly)]
+            fids = [id_ for id_ in fids if poly.intersects(other.geom[id_])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From 1375861189f686a35546197b9fa154defb42b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:43 +0000
Subject: [PATCH 19/32] fix: notice a full disk when rasters and mosaics are
 written

Errors of the implicit flush when GDAL datasets are deleted are not raised,
so a run over truncated rasters ended with a success status.
---
 all_multipliers.py       |  6 ++++--
 shielding/shield_mult.py |  1 +
 utilities/mpi_runner.py  | 14 ++++++++------
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 6413978..21943a9 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -348,7 +348,8 @@ class Multipliers(object):
         # Do the work
         gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)
 
-        del dst  # Flush
+        dst.FlushCache()  # raises an error if the disk is full
+        del dst
 
         return
 
@@ -648,7 +649,8 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)
 
-    del dst  # Flush
+    dst.FlushCache()  # raises an error if the disk is full
+    del dst
     if type(match_filename) == str:
         del match_ds
     if type(src_file) == str:
diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 3170cb4..bf0a53c 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -235,6 +235,7 @@ def terrain_class2ms_orig(terrain):
     outband_ms_orig.FlushCache()
     outband_ms_orig.SetNoDataValue(-99)
     outband_ms_orig.GetStatistics(0, 1)
+    ms_orig_ds.FlushCache()
 
     terrain_resample_ds = None
 
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 4c56a01..e5ea63a 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -44,12 +44,14 @@ def parallelise_convert_on_tiles(data_path, comm):
                                           total + element[1], results, [])
         if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            gdal.BuildVRT(os.path.join(data_path, 'M3',
-                                       'wind-multipliers.vrt'),
-                          tile_files)
-            gdal.BuildVRT(os.path.join(data_path, 'M3_max',
-                                       'wind-multipliers.vrt'),
-                          max_tile_files)
+            vrt = gdal.BuildVRT(os.path.join(data_path, 'M3',
+                                             'wind-multipliers.vrt'),
+                                tile_files)
+            vrt.FlushCache()  # raises an error if the disk is full
+            vrt = gdal.BuildVRT(os.path.join(data_path, 'M3_max',
+                                             'wind-multipliers.vrt'),
+                                max_tile_files)
+            vrt.FlushCache()
         else:
             log.warning("No raster file found to build virtual raster table")
 
-- 
2.43.0


From 1d6a8bfc886174a7a9c23f58f6cfabbb4e22e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:16 +0000
Subject: [PATCH 20/32] fix: notice a full disk when the category map is
 rasterised

---
 pre_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 7b45e46..37cb036 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -13,6 +13,8 @@ from osgeo import ogr, gdal
 import numpy as np
 
 
+gdal.UseExceptions()
+
 logger = logging.getLogger('shapefile converter')
 logger.setLevel(logging.DEBUG)
 # create file handler which logs even debug messages
@@ -79,6 +81,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
                         source_layer, options=["ATTRIBUTE=CAT"])
+    target_ds.FlushCache()  # raises an error if the disk is full
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
-- 
2.43.0


From fb58d4641091fc14d85d2f717b8866201d3fdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:56 +0000
Subject: [PATCH 21/32] fix: start every direction from the initial shielding
 factor on coarse grids

Without convolution the array was shared by the eight directions, so the
slope and conservatism corrections of one direction leaked into the next.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index bf0a53c..03f1205 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -307,7 +307,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From 77eb92ca9efb79cdf0165acba4d28024c96d5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 22/32] fix: accept elevation rasters of integers

NaN cannot be stored in the array of an Int32 tile, so the topographic
multiplier of every tile failed.
---
 topographic/topo_mult.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 776c382..a9d6c29 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -61,6 +61,8 @@ def topomult(input_dem, tile_extents_nobuffer):
 
     band = ds.GetRasterBand(1)
     elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    if not np.issubdtype(elevation_array.dtype, np.floating):
+        elevation_array = elevation_array.astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From 731042b4f37d231dced4cd47ced1aa71b0f98689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:03 +0000
Subject: [PATCH 23/32] fix: notice a full disk when layers are saved

---
 utilities/nctools.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index b482020..10176a1 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -234,7 +234,15 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
     """
 
     try:
-        ncobj = Dataset(filename, 'w', format='NETCDF3_CLASSIC', clobber=True)
+        if keepfileopen:
+            ncobj = Dataset(filename, 'w', format='NETCDF3_CLASSIC',
+                            clobber=True)
+        else:
+            # Build the file in memory: the netCDF library does not report
+            # every failing write (e.g. when the disk is full)
+            open(filename, 'wb').close()
+            ncobj = Dataset(filename, 'w', format='NETCDF3_CLASSIC',
+                            memory=1)
     except IOError:
         raise IOError("Cannot open {0} for writing".format(filename))
 
@@ -291,7 +299,9 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
     if keepfileopen:
         return ncobj
     else:
-        ncobj.close()
+        contents = ncobj.close()
+        with open(filename, 'wb') as ncfile:
+            ncfile.write(contents)
         return
 
 
-- 
2.43.0


From 0152a00a2836d32c411abf21a345a024c5822ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:06 +0000
Subject: [PATCH 24/32] fix: refuse values of another shape when a grid is
 saved

---
 utilities/nctools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 10176a1..0d002d6 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -287,6 +287,11 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
                                    fill_value=nodata)
 
         if (writedata and v['values'] is not None):
+            if v['values'].shape != var.shape:
+                # Values would be repeated to fill the variable
+                ncobj.close()
+                raise ValueError("Mismatch between shape of "
+                                 "variable and dimensions")
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-- 
2.43.0


From c2628ef0ac9e413a93268f850c97266ae6ebc1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:16 +0000
Subject: [PATCH 25/32] fix: notice a full disk when the empty parts of the
 category map are written

GDAL writes them when the dataset is closed and raises no error there.
---
 pre_process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 37cb036..9067af7 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -83,6 +83,13 @@ def rasterize(input, output, input_topo, crop_topo):
                         source_layer, options=["ATTRIBUTE=CAT"])
     target_ds.FlushCache()  # raises an error if the disk is full
 
+    # Parts without features are only written when the dataset is closed,
+    # which raises no error: read the map back.
+    band = None
+    target_ds = None
+    target_ds = gdal.Open(output)
+    target_ds.GetRasterBand(1).Checksum()
+
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
                 crop_mask_file, output_shapefile):
-- 
2.43.0


From 1827913bcc9a0f91946dd8b63e8c23961b34fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 26/32] fix: crop shapes that also touch the edge of the mask

Their intersection with the mask holds lines or points besides polygons,
and saving it failed.
---
 utilities/shapefiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index fa68de6..e0b844d 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -60,6 +60,10 @@ class shp_file:
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
             if result.area:
+                if result.geom_type == 'GeometryCollection':
+                    # shapefiles hold polygons only: leave out the lines and
+                    # points where the shape touches the box
+                    result = unary_union([g for g in result.geoms if g.area])
                 clip_geom.append(result)
                 clip_attribute.append(self.attribute[idx])
         self.geom = clip_geom
-- 
2.43.0


From a812c113e411cd12f0d09adabf0d10a5b744f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 27/32] fix: notice a full disk when the pre-processed
 attributes are written

The last records of the attribute table were lost without an error, and the
map showed no category.
---
 pre_process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 9067af7..4c0a4b8 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -190,6 +190,13 @@ def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
 
     land_use.save(output_shapefile)
 
+    # A full disk may go unnoticed while the attributes are written.
+    saved = shp_file()
+    saved.read(output_shapefile)
+    if [a.get("CAT") for a in saved.attribute] != \
+            [a["CAT"] for a in land_use.attribute]:
+        raise IOError("%s could not be written completely" % output_shapefile)
+
 
 def cmd_line():
     from argparse import ArgumentParser
-- 
2.43.0


From aa77e686eaa4ed2264a0f2ac3c2c0f647e2f2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 28/32] fix: notice a full disk when rasters are cropped

---
 rasterize.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/rasterize.py b/rasterize.py
index 5426886..e0d7986 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -26,6 +26,29 @@ def cmdline():
     return args.parse_args()
 
 
+def crop(output, source, mask):
+    """
+    Crop a raster on a mask
+
+    :param output: name/path of the cropped raster
+    :param source: name/path of the raster
+    :param mask: name/path of the shapefile to crop on
+
+    """
+    write_topo = gdal.Warp(output,
+                           source,
+                           cutlineDSName=mask,
+                           cropToCutline=True,
+                           dstNodata=0)
+    checksum = write_topo.GetRasterBand(1).Checksum()
+
+    # A full disk may go unnoticed when the dataset is closed: read it back.
+    write_topo = None
+    write_topo = gdal.Open(output)
+    if write_topo.GetRasterBand(1).Checksum() != checksum:
+        raise IOError("%s could not be written completely" % output)
+
+
 if __name__ == "__main__":
     arg = cmdline()
     print(arg)
@@ -35,19 +58,9 @@ if __name__ == "__main__":
         root, ext = splitext(arg.topography)
         topofile = root + "_crop" + ext
         # crop topography
-        write_topo = gdal.Warp(topofile,
-                               arg.topography,
-                               cutlineDSName=arg.crop,
-                               cropToCutline=True,
-                               dstNodata=0)
-        write_topo = None
+        crop(topofile, arg.topography, arg.crop)
     else:
         topofile = arg.topography
     rasterize(arg.input, "test.tiff", topofile, True)
     if arg.crop:
-        write_topo = gdal.Warp("test_crop.tiff",
-                               "test.tiff",
-                               cutlineDSName=arg.crop,
-                               cropToCutline=True,
-                               dstNodata=0)
-        write_topo = None
+        crop("test_crop.tiff", "test.tiff", arg.crop)
-- 
2.43.0


From 14d875db8295f682000714fac193aed6c9dcba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 29/32] fix: keep logs that lie inside the output directory

The output directory was re-created after the log files in it had been
opened, so the records were lost; with several processes re-creating it
could also fail because another process put its log there.
---
 all_multipliers.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 21943a9..299c621 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -550,8 +550,6 @@ def do_output_directory_creation(output):
     :raises OSError: If the directory tree cannot be created.
 
     """
-    log.info('Output will be stored under %s', output)
-
     subdirs_1 = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']
 
     if os.path.exists(output):
@@ -711,15 +709,6 @@ def run():
     upwind_length = float(config.get('inputValues', 'upwind_length'))
 
     logfile = config.get('Logging', 'LogFile')
-    logdir = dirname(realpath(logfile))
-
-    # If log file directory does not exist, create it
-    if not isdir(logdir):
-        try:
-            os.makedirs(logdir, exist_ok=True)
-        except OSError:
-            logfile = pjoin(os.getcwd(), 'multipliers.log')
-
     loglevel = config.get('Logging', 'LogLevel')
 
     if args.verbose:
@@ -733,6 +722,22 @@ def run():
     atexit.register(MPI.Finalize)
     comm = MPI.COMM_WORLD
 
+    # The log may lie inside the output directory: re-create that first
+    global output_folder
+    output_folder = config.get('Output', 'output_dir')
+    do_output_directory_creation(output_folder)
+
+    comm.barrier()
+
+    logdir = dirname(realpath(logfile))
+
+    # If log file directory does not exist, create it
+    if not isdir(logdir):
+        try:
+            os.makedirs(logdir, exist_ok=True)
+        except OSError:
+            logfile = pjoin(os.getcwd(), 'multipliers.log')
+
     if comm.size > 1 and comm.rank > 0:
         logfile += '_' + str(comm.rank)
         verbose = False
@@ -741,13 +746,11 @@ def run():
 
     fl_start_log(logfile, loglevel, verbose)
 
-    # set input maps and output folder
+    # set input maps
     terrain_map = config.get('inputValues', 'terrain_data')
     dem = config.get('inputValues', 'dem_data')
 
-    global output_folder
-    output_folder = config.get('Output', 'output_dir')
-    do_output_directory_creation(output_folder)
+    log.info('Output will be stored under %s', output_folder)
 
     log.info("get the tiles based on the DEM")
     tg = TileGrid(upwind_length, dem)
-- 
2.43.0


From f4b44e0b38edb0fb566ec6be78281301254fd573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 30/32] fix: refuse an output directory that holds the inputs

Re-creating the output directory deleted the rasters, the table, the
configuration, the start directory or the program if they lay inside it.
---
 all_multipliers.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 299c621..1d46b53 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -541,6 +541,21 @@ def timer(f):
     return wrap
 
 
+def check_output_directory(output, inputs):
+    """
+    Make sure that re-creating the output directory deletes no input.
+
+    :param output: `string` Output directory
+    :param inputs: list of files and directories that must be kept
+    :raises OSError: If one of them lies inside the output directory.
+
+    """
+    output = realpath(output)
+    for path in inputs:
+        if os.path.commonpath([output, realpath(path)]) == output:
+            raise OSError(f'The output directory {output} holds {path}')
+
+
 @disable_on_workers
 def do_output_directory_creation(output):
     """
@@ -722,11 +737,17 @@ def run():
     atexit.register(MPI.Finalize)
     comm = MPI.COMM_WORLD
 
-    # The log may lie inside the output directory: re-create that first
+    # set input maps and output folder
+    terrain_map = config.get('inputValues', 'terrain_data')
+    dem = config.get('inputValues', 'dem_data')
     global output_folder
     output_folder = config.get('Output', 'output_dir')
-    do_output_directory_creation(output_folder)
+    check_output_directory(output_folder, [
+        __file__, os.getcwd(), config.config_file, terrain_map, dem,
+        config.get('inputValues', 'terrain_table')])
 
+    # The log may lie inside the output directory: re-create that first
+    do_output_directory_creation(output_folder)
     comm.barrier()
 
     logdir = dirname(realpath(logfile))
@@ -746,10 +767,6 @@ def run():
 
     fl_start_log(logfile, loglevel, verbose)
 
-    # set input maps
-    terrain_map = config.get('inputValues', 'terrain_data')
-    dem = config.get('inputValues', 'dem_data')
-
     log.info('Output will be stored under %s', output_folder)
 
     log.info("get the tiles based on the DEM")
-- 
2.43.0


From 459563fd0ad65ed4194db11c1c31a7690746aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 31/32] fix: save a file whose name has no directory

fl_save_file failed in os.makedirs('') for a name without a directory.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 18f7ab6..b23c864 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -121,7 +121,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From 356a67797d04223a373101d46cbac2727930aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 32/32] fix: processes may save into the same new directory

fl_save_file failed in a process that lost the race to create the
directory.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index b23c864..8834b4c 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -122,7 +122,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
 
     directory, fname = os.path.split(filename)
     if directory and not os.path.isdir(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     try:
         np.savetxt(filename, data, header=header, delimiter=delimiter,
-- 
2.43.0

