"""Writes /verif/properties.jsonl (kept as code so that the text stays easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


p("W01", "Every tile is computed exactly once, in its own place",
  "For any valid elevation and land-cover rasters, process count and message order, every run in which no operation fails completes and has computed each tile of the elevation grid exactly once: every tile whose elevation data are not all zero has exactly one layer per wind direction (8) for the shielding and topographic multipliers, and for the terrain multiplier too if any land cover in the tile or its buffer is classified. Together the layers' cell centres cover the non-empty tiles of the elevation grid with no gap, overlap or shift, and no layer is written twice. Every layer holds the values of its own tile: a cell's values come from the elevation and land cover at that cell's own coordinates.",
  ["schedules", "inputs", "configurations"],
  "all raster sizes, pixel sizes, buffers, empty tiles, numbers of processes (fewer, as many and more than the tiles), all delivery orders and relative speeds of the processes",
  "The suite never runs the tiled driver: the tile grid, the master/worker hand-out and the clipping back to tile extents are only exercised as isolated helpers with one process.",
  ["all_multipliers.py", "utilities/nctools.py", "terrain/terrain_mult.py", "shielding/shield_mult.py", "topographic/topo_mult.py"],
  [("tile grid and extents", "all_multipliers.TileGrid"), ("master/worker hand-out", "all_multipliers.Multipliers.parallelise_on_tiles"), ("clip back to the tile", "utilities.nctools.clip_array")],
  [("w", "index of the next tile to hand out", "parallelise_on_tiles")],
  ["layer files below output_dir", "per-process logs"])

p("W02", "The maps do not depend on process count, scheduling or clocks",
  "For the same inputs and configuration every run in which no operation fails completes and produces the same set of layers, combined rasters and mosaics with identical cell values, georeferencing and no-data cells, whether it runs without MPI, as one process or as any number of processes. Message timing, which process gets which tile, the relative speed of the processes, directory-listing order, hash seeds and clock steps or skew make no difference. Only metadata that record the run itself (creation time, host details) may differ.",
  ["schedules", "configurations"],
  "all process counts, assignments of tiles to processes, delivery orders, send modes, listing orders, clock behaviours",
  "Tests run one process with the dummy communicator; an interleaving of two workers is never executed.",
  ["all_multipliers.py", "utilities/mpi_runner.py", "utilities/parallel.py", "utilities/convert.py", "shielding/shield_mult.py"],
  [("private per-tile temporary files", "Multipliers.cut_dem / multipliers_calculate"), ("barriers between the stages", "all_multipliers.run"), ("scatter of the tile list", "mpi_runner.parallelise_convert_on_tiles"), ("serial fall-back", "utilities.parallel.attempt_parallel")],
  [], ["files below output_dir"])

p("W03", "A fault-free run always finishes",
  "If no operation fails, every process of a run terminates normally after a bounded number of steps and the run reports completion, for any number of processes (also more processes than tiles, or a single tile), whether sends are buffered or wait for the receiver. All processes take part in the same collective operations in the same order and no message is left unreceived. The same holds for the stand-alone conversion command.",
  ["schedules", "configurations", "inputs"],
  "all process counts, tile counts (including none left to convert), delivery orders and MPI send modes",
  "The termination protocol only exists with more than one process; tests use one.",
  ["all_multipliers.py", "utilities/mpi_runner.py", "utilities/parallel.py"],
  [("stop message per worker", "parallelise_on_tiles"), ("terminated counter", "parallelise_on_tiles"), ("barriers", "all_multipliers.run"), ("scatter/gather", "parallelise_convert_on_tiles")],
  [("terminated / p", "workers told to stop / to wait for", "parallelise_on_tiles")],
  ["process exit", "MPI queues"])

p("W04", "A failure in one process ends the whole run",
  "If any process of a parallel run or of the stand-alone conversion fails at any point after start-up (an input cannot be read, a layer cannot be written, a tile cannot be computed), the whole run ends within a bounded number of steps with a failure status. No process keeps waiting for a message, barrier or collective that can never complete. The failing process leaves an error message or traceback.",
  ["fault_sequences", "schedules", "configurations"],
  "every operation of every process as the failing one, all process counts and schedules",
  "No test makes an operation fail while other processes wait.",
  ["all_multipliers.py", "utilities/mpi_runner.py", "utilities/parallel.py"],
  [("abort the communicator on an uncaught error", "utilities.parallel.abort_on_failure"), ("Finalize at exit", "all_multipliers.run")],
  [], ["exit status and blocked processes"])

p("W05", "Success is reported only for complete and correct output",
  "Whatever file-system, raster-library or disk-full faults occur, a run (or stand-alone conversion) that ends with a success status has produced all layers, combined rasters and mosaics with the values of a fault-free run. The only exceptions are a layer that cannot be opened during conversion, which is logged as an error and counts as 1.0, a temporary file that could not be deleted, and log lines. Every other fault makes the run end with a failure status.",
  ["fault_sequences", "schedules"],
  "every single, repeated and pair of faults at every intercepted operation (open, create, write, flush, remove, make directory, list, child process, communication) of every process, including short writes and full disk below the raster libraries",
  "Tests inject no faults.",
  ["all_multipliers.py", "utilities/nctools.py", "utilities/convert.py", "utilities/mpi_runner.py", "terrain/terrain_mult.py", "shielding/shield_mult.py", "topographic/topo_mult.py"],
  [("exceptions propagate to the process exit", "all_multipliers.run"), ("flush before hand-over", "Multipliers.clip_dataset, reproject_dataset"), ("fall-back to ones", "utilities.convert.Converter.process_tile")],
  [], ["exit status", "files below output_dir", "error log lines"])

p("W06", "Running again after a crash equals a clean run",
  "If a run is killed at any instant, leaving any partially written files behind, repeating the same command completes and leaves the output directory exactly as an uninterrupted run into a fresh directory would. The same holds when the output directory holds the results of an earlier run with other inputs: nothing of them survives in the new layers, combined rasters or mosaics.",
  ["crash_points", "histories", "schedules"],
  "every crash instant of every process count and schedule, torn, empty or missing versions of unsynced files, chains of crashes, earlier runs with other rasters",
  "No test runs the driver twice or interrupts it.",
  ["all_multipliers.py", "utilities/mpi_runner.py", "utilities/convert.py"],
  [("fresh output tree on the master before work starts", "all_multipliers.do_output_directory_creation"), ("barrier before the first tile", "all_multipliers.run")],
  [], ["files below output_dir"])

p("W07", "Combined rasters equal the product of the layers, mosaics hold every tile",
  "After conversion by any number of processes, every tile that has shielding layers has one combined raster with eight bands in the order e, n, ne, nw, s, se, sw, w, each cell being the product of that direction's shielding, terrain and topographic values, and one single-band raster holding the largest band value of each cell. A cell without data in any of the three layers is marked no-data (-9999) in that band, and the maximum is taken over the bands that have data. Both rasters lie at the layers' own coordinates and each mosaic file references every tile's raster exactly once and shows its values, with the same no-data value, in place.",
  ["schedules", "configurations", "inputs"],
  "all splits of the tile list over processes (also more processes than tiles, and no tiles), listing orders, tile shapes and no-data patterns",
  "The tests convert a single tile with one process and only check that files exist.",
  ["utilities/convert.py", "utilities/mpi_runner.py"],
  [("round-robin split and scatter", "parallelise_convert_on_tiles"), ("gather and mosaic on the master", "parallelise_convert_on_tiles"), ("product and maximum", "Converter.process_tile / process_max_tile")],
  [("tiles[i::size]", "the share of each process", "parallelise_convert_on_tiles")],
  ["M3/*.tif, M3_max/*.tif, *.vrt"])

p("W08", "A missing or unreadable layer counts as 1.0 and affects nothing else",
  "If during conversion a layer of a tile cannot be opened, the conversion still completes, logs an error naming that file, and computes that tile's band as if the layer were 1.0 everywhere, for tiles of any shape. Every other band and every other tile is what it would have been with that layer present. This holds for any set of missing layers as long as the tile's northern shielding layer can be read; if that one cannot be opened for its coordinates the run fails instead of publishing a raster for that tile.",
  ["fault_sequences", "inputs", "schedules"],
  "all sets of missing, unreadable or non-NetCDF layer files, tile shapes and process counts",
  "No test removes a layer.",
  ["utilities/convert.py"],
  [("fall-back layer of ones", "Converter.process_tile"), ("error log", "Converter.process_tile")],
  [], ["M3/*.tif", "log"])

p("W09", "Conversion can be repeated and resumed",
  "Running the stand-alone conversion on a directory of layers gives the same combined rasters and mosaics however often it is run, with whatever process count, and whatever an earlier conversion that was killed at any instant left behind (missing directories, torn or empty rasters, stale or broken mosaic files). It never changes the layers it reads.",
  ["crash_points", "histories", "schedules"],
  "every crash instant, torn or garbage left-over, chain of re-runs and process count",
  "The tests delete the earlier output before converting.",
  ["utilities/mpi_runner.py", "utilities/convert.py"],
  [("create output sub-directories if absent", "create_sub_dirs_for_convert"), ("rebuild rasters and mosaics from the layers only", "Converter, parallelise_convert_on_tiles")],
  [], ["M3, M3_max and the layer directories"])

p("W10", "Nothing outside the output directory and the log file is touched",
  "At every instant of a run, also one that fails or is killed, the input rasters, the classification table, the configuration file, the start directory and every other file or directory outside the configured output directory keep their content; only the configured log files (or, if their directory cannot be created, log files in the start directory) are created. The stand-alone conversion changes nothing but the combined-raster directories. Re-creating the output directory removes only that directory; if it holds one of the inputs, the configuration file or the start directory, the run fails and deletes nothing.",
  ["fault_sequences", "crash_points", "schedules", "configurations"],
  "all configurations of paths, process counts, faults and crash instants; neighbouring files and directories with similar names or extensions",
  "Tests never run the code that deletes trees, changes directory or globs for files to delete.",
  ["all_multipliers.py", "shielding/shield_mult.py", "utilities/nctools.py", "utilities/convert.py"],
  [("removal limited to output_dir", "do_output_directory_creation"), ("clean-up limited to the tile's own files", "multipliers_calculate, convo_combine")],
  [], ["whole file tree around the output directory"])

p("W11", "A successful run leaves only results behind",
  "A run in which no operation fails completes, and the output directory then contains exactly the layer files, the combined rasters and the two mosaic files: no clipped elevation or land-cover tiles, intermediate shielding rasters or side-car files remain, for any process count and schedule and also for tiles that are skipped as empty. Temporary files of a tile are deleted only after that tile no longer needs them and never those of another tile.",
  ["schedules", "inputs", "configurations"],
  "all process counts, schedules, raster types and empty-tile patterns",
  "Tests never run the driver.",
  ["all_multipliers.py", "shielding/shield_mult.py"],
  [("delete clipped rasters after use", "multipliers_calculate"), ("delete intermediate raster and side-cars", "shield_mult.convo_combine")],
  [], ["listing of output_dir"])

p("W12", "Relative paths mean the start directory, for the whole run",
  "Every relative path in the configuration (output directory, rasters, table, log file) is resolved against the directory the command was started in, by every process and at every stage, so a run with relative paths completes and produces the same files in the same places as one with the equivalent absolute paths. Work on one tile never changes how later paths are resolved.",
  ["configurations", "schedules", "histories"],
  "all mixtures of relative and absolute paths, process counts, numbers of tiles per process, schedules",
  "Tests use absolute paths and a single call.",
  ["shielding/shield_mult.py", "utilities/nctools.py", "all_multipliers.py", "terrain/terrain_mult.py"],
  [("working directory is left alone", "convo_combine, save_multiplier")],
  [("current directory", "process-wide and used to resolve every relative path", "os.chdir calls")],
  ["output files", "current directory of each process"])

p("W13", "Each process logs to its own file at the configured place",
  "In any run the first process logs to the configured file and process r > 0 to the same name followed by _r, in the configured directory, which is created if it does not exist, whatever order the processes start in. Each file holds the start-up banner and, at the configured level and above, the records of that process only. If the directory cannot be created, the log goes to a file in the start directory instead (still a separate file per process) and the run continues.",
  ["schedules", "configurations", "fault_sequences"],
  "all process counts, start-up interleavings, existing, missing, nested and uncreatable log directories",
  "Logging set-up is not tested and start-up races need several processes.",
  ["all_multipliers.py", "utilities/files.py"],
  [("create the directory, tolerate losing the race", "all_multipliers.run, files.fl_start_log"), ("per-process suffix", "all_multipliers.run")],
  [], ["log files"])

p("W14", "Every process works from the given configuration or stops",
  "A process that is given a configuration file uses its settings for output, inputs and logging; if that file cannot be read in that process, the process fails before it creates, deletes or computes anything instead of continuing with default or other settings. A classification table or raster that cannot be read when needed likewise ends the run with a failure status.",
  ["fault_sequences", "configurations", "schedules"],
  "missing, unreadable or transiently unreadable configuration, table and rasters in any subset of the processes",
  "Tests read the default configuration only.",
  ["utilities/config.py", "all_multipliers.py", "terrain/terrain_mult.py", "shielding/shield_mult.py"],
  [("read of the configuration file", "utilities.config"), ("failing reads propagate", "get_terrain_table, get_shielding_table, TileGrid, open_dem")],
  [], ["exit status", "file tree"])

p("W15", "Provenance is recorded, and failing to obtain it never costs data",
  "Every layer file records the inputs, every option of the configuration, the code version from git, the local time at which it was saved by the clock of the saving process, and the multiplier and wind direction it holds. If the git version cannot be obtained (git missing, not a git checkout, no tag, git fails or is killed) the run still completes and the layer is written with identical data and the version marked unknown. Obtaining it never changes the current directory seen by later operations.",
  ["fault_sequences", "schedules", "configurations"],
  "every failure mode of the version query at any layer of any process; clock steps and skew between processes; all configurations",
  "save_multiplier is not covered by any test.",
  ["utilities/nctools.py", "utilities/files.py"],
  [("global attributes", "nctools.save_multiplier"), ("git query", "nctools.save_multiplier")],
  [], ["NetCDF attributes"])

p("W16", "A saved grid is complete, or the save fails",
  "When saving a grid returns normally, the file holds every dimension and every variable that was passed, with their values, types, missing value, and attributes, plus the global attributes and title; any failure of the storage layer at any step is raised to the caller instead. An earlier file of that name is replaced, never merged with, and no title of another save gets into the file. After either outcome no handle on the file stays open unless the caller asked to keep it.",
  ["fault_sequences", "inputs"],
  "failure of every single storage operation during a save; all dimension and variable dictionaries, with and without an older file in place",
  "No test writes a NetCDF file.",
  ["utilities/nctools.py"],
  [("write dimensions, variables, attributes, close", "nctools.nc_save_grid / nc_create_dim / nc_create_var")],
  [], ["NetCDF file", "open handles"])

p("W17", "At most one instance of a singleton class exists",
  "However many threads first request an instance of a singleton class at the same time, under every interleaving exactly one instance is constructed, its constructor completes before any caller gets it, and every caller gets that same instance; different singleton classes have independent instances. If the constructor raises, the caller that ran it sees the exception, no half-built instance is published and a later request may construct it.",
  ["schedules", "fault_sequences"],
  "all interleavings of any number of threads at statement granularity; constructors that fail, instances of any truth value; several classes",
  "There is no test of it; a race needs a particular interleaving.",
  ["utilities/meta.py"],
  [("double-checked locking", "meta.Singleton.__call__")],
  [("per-class instance and lock", "published instance", "meta.Singleton.__new__")],
  ["returned objects", "constructor calls"])

p("W18", "The land-use/settlement join does not depend on thread scheduling",
  "Under every interleaving of the worker threads, joining land-use features with settlement areas gives each land-use feature the settlement attribute of the area that covers the largest part of it (none if it meets no area), and leaves the number, order, geometry and other attributes of the features unchanged. If the work for any feature fails, the join fails and no feature's attributes have been changed.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings of the pool's tasks at statement granularity, all pool sizes, feature sets (overlapping, touching, disjoint, multi-overlap), a failing geometry operation in any task",
  "No test covers pre-processing; thread interleavings are not controlled in tests.",
  ["utilities/shapefiles.py"],
  [("read-only tasks, results collected in order, attributes written afterwards", "shapefiles.shp_file.spatial_join")],
  [], ["joined attributes"])

p("W19", "Pre-processing is complete or fails, and keeps its inputs",
  "When pre-processing of settlement and land-use shapefiles ends normally, the output shapefile holds every land-use feature that has a geometry (cropped to the mask when one is given) exactly once with its geometry, its own attributes, the joined settlement type and the category code 100 x settlement code + land-use code, and the rasterised map shows that code on the grid of the elevation raster. If any read or write fails, pre-processing fails. It never modifies the input shapefiles, and repeating it after a failure or crash gives the same output as a first run, unless it fails because the interrupted run left damaged output files.",
  ["fault_sequences", "crash_points", "histories", "schedules"],
  "failure of any read, feature write or close, crash and re-run over left-overs, all thread interleavings of the join",
  "No test covers pre-processing.",
  ["pre_process.py", "utilities/shapefiles.py"],
  [("read, dissolve, crop, join, save", "pre_process.pre_process, shapefiles.shp_file")],
  [], ["output shapefile", "input shapefiles"])

p("W20", "Rasterising is complete or fails, and keeps its inputs",
  "When rasterize.py ends normally, test.tiff in the start directory shows, on the grid of the elevation raster, the category code (CAT) of the feature that covers the centre of each cell, and 0 where none does. With a crop mask, <elevation raster>_crop holds the elevations of the cells under the mask, and 0 elsewhere and where there is no elevation (cells on the mask's edge may be either), test.tiff is on that grid, and test_crop.tiff holds the same codes under the mask and 0 elsewhere. If any read or write fails, rasterising fails. It never modifies the shapefile, the mask or the elevation raster, and repeating it after a failure or crash gives the same rasters as a first run, unless it fails because of damaged files left by the interrupted run.",
  ["fault_sequences", "crash_points", "histories"],
  "failure of any open, read, write, flush or close (including short writes inside the raster library), crash at any operation and re-run over left-overs of this or another run",
  "No test covers rasterising.",
  ["rasterize.py", "pre_process.py"],
  [("crop", "rasterize.crop"), ("categories on a grid", "pre_process.rasterize")],
  [], ["test.tiff", "test_crop.tiff", "<elevation>_crop"])

p("W21", "File helpers give complete results or fail",
  "When fl_save_file returns normally, the file holds the header and every value in the given format (any file of that name is replaced, a missing directory is created, also when several processes save into the same new directory at the same time, and the name may have no directory). fl_load_file returns every value of the file; fl_get_stat returns its directory, name, the MD5 sum of its whole contents and its modification time; fl_size and fl_mod_date return its size and date. If a file operation fails, the helper raises an error instead of returning a partial result. Files that are read stay unchanged and no helper leaves its file open. fl_start_log replaces the log file or, if asked, appends to it (several processes may append to one file without losing records), writes the records at the given level and above, and puts a time stamp into the name only if asked.",
  ["fault_sequences", "schedules", "inputs"],
  "failure of any open, read, stat, write or directory operation in any call; all interleavings of processes that use the same directories and files; any values, formats and names",
  "Tests inject no faults, start no processes and do not cover these helpers.",
  ["utilities/files.py"],
  [("create the directory and save", "files.fl_save_file"), ("load", "files.fl_load_file"), ("describe", "files.fl_get_stat, fl_size, fl_mod_date"), ("log file", "files.fl_start_log")],
  [], ["files", "results and exceptions", "open descriptors"])

p("W22", "Open files and scratch files do not accumulate",
  "During a run or a stand-alone conversion, the number of files a process holds open and the number of scratch files it has on disk do not grow with the number of tiles it has handled: what was opened or written temporarily for a tile is closed and deleted before the process goes on with later tiles, also for tiles without data and for tiles whose layers are missing or unreadable.",
  ["histories", "schedules", "fault_sequences"],
  "any number of tiles, process count and schedule, any set of missing or damaged layers, empty and unclassified tiles",
  "Tests handle one tile and do not look at descriptors; a limit is met only after hundreds of tiles.",
  ["all_multipliers.py", "utilities/convert.py", "utilities/nctools.py", "terrain/terrain_mult.py", "shielding/shield_mult.py", "topographic/topo_mult.py"],
  [("close and delete the temporary rasters of a tile", "Multipliers.multipliers_calculate"), ("open the layers of a tile", "Converter.process_tile / process_max_tile")],
  [], ["open descriptors of each process", "files below output_dir while the run proceeds"])

na_text = "all inputs; no schedule, clock, fault or interleaving is involved"
na_why = "Tests sample a few hand-made arrays."
p("W30", "Terrain multipliers follow the class table and upwind averaging rule",
  "Each classified cell gets the terrain multiplier of its roughness length, and the directional value is the mean over the upwind averaging window beyond the lag distance, truncated at the tile edge.",
  ["inputs"], na_text, na_why, ["terrain/terrain_mult.py", "utilities/value_lookup.py"],
  [("reclassification", "terrain_class2mz_orig"), ("directional averaging", "convo")])
p("W31", "Shielding multipliers stay in range and react only to upwind slopes",
  "Initial shielding factors are averaged over the directional upwind kernel, lifted towards 1 on slopes facing the wind between 3.27 and 12.3 degrees, and reduced for conservatism; the result never exceeds 1.",
  ["inputs"], na_text, na_why, ["shielding/shield_mult.py"], [("kernels", "init_kern*, kern_*"), ("slope correction", "combine")])
p("W32", "Topographic multipliers are bounded and at least 1 before smoothing",
  "For every elevation profile the hill-shape multiplier lies between 1 and 1.71, equals 1 on flat or gently sloping ground, and peaks at ridges.",
  ["inputs"], na_text, na_why, ["topographic/mh.py", "topographic/multiplier_calc.py", "topographic/findpeaks.py", "topographic/make_path.py"], [("profile multiplier", "mh_calc"), ("ridges and valleys", "findpeaks")])
p("W33", "Ground distances follow the ellipsoid",
  "Pixel sizes in metres and distances between coordinates agree with the WGS-84 geodesic, and direct and inverse solutions invert each other.",
  ["inputs"], na_text, na_why, ["utilities/vincenty.py", "utilities/get_pixel_size_grid.py", "utilities/blrb.py"], [("geodesics", "vinc_dist / vinc_pt"), ("grid interpolation", "interpolate_grid")])
p("W34", "Tile borders are invisible when the buffer covers the upwind reach",
  "If the buffer is at least as long as the upwind reach of a multiplier, its value at a cell does not depend on how the raster is cut into tiles.",
  ["inputs", "configurations"], na_text, na_why, ["all_multipliers.py", "terrain/terrain_mult.py", "shielding/shield_mult.py", "topographic/topo_mult.py"], [("buffered tiles", "TileGrid.tile_grid")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
