"""Set-up of a worker process: staged sources, warm libraries, seams, unprivileged user."""
import gc
import os
import shutil
import sys

SKIP = {".git", "tests", "docs", "__pycache__", ".github", ".idea", "build", ".pytest_cache"}


def stage(repo, dest):
    """Copy the sources under test to a place an unprivileged user may read."""
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in SKIP)
        rel = os.path.relpath(root, repo)
        to = os.path.normpath(os.path.join(dest, rel))
        os.makedirs(to, exist_ok=True)
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            if f.endswith((".py", ".cfg", ".csv", ".so")) and os.path.getsize(p) < 5_000_000:
                shutil.copyfile(p, os.path.join(to, f))
                os.utime(os.path.join(to, f), (1_600_000_000, 1_600_000_000))
    for root, dirs, files in os.walk(dest):
        os.chmod(root, 0o755)
        for f in files:
            os.chmod(os.path.join(root, f), 0o644)


def drop_privileges(uid=65534):
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)


ENV = {"OMP_NUM_THREADS": "1", "NUMEXPR_MAX_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "GDAL_NUM_THREADS": "1", "TZ": "AEST-10",
       "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "CPL_LOG": "/dev/null", "PYTHONDONTWRITEBYTECODE": "1"}


def warm(scratch, shapefiles=False):
    """Import every library once, before any simulation."""
    import argparse, atexit, configparser, datetime, getpass, glob, hashlib, inspect, shutil, subprocess   # noqa
    import tempfile, time, traceback, concurrent.futures, concurrent.futures.thread, queue, json, pickle   # noqa
    import logging.config, logging.handlers, xml.etree.ElementTree                                         # noqa
    import numpy, numpy.ma, numexpr, scipy.ndimage, scipy.signal, scipy.interpolate, pandas                # noqa
    import netCDF4                                                                                         # noqa
    from osgeo import gdal, gdal_array, gdalconst, ogr, osr, gdalnumeric                                   # noqa
    if shapefiles:
        import multiprocessing.pool, multiprocessing.connection, multiprocessing.util                      # noqa
        import fiona, shapely, shapely.geometry, shapely.ops, shapely.strtree, rtree                       # noqa
    import warnings
    warnings.simplefilter("ignore")
    gdal.AllRegister()
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = False
    from . import seams
    seams.install()
    if shapefiles:
        seams.install_fiona()
    gc.collect()
    gc.freeze()
    gc.disable()


def quiet_fd2(path):
    """Messages that C libraries print go to a file."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 2)
    os.close(fd)
