"""Run as the main program of a simulated process: computes given tiles one by one, outside the tiled driver."""
import json
import os
import sys

with open(sys.argv[1]) as fh:
    job = json.load(fh)
os.makedirs(job["dir"], exist_ok=True)
from utilities.config import configparser as config
config.set_config_file(job["config"])
import terrain.terrain_mult
import shielding.shield_mult
import topographic.topo_mult
for t in job["tiles"]:
    terrain.terrain_mult.terrain(t["lc"], t["extent"])
    shielding.shield_mult.shield(t["lc"], t["dem"], t["extent"])
    topographic.topo_mult.topomult(t["dem"], t["extent"])
