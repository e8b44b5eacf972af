#!/bin/bash
# slowest shards of the last run of a check
/opt/venv/bin/python -c "
import json,sys;d=json.load(open('/verif/evidence/$1.json'));print(sorted(d['coverage']['shard_wall_s'],key=lambda t:-t[1])[:12]); print(d['coverage']['outcomes'])" | cut -c1-1500
