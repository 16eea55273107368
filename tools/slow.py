#!/usr/bin/env python3
"""the most expensive families of a property's last run"""
import json,sys
e=json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
for f in sorted(e["coverage"]["families"],key=lambda f:-f["cpu_s"])[:int(sys.argv[2]) if len(sys.argv)>2 else 8]:
    print(f'{f["cpu_s"]:8.2f} {f["cases_run"]:9} {f["family"]}')
