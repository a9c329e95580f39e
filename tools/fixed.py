#!/usr/bin/env python3
# Appends a "fixed" record: fixed.py PROPERTY COMMIT WHAT
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"entry":f"fixed: property={p} {c} {w}"})+"\n")
