"""
Validate the committed documents against the schemas (run with /opt/veriftools/pyvenv/bin/python).
"""
import json, os, re, sys
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
sch = json.load(open(S + "PROPERTIES.schema.json"))
for line in open(R + "/properties.jsonl"):
    d = json.loads(line)
    jsonschema.validate(d, sch)
    n = len(re.findall(r"\.(?= |$)", d["statement"].strip()))
    if n > 3 or len(d["title"]) > 80:
        print("too long", d["id"], n, len(d["title"]))
jsonschema.validate(json.load(open(R + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
es = json.load(open(S + "EVIDENCE.schema.json"))
for f in sorted(os.listdir(R + "/evidence")):
    if f.endswith(".json"):
        try:
            jsonschema.validate(json.load(open(R + "/evidence/" + f)), es)
        except Exception as ex:
            print(f, str(ex)[:300])
print("validated")
