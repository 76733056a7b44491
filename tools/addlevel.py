"""addlevel.py ID TECHNIQUE NOTE: add or replace an entry of levels.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json")
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
with open(p, "w") as f:
    f.write("{\n" + ",\n".join(f"{json.dumps(k)}: [\n{json.dumps(v[0])},\n{json.dumps(v[1])}\n]" for k, v in sorted(d.items())) + "\n}\n")
