"""python3 replay.py <replay file>: re-executes the recorded violation; exit 1 when it reproduces, 0 when it is gone."""
import importlib, json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine

with open(sys.argv[1]) as fh:
    r = json.load(fh)
prop = importlib.import_module(r["module"]).PROPS[r["property"]]
built = build.build(prop.libs("quick"))
root = engine.scratch()
try:
    o = engine.run_case(prop, r["case"], built, root)
finally:
    shutil.rmtree(root, ignore_errors=True)
if o.get("error"):
    print(o["error"])
    sys.exit(2)
if not o["fail"]:
    print("not reproduced: the property held")
    sys.exit(0)
print("%s: %s" % (o["fail"]["cls"], o["fail"]["text"]))
same = o["fail"]["cls"] == r["violation"]["cls"] and o["fail"]["text"] == r["violation"]["text"] and o["hashes"] == r["event_hashes"]
print("identical to the recording" if same else "same seed and trace, different observation (the code under test has changed)")
print("VIOLATION property=%s replay=%s" % (r["property"], sys.argv[1]))
sys.exit(1)
