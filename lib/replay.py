"""Re-execute the command log of a replay file: replay.py replays/X.json"""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, gendata
r = json.load(open(sys.argv[1]))
print(r["property"], r["key"], r["message"])
tmp = tempfile.mkdtemp(prefix="fisxr-")
try:
    sub = lambda o: json.loads(json.dumps(o).replace(json.dumps(r["scratch"] or "@none@")[1:-1], tmp))
    for (k, d) in r["datadirs"]:
        gendata.make(sub(d), k[0], **dict(k[1]))
    for n, c in r["files"].items():
        with open(os.path.join(tmp, n), "wb") as f:
            f.write(c.encode("latin-1"))
    d = drv.Driver("asan")
    last = None
    for c in sub(r["commands"]):
        try:
            last = d.raw([c])[0]
        except drv.Crash as e:
            print("CRASH on", json.dumps(c)[:500], e.what, "\n", e.report)
            break
    else:
        print("last command:", json.dumps(sub(r["commands"])[-1])[:1000] if r["commands"] else None)
        print("last answer:", json.dumps(last)[:2000])
    print("detail:", json.dumps(r["detail"])[:3000])
    d.close()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
