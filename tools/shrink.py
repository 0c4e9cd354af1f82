"""shrink.py ID RESULT.json: shrink the violation of a concrete run (development aid)"""
import sys, json, importlib
sys.path[:0] = ["/verif", "/repo"]
sys.dont_write_bytecode = True
m = importlib.import_module("checks." + sys.argv[1])
d = json.load(open(sys.argv[2]))
v = d.get("violation") or d
o = getattr(m, v["oracle"])
def go(c):
    try:
        o(c)
    except Exception as e:
        return type(e).__name__, str(e)
c = v["case"]
k = go(c)
assert k, "not reproduced"
def kids(c):
    if isinstance(c, dict):
        for key in c:
            for w in kids(c[key]):
                yield dict(c, **{key: w})
            if key in ("set", "m", "rset"):
                for kk in c[key]:
                    yield dict(c, **{key: {a: b for a, b in c[key].items() if a != kk}})
    elif isinstance(c, list):
        n = len(c)
        for step in (n // 2, n // 4, 1):
            if step:
                for i in range(0, n, step):
                    yield c[:i] + c[i + step:]
        for i in range(n):
            if isinstance(c[i], (list, dict)):
                for w in kids(c[i]):
                    if isinstance(c[i], list) and len(w) != len(c[i]) and not isinstance(c[i][0], list): continue
                    yield c[:i] + [w] + c[i + 1:]
ch = True
n = 0
while ch and n < 20000:
    ch = False
    for w in kids(c):
        n += 1
        r = go(w)
        if r and r[0] == k[0]:
            c = w; ch = True
            break
print(json.dumps(c)); print(go(c)[1][:1500])
