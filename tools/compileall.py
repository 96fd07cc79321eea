"""compile every source of /repo with the stubs (development aid)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin"))
import wsymlib as w
import glob
b = w.Builder(os.path.join(w.BUILD, "run", "ALL"))
srcs = sorted(glob.glob(w.REPO + "/*.cpp") + glob.glob(w.REPO + "/util/*.cpp"))
import concurrent.futures as cf
def one(s):
    r = os.path.relpath(s, w.REPO)
    try:
        b.compile(r); return r, "ok"
    except w.CheckError as e:
        ls = [l for l in str(e).splitlines() if "error" in l]
        return r, "\n   ".join(ls[:6])
with cf.ThreadPoolExecutor(8) as ex:
    for r, x in ex.map(one, srcs):
        if x != "ok": print(r, x)
