#!/usr/bin/env python3
# run.py N SEED LOG [FILE...]: mutates N random places of the given files of
# /repo (default: all), builds each mutant with an overlay, and runs the quick
# checks that concern the file, until one reports a violation.
import json, os, random, re, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(os.path.dirname(here))
repo = os.environ.get("VERIF_REPO", "/repo")
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", VERIF_DIR=top, VERIF_REPO=repo)
CHECKS = {
 "adjstoptimegrouper": "P20 P02", "agencyduplicateremover": "P08 P02", "completegeotripsfilter": "P19", "frequencyminizer": "P05 P02",
 "idminimizer": "P14 P15", "orphanminimizer": "P13 P02", "parentaverager": "P21", "platformcodedropper": "P21", "priorityqueue": "P22",
 "processor": "P02 P01", "routeduplicateremover": "P07 P02", "servicecaldatesremover": "P16 P02", "serviceduplicateremover": "P04 P02",
 "serviceminimizer": "P03 P02", "servicenonoverlapper": "P17 P02", "shapeduplicateremover": "P11 P02", "shapeidx": "P11", "shapeminimizer": "P10 P02",
 "shaperemeasurer": "P12 P23 P10", "shapesnapper": "P24", "stopclusteridx": "P22", "stopduplicateremover": "P09 P02", "stopparentenforcer": "P21",
 "stopreclusterer": "P22", "stoptimeremeasurer": "P23", "toofasttripremover": "P18", "tripduplicateremover": "P06 P02", "util": "P18 P10 P11 P12 P19 P23 P24 P06 P03 P05",
 "gtfstidy": "P31 P28 P29 P26 P27 P15 P14 P19 P02 P01 P16 P17 P20 P21 P24 P12 P30 P23 P09 P22 P10 P11 P18 P03",
}
n, seed, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
files = sys.argv[4:] or ["gtfstidy.go"] + sorted("processors/" + f for f in os.listdir(repo + "/processors") if f.endswith(".go") and not f.endswith("_test.go"))
W = tempfile.mkdtemp()
subprocess.run(["go", "build", "-o", W + "/mutate", "."], cwd=here, env=env, check=True)
subprocess.run(["go", "build", "-buildvcs=false", "-o", W + "/verif", "."], cwd=top + "/harness", env=dict(env, GOFLAGS=""), check=True)
lst = [l.split("\t") for l in subprocess.run([W + "/mutate", "list"] + files, cwd=repo, env=env, check=True, capture_output=True, text=True).stdout.splitlines()]
lines = {f: open(repo + "/" + f).read().split("\n") for f in files}
lst = [m for m in lst if "fmt.F" not in lines[m[0]][int(m[2]) - 1] and "fmt.P" not in lines[m[0]][int(m[2]) - 1] and "flag." not in lines[m[0]][int(m[2]) - 1] and ": flag" not in m[4]]
random.Random(seed).shuffle(lst)
out = open(log, "a")
done = set(tuple(l.split("\t")[1:5]) for l in open(log)) if os.path.exists(log) else set()
env["VERIF_EVID"] = W + "/ev"; env["VERIF_WATCHDOG"] = "6"
k = {}
for m in lst[:n]:
    f, i, line, what, desc = m
    if (f, line, what, desc) in done: continue
    src, ov, b = W + "/m.go", W + "/ov.json", W + "/bin"
    subprocess.run([W + "/mutate", "write", f, i, src], cwd=repo, env=env, check=True)
    json.dump({"Replace": {repo + "/" + f: src}}, open(ov, "w"))
    if subprocess.run(["go", "build", "-buildvcs=false", "-overlay", ov, "-o", b, "."], cwd=repo, env=env, capture_output=True).returncode:
        res = "nobuild"
    else:
        res = "SURVIVED"
        for p in CHECKS[os.path.basename(f)[:-3]].split():
            try:
                r = subprocess.run([W + "/verif", p, "quick", "--bin", b, "--failfast"] + (["--n", "400"] if f == "gtfstidy.go" else []), env=env, cwd=top, capture_output=True, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                res = "timeout " + p; break
            if r.returncode == 1:
                g = re.findall(r"^  \[[^\]]*\]", r.stdout, re.M)
                res = "killed %s %s" % (p, g[:1]); break
            if r.returncode != 0:
                res = "odd %s rc=%d %s" % (p, r.returncode, r.stderr[-200:].replace("\n", " ")); break
    k[res.split()[0]] = k.get(res.split()[0], 0) + 1
    print(res, f, line, what, desc, sep="\t", file=out, flush=True)
print(k)
shutil.rmtree(W)
