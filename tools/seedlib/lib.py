# helpers for the demonstrations: build the tool from the current directory,
# run it on small feeds in a scratch directory, read back what it writes
import csv, os, shutil, subprocess, sys, tempfile, atexit

T = tempfile.mkdtemp()
atexit.register(shutil.rmtree, T, True)
BIN = os.path.join(T, "gtfstidy")
env = dict(os.environ, HOME=os.environ.get("HOME", "/root"),
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
           GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
env.setdefault("GOPATH", "/root/go")
env.setdefault("GOMODCACHE", "/root/go/pkg/mod")


def build(*extra):
    subprocess.run(["go", "build", "-buildvcs=false", *extra, "-o", BIN, "."], env=env, check=True)


build()
N = [0]

BASE = {
    "agency": "agency_id,agency_name,agency_url,agency_timezone\nA,Agency,http://a.example/,Europe/Berlin\n",
    "stops": "stop_id,stop_name,stop_lat,stop_lon\nS1,One,48.00,7.80\nS2,Two,48.01,7.81\nS3,Three,48.02,7.82\n",
    "routes": "route_id,agency_id,route_short_name,route_type\nR,A,1,3\n",
    "calendar": "service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\nV,1,1,1,1,1,1,1,20240101,20240131\n",
    "trips": "route_id,service_id,trip_id\nR,V,T\n",
    "stop_times": "trip_id,arrival_time,departure_time,stop_id,stop_sequence\nT,08:00:00,08:00:00,S1,1\nT,08:10:00,08:10:00,S2,2\nT,08:20:00,08:20:00,S3,3\n",
}


def feed(**tables):
    """writes a feed: the base tables, replaced and extended by the given ones"""
    N[0] += 1
    d = os.path.join(T, "in%d" % N[0])
    os.mkdir(d)
    t = dict(BASE)
    t.update(tables)
    for k, v in t.items():
        if v is not None:
            open(os.path.join(d, k + ".txt"), "w").write(v)
    return d


def tidy(flags, *ins, procs=None):
    """runs the tool, returns its exit code, output and the rows of each table"""
    N[0] += 1
    out = os.path.join(T, "out%d" % N[0])
    e = dict(env)
    if procs:
        e["GOMAXPROCS"] = str(procs)
    p = subprocess.run([BIN, *flags, "-o", out, *ins], capture_output=True, text=True, env=e, timeout=120)
    rows = {}
    if os.path.isdir(out):
        for f in os.listdir(out):
            if f.endswith(".txt"):
                rows[f[:-4]] = list(csv.DictReader(open(os.path.join(out, f), newline="")))
    return p.returncode, p.stdout + p.stderr, rows


def need(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)
