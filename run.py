#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   decide one property
   run.py --replay <replay file>               re-execute one reported violation
   run.py --list"""
import fnmatch, glob, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mc"))
import build
from checks import CHECKS

OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
NPROC = 8

def env_for(prog):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    e.update(prog.get("env", {}))
    return e

def build_prog(prog):
    return build.program(prog["name"], prog.get("variant", "rel"), prog["srcs"],
                         cflags=prog.get("cflags", ()), wrap=prog.get("wrap", False), ldflags=prog.get("ldflags", ()))

def known_findings():
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("property="):
                # property=<id> match=<glob> :: <what fails>
                head, _, what = l.partition(" :: ")
                pid, _, m = head.partition(" match=")
                ks.append((pid[len("property="):].strip(), m.strip(), what.strip()))
    return ks

def globmatch(s, pat):
    """only '*' is special"""
    import re
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), s, re.S) is not None

def run_prog(pid, prog, tier, budget, rundir):
    exe = build_prog(prog)
    n = prog.get("shards", NPROC)
    procs = []
    for i in range(n):
        log = open(os.path.join(rundir, "%s.%d.log" % (prog["name"], i)), "wb")
        hf = os.path.join(rundir, "%s.%d.hash" % (prog["name"], i))
        e = env_for(prog); e["MC_HASHFILE"] = hf
        cmd = [exe, "--tier", tier, "--shard", str(i), "--nshards", str(n), "--budget", str(budget)]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=log, env=e, cwd=rundir), log, hf))
    viols, sums, broken = [], [], []
    outs = []
    import threading
    def reader(k): outs[k] = procs[k][0].communicate()[0]
    outs = [None]*n
    ts = [threading.Thread(target=reader, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    hashes = set()
    import struct
    for k, (p, log, hf) in enumerate(procs):
        log.close()
        got = False
        for l in outs[k].decode(errors="replace").splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d["t"] == "V": d["prog"] = prog["name"]; d["shard"] = k; d["nshards"] = n; viols.append(d)
            elif d["t"] == "S": sums.append(d); got = True
        if not got: broken.append("%s shard %d ended with %s" % (prog["name"], k, p.returncode))
        if os.path.exists(hf):
            b = open(hf, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b)//8), b)); os.remove(hf)
    return viols, sums, broken, hashes

def replay_case(prog, tier, case, prefix=None, limit=None):
    """the case alone, or (prefix = (shard, nshards)) with everything the shard did before it"""
    exe = build_prog(prog)
    what = ["--case", str(case)] if prefix is None else ["--shard", str(prefix[0]), "--nshards", str(prefix[1]), "--until", str(case)]
    e = env_for(prog); e.pop("MC_HASHFILE", None)
    p = subprocess.Popen([exe, "--tier", tier] + what, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=OUT, start_new_session=True)
    try: t = p.communicate(timeout=limit)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); t = p.communicate()[0].decode(errors="replace")
    if prefix is None: return ('"t":"V"' in t), t
    return any('"t":"V"' in l and '"case":%d,' % case in l for l in t.splitlines()), t

def main():
    a = sys.argv[1:]
    if a and a[0] == "--list":
        for k, c in CHECKS.items(): print(k, c["title"])
        return 0
    os.makedirs(OUT, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        prog = [p for p in CHECKS[d["property"]]["progs"] if p["name"] == d["prog"]][0]
        ok, t = replay_case(prog, d["tier"], d["case"], d.get("prefix"))
        print(t[-20000:])
        print("reproduced" if ok else "NOT reproduced")
        return 1 if ok else 0
    pid = a[0]
    tier = "quick"
    if "--tier" in a: tier = a[a.index("--tier")+1]
    chk = CHECKS[pid]
    t0 = time.time()
    rundir = os.path.join(OUT, "%s-%s-%d" % (pid, tier, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    budget = chk.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    viols, sums, broken, hashes, progsums = [], [], [], set(), {}
    for prog in chk["progs"]:
        if tier == "quick" and prog.get("thorough_only"): continue
        left = max(20, budget - (time.time()-t0))
        v, s, b, h = run_prog(pid, prog, tier, left, rundir)
        viols += v; sums += s; broken += b; hashes |= h
        progsums[prog["name"]] = s
    known = [k for k in known_findings() if k[0] == pid]
    hit, new = {}, []
    for v in viols:
        ident = "%s: %s" % (v["clause"], v["desc"])
        for k in known:
            if globmatch(ident, k[1]): hit.setdefault(k, []).append(v); break
        else: new.append(v)
    confirmed, unconfirmed = [], []
    # every violation is replayed before it is reported; at most 12, fewer when that takes long
    hard = t0 + (840 if tier == "quick" else 100000)
    new.sort(key=lambda v: (v["clause"] == "hang", v["case"]))
    for v in new[:12]:
        if time.time() > hard - 20 or (confirmed and time.time() > hard - 300) or len(confirmed) >= 8: break
        prog = [p for p in chk["progs"] if p["name"] == v["prog"]][0]
        ok, txt = replay_case(prog, tier, v["case"], None, max(10, min(200, hard - time.time())))
        (confirmed if ok else unconfirmed).append((v, txt))
    if new and not confirmed:
        # perhaps what went before matters (state kept between calls): repeat the first one with its whole history
        v = min(new, key=lambda v: v["case"])
        prog = [p for p in chk["progs"] if p["name"] == v["prog"]][0]
        ok, txt = replay_case(prog, tier, v["case"], (v["shard"], v["nshards"]), max(10, hard - time.time()))
        if ok:
            v["prefix"] = (v["shard"], v["nshards"]); confirmed.append((v, txt))
            unconfirmed = [u for u in unconfirmed if u[0] is not v]
    for k in known:
        if k in hit: print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k[2] or k[1], len(hit[k])))
    rc = 0
    for n, (v, txt) in enumerate(confirmed):
        rp = os.path.join(OUT, "replay-%s-%s-%d.json" % (pid, tier, n))
        json.dump(dict(property=pid, tier=tier, prog=v["prog"], case=v["case"], clause=v["clause"], desc=v["desc"], msg=v["msg"], prefix=v.get("prefix"),
                       how="python3 /verif/run.py --replay " + rp, log=txt[-6000:]), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   %s: %s\n   %s" % (v["clause"], v["desc"], v["msg"]))
        rc = 1
    if len(new) > 12: print("   ... and %d further violating cases" % (len(new)-12))
    for v, txt in unconfirmed:
        print("note: not reproduced on replay, not reported: %s %s: %s" % (v["clause"], v["desc"], v["msg"]))
    if broken:
        for b in broken: print("BROKEN CHECK:", b)
        for f in sorted(glob.glob(rundir + "/*.log"))[:3]:
            print(open(f, errors="replace").read()[-1500:])
        if rc == 0: rc = 3
    # evidence
    cov = dict(evaluations=sum(s["evaluations"] for s in sums), distinct_nontrivial=len(hashes))
    rules, samples, ass, counters, maxima, capped = [], [], [], {}, {}, []
    for s in sums:
        if s["rule"] not in rules: rules.append(s["rule"])
        for x in s["samples"]:
            if len(samples) < 12 and x not in samples: samples.append(x)
        for x in s["assumptions"]:
            if x not in ass: ass.append(x)
        for k, x in s["counters"].items(): counters[k] = counters.get(k, 0) + x
        for k, x in s["maxima"].items():
            if isinstance(x, (int, float)): maxima[k] = max(maxima.get(k, -1e308), x)
        if s["capped"]: capped.append(s["capwhy"])
    cov["rule"] = " || ".join(rules)
    cov["samples"] = samples
    st = sum(s["states"] for s in sums); tr = sum(s["transitions"] for s in sums)
    if st: cov["states"] = st; cov["transitions"] = tr
    if chk["level"] == "model_checking":
        cov["traces_validated_against_impl"] = counters.get("traces", cov["evaluations"])
        cov.setdefault("states", 0); cov.setdefault("transitions", 0)
    cov["exhaustive"] = not capped and not broken
    if capped: cov["caps_hit"] = sorted(set(capped))
    cov["counters"] = counters; cov["worst_error_ratios"] = maxima
    cov["known_finding_cases"] = {k[1]: len(v) for k, v in hit.items()}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=chk["level"], coverage=cov,
              wall_s=round(time.time()-t0, 2), violations=len(confirmed), assumptions=ass + chk.get("assumptions", []))
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if rc == 0: shutil.rmtree(rundir, ignore_errors=True)
    print("%s %s: %d evaluations, %d distinct outcomes%s, %.1f s, %s" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"],
          (", %d states %d transitions" % (st, tr)) if st else "", ev["wall_s"],
          "ok" if rc == 0 else "FAILED"), "" if cov["exhaustive"] else "(bound capped: %s)" % (capped or broken)[0])
    if maxima and os.environ.get("MC_VERBOSE"): print(json.dumps(maxima, indent=1)); print(json.dumps(counters))
    return rc if rc in (0, 1) else 1

sys.exit(main())
