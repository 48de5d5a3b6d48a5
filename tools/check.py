#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : builds the property's harness from /repo and explores its space.
check.py <property> --replay FILE : runs one recorded case again."""
import fcntl, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B
import targets as T
from registry import CHECKS

MEM = 7 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def limits_asan():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            n = s[i + 1]
            if n == "x":
                out.append(int(s[i + 2:i + 4], 16)); i += 4; continue
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\"}[n]; i += 2
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def esc(b):
    o = ""
    for c in b:
        if c == 10: o += "\\n"
        elif c == 13: o += "\\r"
        elif c == 9: o += "\\t"
        elif c == 92: o += "\\\\"
        elif c < 32 or c > 126: o += "\\x%02x" % c
        else: o += chr(c)
    return o


def known_findings(pid):
    """known: property=<id> harness=<name> case=<regular expression over the escaped case> msg=<regex> :: text"""
    res = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) msg=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return res


class Harness:
    def __init__(self, pid, spec, exe, tier, work):
        self.pid, self.spec, self.exe, self.tier, self.work = pid, spec, exe, tier, work
        self.name = spec["target"]
        self.stall = spec.get("stall", 60)

    def args(self):
        return [self.exe, "--tier", self.tier, *self.spec.get("args", [])]

    def pre(self):
        return limits_asan if self.spec.get("asan") else limits

    def only(self, case, timeout):
        f = os.path.join(self.work, "only.txt")
        open(f, "wb").write(case)
        env = dict(os.environ, TMPDIR="/nonexistent-verif", VERIF_WORK=os.path.join(self.work, "w.only"))
        try:
            r = subprocess.run(self.args() + ["--only-file", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, preexec_fn=self.pre(), env=env, cwd=self.work)
            return r.returncode, r.stdout.decode(errors="replace")[-3000:]
        except subprocess.TimeoutExpired:
            return "hang", ""

    def cur(self, path):
        try:
            b = open(path, "rb").read()
            n, = struct.unpack_from("<I", b, 8)
            return struct.unpack_from("<Q", b, 0)[0], b[12:12 + n]
        except (OSError, struct.error):
            return 0, b""

    def run(self):
        n = self.spec.get("procs", 8)
        shared = os.path.join(self.work, self.name + ".shared")
        procs = []
        for i in range(n):
            out = os.path.join(self.work, f"{self.name}.{i}.json")
            cur = os.path.join(self.work, f"{self.name}.{i}.cur")
            log = open(os.path.join(self.work, f"{self.name}.{i}.log"), "wb")
            env = dict(os.environ, TMPDIR="/nonexistent-verif", VERIF_WORK=os.path.join(self.work, f"w.{i}"))
            p = subprocess.Popen(self.args() + ["--shared", shared, "--out", out, "--cur", cur], stdout=log, stderr=log,
                                 preexec_fn=self.pre(), env=env, cwd=self.work, start_new_session=True)
            procs.append({"p": p, "out": out, "cur": cur, "seq": -1, "t": time.time(), "log": log.name})
        suspects = []   # (kind, case)
        live = list(procs)
        last = 0
        while live:
            time.sleep(0.05)
            poll_cur = time.time() - last > 2
            if poll_cur:
                last = time.time()
            for q in list(live):
                rc = q["p"].poll()
                if rc is not None:
                    live.remove(q)
                    if rc != 0 or not os.path.exists(q["out"]):
                        suspects.append(("crash(%s)" % rc, self.cur(q["cur"])[1], q["log"]))
                elif poll_cur:
                    s = self.cur(q["cur"])[0]
                    if s != q["seq"]:
                        q["seq"], q["t"] = s, time.time()
                    elif time.time() - q["t"] > self.stall and s > 0:
                        suspects.append(("hang", self.cur(q["cur"])[1], q["log"]))
                        os.killpg(q["p"].pid, signal.SIGKILL)
                        q["p"].wait()
                        live.remove(q)
        res = {"enumerated": 0, "cases": 0, "transitions": 0, "validated": 0, "nontrivial": 0, "nfails": 0,
               "counters": {}, "samples": [], "fails": []}
        states = set()
        for q in procs:
            if not os.path.exists(q["out"]):
                continue
            d = json.load(open(q["out"]))
            for k in ("cases", "transitions", "validated", "nontrivial", "nfails"):
                res[k] += d[k]
            res["enumerated"] = max(res["enumerated"], d["enumerated"])
            for k, v in d["counters"].items():
                res["counters"][k] = res["counters"].get(k, 0) + v
            res["samples"] += d["samples"][:2]
            res["fails"] += [(c.encode("latin-1"), m) for c, m in d["fails"]]
            b = open(q["out"] + ".states", "rb").read()
            states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        res["states"] = len(states)
        for kind, case, log in suspects:
            rc, text = self.only(case, self.stall * 2)
            tail = open(log, "rb").read()[-1500:].decode(errors="replace")
            if rc == "hang":
                res["fails"].insert(0, (case, "does not terminate (%d s)" % (self.stall * 2)))
            elif rc not in (0, 1, 4):
                res["fails"].insert(0, (case, f"the process crashes, status {rc}: {text} {tail}"))
            elif rc == 1:
                res["fails"].insert(0, (case, text))
            else:
                res.setdefault("unconfirmed", []).append((kind, esc(case), tail))
            res["nfails"] += 1
        return res


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    harnesses = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    if "--only-harness" in sys.argv:
        harnesses = [h for h in harnesses if h["target"] == sys.argv[sys.argv.index("--only-harness") + 1]]
    names = [h["target"] for h in harnesses]
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        names = [replay["target"]]
    try:
        exes = B.build([t for t in T.TARGETS if t["name"] in names])
    except B.BuildError as e:
        print("\n".join(l for l in str(e).split("\n") if "error" in l or "required from" in l)[:3000] or e)
        print("the tree does not build")
        return 2
    work = os.path.join(B.CACHE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if replay:
        h = [h for h in spec["harnesses"] if h["target"] == replay["target"]][0]
        rc, text = Harness(pid, h, exes[h["target"]], replay["tier"], work).only(unesc(replay["case"]), 300)
        print(text)
        return 0 if rc == 0 else 1
    built = time.time() - t0
    known = known_findings(pid)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
           "distinct_nontrivial": 0, "exhaustive": True, "samples": [], "rule": spec["rule"], "harnesses": {}}
    violations, knowns = [], {}
    unconfirmed = []

    def run_harness(h, hh, count):
        r = hh.run()
        if count:
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["traces_validated_against_impl"] += r["validated"]
            cov["evaluations"] += r["cases"]
            cov["distinct_nontrivial"] += r["nontrivial"]
            cov["samples"] += r["samples"][:6]
            cov["harnesses"][h["target"]] = {"enumerated": r["enumerated"], "executed": r["cases"], **r["counters"]}
        vio, unc = [], list(r.get("unconfirmed", []))
        if r["cases"] != r["enumerated"] and not r["fails"] and not unc:
            unc.append(("cases missing", f"{r['cases']} of {r['enumerated']}", ""))
        for case, msg in r["fails"]:
            for ce, me, text in known:
                if ce.search(esc(case)) and me.search(msg.replace("\n", " ")):
                    knowns.setdefault(text, []).append(case)
                    break
            else:
                vio.append((hh, case, msg))
        return r, vio, unc

    def confirm(vio):
        # a violation is reported once the case fails again on its own
        step = max(1, len(vio) // 8)
        for hh, case, msg in (vio[::step] if len(vio) > 8 else vio):
            if msg.startswith("the process crashes") or msg.startswith("does not terminate"):
                return hh, case, msg
            rc, text = hh.only(case, hh.stall * 2)
            if rc != 0 and rc != 4:
                return hh, case, msg
        return None

    confirmed = None
    for h in harnesses:
        hh = Harness(pid, h, exes[h["target"]], tier, work)
        r, vio, unc = run_harness(h, hh, True)
        violations += vio
        if not confirmed and vio:
            confirmed = confirm(vio)
        if (vio or unc) and not confirmed:
            # the cases do not fail alone: does the whole run fail again?
            for f in os.listdir(work):
                if f.startswith(h["target"] + "."):
                    os.unlink(os.path.join(work, f))
            r, vio2, unc2 = run_harness(h, hh, False)
            confirmed = confirm(vio2)
            both = {(c, m) for _, c, m in vio} & {(c, m) for _, c, m in vio2}
            if not confirmed and both:
                c, m = sorted(both)[0]
                confirmed = (hh, c, m + " (only after the cases before it)")
            print("seen once:", [(esc(c)[:200], m[:200]) for _, c, m in vio[:3]], str(unc[:3])[:600])
            if not confirmed and unc2:
                unconfirmed += unc2
        if r["cases"] != r["enumerated"]:
            cov["exhaustive"] = False
    for _, c, m in violations[:int(os.environ.get("VERIF_SHOW", "0"))]:
        print("  *", esc(c)[:300], "\n     ", m[:700])
    for text, cases in knowns.items():
        print(f"KNOWN-FINDING: property={pid} {text} ({len(cases)} cases, e.g. {esc(cases[0])[:200]})")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print(f"[{pid}] {tier}: built in {built:.1f}s, {cov['evaluations']} executions, {cov['states']} states, "
          f"{cov['transitions']} transitions, exhaustive={cov['exhaustive']}, {time.time() - t0:.1f}s")
    if confirmed:
        hh, case, msg = confirmed
        rp = os.path.join(V, "evidence", f"{pid}.replay.json")
        json.dump({"property": pid, "target": hh.name, "tier": tier, "case": esc(case), "message": msg,
                   "how": f"python3 tools/check.py {pid} --replay {rp}"}, open(rp, "w"), indent=1)
        print("case: " + esc(case)[:1500])
        print("what: " + msg[:3000])
        print(f"VIOLATION property={pid} replay={rp}")
        shutil.rmtree(work, ignore_errors=True)
        return 1
    if unconfirmed:
        print("the run is incomplete:", str(unconfirmed[:3])[:1000])
        return 2
    shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
