"""Shared machinery of the checks: build the driver, run Quint/TLC, validate traces, write evidence."""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")       # elsewhere only while planting bugs in copies
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = os.cpu_count() or 4


class Machinery(Exception):
    """The check itself failed: exit code 2, never a verdict."""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off",
             GODEBUG="randautoseed=0")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    p = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(p):
        e["PATH"] = p + ":" + e.get("PATH", "")
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.violations = []      # dicts: code, what, detail
        self.known_hits = {}
        self.samples = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.notes = {}
        self.assumptions = []
        self.bins = {}

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def thorough(self):
        return self.tier == "thorough"

    def n(self, q, t):
        return t if self.thorough() else q

    # ---- build -------------------------------------------------------------
    def build(self, which="core", race=False, goos=None):
        key = which + ("_race" if race else "")
        if key in self.bins:
            return self.bins[key]
        for f in ("go.mod", "go.sum"):   # as /opt/vp/env.sh does
            if not os.path.exists(REPO + "/" + f):
                src = "/opt/vp/ndaumath." + f[3:]
                if os.path.exists(src):
                    shutil.copy(src, REPO + "/" + f)
        src = os.path.join(self.work, "driver")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "driver"), src)
            gm = os.path.join(src, "go.mod")
            s = open(gm).read().replace("=> ../shim/decimal", "=> " + os.path.join(VERIF, "shim", "decimal")).replace("ndaumath => /repo", "ndaumath => " + REPO)
            open(gm, "w").write(s)
            for f in ("main.go", "rt.go", "itf.go", "wire.go", "jsonrt.go"):       # shared by both drivers
                if os.path.isdir(os.path.join(src, "numeric")):
                    shutil.copy(os.path.join(src, "core", f), os.path.join(src, "numeric", f))
        out = os.path.join(self.work, key)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["./" + which]
        env = goenv()
        if race:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise Machinery("cannot build the driver against /repo:\n" + r.stdout[-2000:] + r.stderr[-4000:])
        self.bins[key] = out
        if "VERIF_LITERALS" not in os.environ:
            os.environ["VERIF_LITERALS"] = self.literals(src)
        return out

    def literals(self, src):
        """Constants and texts the source has gained over the tree these checks were written for: inputs are drawn near
        them (and only that; what is demanded of the results does not depend on them)."""
        try:
            r = subprocess.run(["go", "run", "./literals", REPO + "/pkg", REPO + "/cmd"], cwd=src, env=goenv(), capture_output=True, text=True, timeout=120)
            now, old = json.loads(r.stdout), json.load(open(os.path.join(VERIF, "lib", "literals.json")))
            d = {k: [x for x in now[k] if x not in set(old[k])][:40] for k in ("ints", "strings")}
            if any(d.values()):
                self.log("constants the source has gained:", json.dumps(d)[:300])
            return json.dumps(d)
        except (ValueError, OSError, KeyError, subprocess.TimeoutExpired):
            return "{}"

    def build_wasm(self):
        """The module of cmd/keyaddr; returns what the driver needs to run it (VERIF_WASM)."""
        self.build()
        out = os.path.join(self.work, "keyaddr.wasm")
        env = dict(goenv(), GOOS="js", GOARCH="wasm")
        r = subprocess.run(["go", "build", "-o", out, "github.com/ndau/ndaumath/cmd/keyaddr"], cwd=os.path.join(self.work, "driver"), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise Machinery("cannot build the WebAssembly module:\n" + r.stdout[-2000:] + r.stderr[-4000:])
        root = subprocess.run(["go", "env", "GOROOT"], env=goenv(), capture_output=True, text=True).stdout.strip()
        return "node %s %s %s" % (os.path.join(VERIF, "driver", "wasm", "host.js"), os.path.join(root, "lib", "wasm", "wasm_exec.js"), out)

    def run(self, cmd, timeout=600, input=None, env=None, cwd=None, check=True):
        try:
            r = subprocess.run(cmd, cwd=cwd or self.work, env=env or goenv(), capture_output=True, text=True,
                               timeout=timeout, input=input)
        except subprocess.TimeoutExpired:
            raise Machinery("timeout: %s" % " ".join(cmd)[:300])
        if check and r.returncode != 0:
            raise Machinery("command failed (%d): %s\n%s\n%s" % (r.returncode, " ".join(cmd)[:300], r.stdout[-3000:], r.stderr[-3000:]))
        return r

    # ---- direction B: recorded executions judged by the specification ---------
    def record(self, name=None, which="core", extra=(), race=False, env=None, explore=True):
        b = self.build(which, race)
        name = name or self.prop
        out = os.path.join(self.work, "rec_%s.ndjson" % name)
        with open(out, "w") as f:
            try:
                r = subprocess.run([b, "rec", name, str(self.seed), self.tier] + list(extra), stdout=f, stderr=subprocess.PIPE,
                                   env=dict(goenv(), **(env or {})), timeout=800, cwd=self.work)
            except subprocess.TimeoutExpired:
                raise Machinery("recorder timeout")
        recs = []
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:      # cut off by a crash
                break
        for x in recs:
            if x["f"][0] == "0":    # the real code refused or broke a step every execution relies on
                self.violation(name, -96, x["d"], {})
        recs = [x for x in recs if x["f"][0] != "0"]
        err = r.stderr.decode(errors="replace")
        if race and "DATA RACE" in err:
            self.violation(name, -97, "data race reported by the race detector", {"report": err[:6000]})
        elif r.returncode != 0:
            if crashed_in_repo(err):
                self.violation(name, -98, "the real code crashed the process: " + err[:300], {"stderr": err[:6000]})
            else:
                raise Machinery("recorder failed: rc=%d %s" % (r.returncode, err[-3000:]))
        if not recs and not self.violations:
            raise Machinery("recorder produced nothing")
        if explore and not race:
            recs += self.explore(name, which, extra, env)
        self.log("recorded %d executions of the real code (%s)" % (len(recs), name))
        return recs

    # ---- executions of code which the recorder has not reached -----------------
    def tree(self):
        """Digest of the packages' source."""
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(REPO + "/pkg")):
            for f in sorted(fs):
                if f.endswith(".go") and not f.endswith("_test.go"):
                    h.update((d[len(REPO):] + "/" + f + "\0").encode() + open(os.path.join(d, f), "rb").read())
        return h.hexdigest()

    def build_cov(self, which):
        """The driver with the repository's packages instrumented (block counters), or None."""
        key = which + "_cov"
        if key not in self.bins:
            self.bins[key] = None
            out, src = os.path.join(self.work, "cov"), os.path.join(self.work, "driver")
            os.makedirs(out, exist_ok=True)
            r = subprocess.run(["go", "run", "./covprep", REPO, out], cwd=src, env=goenv(), capture_output=True, text=True)
            if r.returncode == 0:
                self.funcs = json.loads(r.stdout)
                b = os.path.join(self.work, key)
                r = subprocess.run(["go", "build", "-overlay", os.path.join(out, "overlay.json"), "-o", b, "./" + which],
                                   cwd=src, env=goenv(), capture_output=True, text=True)
                if r.returncode == 0:
                    self.bins[key] = b
            if self.bins[key] is None:
                self.log("no instrumented build: " + (r.stdout + r.stderr)[-500:])
        return self.bins[key]

    def unreached(self, name, which, extra, env, seed):
        """Blocks that a run of the recorder leaves out in functions it calls: {file: {index: key}}."""
        b = self.build_cov(which)
        if not b:
            return {}
        out = os.path.join(self.work, "cov_%s_%d.json" % (name, seed))
        try:
            subprocess.run([b, "rec", name, str(seed), self.tier] + list(extra), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(goenv(), VERIF_COVOUT=out, **(env or {})), timeout=300, cwd=self.work)
            files = json.load(open(out))
        except (subprocess.TimeoutExpired, OSError, ValueError):
            return {}
        res = {}
        for f in files:
            lines = open(REPO + "/" + f["Name"]).read().split("\n")
            blocks, called = [], set()
            for i, n in enumerate(f["Count"]):
                l0, l1, c = f["Pos"][3 * i:3 * i + 3]
                fn = next((g["name"] for g in self.funcs[f["Name"]] if g["From"] <= l0 <= g["To"]), "?")
                t = lines[l0 - 1:l1]
                t[-1] = t[-1][:(c >> 16) - 1]
                t[0] = t[0][(c & 0xffff) - 1:]
                text = "".join(re.sub(r"\s", "", re.sub(r"//.*", "", x)) for x in t)
                blocks.append((i, n, fn, "%s %s %s" % (f["Name"], fn, hashlib.sha256(text.encode()).hexdigest()[:12])))
                if n:
                    called.add(fn)
            d = {i: k for i, n, fn, k in blocks if n == 0 and fn in called}
            if d:
                res[f["Name"]] = d
        return res

    def explore(self, name, which, extra, env):
        """The tree differs from the one these checks were written for: look for executions that reach blocks which the
        recorded ones do not (as a rule, code which the tree has gained), by running the recorder on further seeds.
        Only the choice of executions depends on this; the specification judges them like any other."""
        if "VERIF_NOEXPLORE" in os.environ:
            return []
        try:
            old = json.load(open(os.path.join(VERIF, "lib", "unreached.json")))
        except OSError:
            return []
        if self.tree() == old["tree"]:
            return []
        known = set(old["blocks"].get(name, []))
        blocks = {f: [i for i, k in d.items() if k not in known] for f, d in self.unreached(name, which, extra, env, self.seed).items()}
        blocks = {f: l for f, l in blocks.items() if l}
        if not blocks:
            return []
        secs = self.n(20, 90)
        self.log("blocks not reached by recorder %s: %s" % (name, blocks))
        tf, end = os.path.join(self.work, "targets_%s.json" % name), time.time() + secs
        json.dump({"Blocks": blocks, "Until": end}, open(tf, "w"))
        found = []

        def go(w):
            i = 0
            while time.time() < end and len(found) < 200:
                seed = self.seed * 1000003 + 7919 + w + NCPU * i
                i += 1
                try:
                    r = subprocess.run([self.bins[which + "_cov"], "explore", name, str(seed), "thorough" if i % 2 else "quick"] + list(extra), capture_output=True,
                                       env=dict(goenv(), VERIF_TARGETS=tf, **(env or {})), timeout=secs + 100, cwd=self.work)
                except subprocess.TimeoutExpired:
                    return
                for l in r.stdout.decode(errors="replace").splitlines():
                    try:
                        found.append(json.loads(l))
                    except ValueError:
                        break
                err = r.stderr.decode(errors="replace")
                if r.returncode and crashed_in_repo(err):
                    self.violation(name, -98, "the real code crashed the process: " + err[:300], {"stderr": err[:6000]})
                    return
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            list(ex.map(go, range(NCPU)))
        found = found[:400]
        for x in found:
            if x["f"][0] == "0":
                self.violation(name, -96, x["d"], {})
        self.log("exploration found %d further executions" % len(found))
        return [x for x in found if x["f"][0] != "0"]

    def validate(self, module, recs, chunk=25, per_shard=None, ignore=(), only=None):
        """Have Quint judge every record with <module>.verdict.  Returns tag histogram.
        ignore: verdict codes that belong to another property; only: the codes that belong to this one."""
        if not recs:
            return {}
        shards = min(NCPU, max(1, (len(recs) + 59) // 60))
        per = (len(recs) + shards - 1) // shards
        limit = per_shard or 1500
        if per > limit:
            per = limit
        # interleave so that expensive kinds of records spread over the shards
        nsh = (len(recs) + per - 1) // per
        parts = [list(range(s, len(recs), nsh)) for s in range(nsh)]
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(lambda a: self._shard(module, recs, a[1], a[0], chunk), enumerate(parts)))
        tags, bads, st = {}, [], 0
        for t, b, n in res:
            st += n
            for k, v in t.items():
                tags[k] = tags.get(k, 0) + v
            bads += b
        bads.sort()
        facts = [(i, code) for i, code in bads if code <= -900]
        bads = [(i, code) for i, code in bads if code > -900]
        if facts and not bads and not self.violations:
            raise Machinery("%s: a recorded fact does not fit (code %d): %s" % (module, facts[0][1], recs[facts[0][0]]["d"][:600]))
        bads = [(i, code) for i, code in bads if code not in ignore and (only is None or code in only)]
        for i, code in bads:
            self.violation(module, code, recs[i]["d"], {"record": recs[i]["f"], "index": i})
        self.cov["traces_validated_against_impl"] += len(recs)
        self.cov["states"] += st
        self.cov["transitions"] += st - len(res)
        self.notes.setdefault("case_classes", {}).setdefault(module, {})
        d = self.notes["case_classes"][module]
        for k, v in tags.items():
            d[str(k)] = d.get(str(k), 0) + v
        self.samples += [{"call": recs[i]["d"][:300], "fields": [x[:120] for x in recs[i]["f"]]} for i in (0, len(recs) // 2)][:2]
        self.log("%s: %d recorded calls judged, %d rejected, classes %s" % (module, len(recs), len(bads), dict(sorted(tags.items()))))
        return tags

    def reference(self, module, recs):
        """Records made by the driver's own reference code: a rejection is our mistake, never a verdict."""
        n = len(self.violations)
        self.validate(module, recs)
        bad = self.violations[n:]
        if bad:
            raise Machinery("reference code rejected by the specification: %s" % bad[0])

    def _shard(self, module, recs, idxs, sid, chunk):
        name = "shard_%s_%d" % (module, sid)
        rel = os.path.relpath(SPEC, self.work)
        o = ["module %s {" % name, '  import %s.* from "%s/%s"' % (module, rel, module)]
        names = []
        for c in range(0, len(idxs), chunk):
            names.append("c%d" % c)
            o.append("  pure val c%d: List[List[int]] = [%s]" % (c, ",\n    ".join("[" + ",".join(recs[i]["f"]) + "]" for i in idxs[c:c + chunk])))
        groups = []
        for g in range(0, len(names), 25):
            groups.append("g%d" % g)
            o.append("  pure val g%d: List[List[List[int]]] = [%s]" % (g, ",".join(names[g:g + 25])))
        o.append("  pure val allRecs: List[List[List[List[int]]]] = [%s]" % ",".join(groups))
        o.append("""  var pos: int
  var bad: List[(int, int)]
  var tags: int -> int
  pure def rec(i: int): List[int] = allRecs[i / %d][(i / %d) %% 25][i %% %d]
  action init = all { pos' = 0, bad' = List(), tags' = Map() }
  action step = all {
    pos < %d,
    val v = verdict(rec(pos))
    all {
      pos' = pos + 1,
      bad' = if (v < 0) bad.append((pos, v)) else bad,
      tags' = if (v < 0) tags else tags.put(v, if (tags.keys().contains(v)) tags.get(v) + 1 else 1)
    }
  }
}""" % (chunk * 25, chunk, chunk, len(idxs)))
        f = os.path.join(self.work, name + ".qnt")
        open(f, "w").write("\n".join(o) + "\n")
        itf = os.path.join(self.work, name + ".itf.json")
        r = self.run(["quint", "run", f, "--main", name, "--max-samples", "1", "--n-traces", "1", "--max-steps", str(len(idxs)),
                      "--out-itf", itf, "--seed", "1", "--verbosity", "1"], timeout=850, check=False)
        if not os.path.exists(itf):
            raise Machinery("quint failed on %s:\n%s\n%s" % (name, r.stdout[-2500:], r.stderr[-2500:]))
        states = json.load(open(itf))["states"]
        last = states[-1]
        pos = itfval(last["pos"])
        if pos != len(idxs):
            raise Machinery("specification could not evaluate record %d of %s: %s\n%s" % (pos, module, recs[idxs[pos]]["d"][:500], r.stdout[-1500:] + r.stderr[-1500:]))
        tags = {int(k): int(v) for k, v in itfval(last["tags"])}
        bad = [(idxs[int(a)], int(b)) for a, b in itfval(last["bad"])]
        os.unlink(itf)
        return tags, bad, len(states)

    # ---- direction A: specification behaviours replayed on the real code ------
    def behaviours(self, spec, main, n, steps, invariant=None, samples=None, nproc=None, init=None, step=None):
        """quint run --mbt: n traces of the given length.  Returns list of ITF files."""
        nproc = nproc or min(NCPU, max(1, n // 4))
        per = (n + nproc - 1) // nproc
        d = os.path.join(self.work, "mbt_%s" % main)
        os.makedirs(d, exist_ok=True)

        def go(i):
            cmd = ["quint", "run", os.path.join(SPEC, spec), "--main", main, "--mbt", "--n-traces", str(per),
                   "--max-samples", str(max(per, samples or per)), "--max-steps", str(steps),
                   "--seed", str((self.seed * 1000003 + i * 7919 + 1) % (2 ** 48)), "--verbosity", "1",
                   "--out-itf", os.path.join(d, "t%d_{seq}.itf.json" % i)]
            if invariant:
                cmd += ["--invariant", invariant]
            if init:
                cmd += ["--init", init]
            if step:
                cmd += ["--step", step]
            return self.run(cmd, timeout=850, check=False)
        with cf.ThreadPoolExecutor(max_workers=nproc) as ex:
            rs = list(ex.map(go, range(nproc)))
        for r in rs:
            if r.returncode != 0:
                raise Machinery("quint run on %s failed (specification violates its own invariant?):\n%s\n%s" % (spec, r.stdout[-3000:], r.stderr[-2000:]))
        files = sorted(os.path.join(d, f) for f in os.listdir(d))
        if not files:
            raise Machinery("quint produced no behaviours for " + main)
        return files

    def replay(self, model, files, which="core", race=False, nproc=None, one_per_process=False, alone=None, env=None):
        """alone: maps a file to its model; a mismatch or crash counts only if the behaviour replayed alone is fine."""
        b = self.build(which, race)
        nproc = nproc or NCPU
        if one_per_process:
            parts = [[f] for f in files]
        else:
            parts = [files[i::nproc] for i in range(nproc) if files[i::nproc]]

        def go(p):
            return self.run([b, "replay", model] + p, timeout=800, check=False, env=dict(goenv(), VERIF_PROP=self.prop, **(env or {})))
        with cf.ThreadPoolExecutor(max_workers=nproc) as ex:
            rs = list(ex.map(go, parts))
        steps, acts, traces = 0, {}, 0
        for r, p in zip(rs, parts):
            done = False
            if alone and ('"mismatch"' in r.stdout or (r.returncode != 0 and crashed_in_repo(r.stderr))) and "DATA RACE" not in r.stderr:
                q = [self.run([b, "replay", alone(f), f], timeout=800, check=False, env=goenv()) for f in p]
                if any('"mismatch"' in x.stdout or x.returncode != 0 for x in q):
                    self.log("%s: a behaviour fails alone as well: not a matter of concurrency" % model)
                    continue
            for line in r.stdout.splitlines():
                if not line.startswith("{"):
                    continue
                o = json.loads(line)
                if o.get("kind") == "mismatch":
                    self.violation(model, o.get("code", -1), o["what"], {k: v for k, v in o.items() if k not in ("kind", "what")})
                elif o.get("kind") == "done":
                    done = True
                    steps += o["steps"]
                    traces += o["traces"]
                    for k, v in o.get("actions", {}).items():
                        acts[k] = acts.get(k, 0) + v
            if race and "DATA RACE" in r.stderr:
                self.violation(model, -100, "data race reported by the race detector", {"report": r.stderr[:6000]})
                done = True
            if not done and crashed_in_repo(r.stderr):
                self.violation(model, -98, "the real code crashed the process: " + r.stderr[:300], {"stderr": r.stderr[:6000], "files": p})
                done = True
            if not done:
                raise Machinery("replay driver did not finish (rc=%s): %s %s" % (r.returncode, r.stdout[-1000:], r.stderr[-3000:]))
        self.cov["traces_validated_against_impl"] += traces
        self.notes.setdefault("replayed_actions", {})[model] = acts
        self.notes["replayed_steps"] = self.notes.get("replayed_steps", 0) + steps
        self.log("%s: replayed %d behaviours, %d steps, actions %s" % (model, traces, steps, dict(sorted(acts.items()))))
        return traces, steps

    def count_itf(self, files, actions=False):
        seen, tr, acts = set(), 0, {}
        for f in files:
            st = json.load(open(f))["states"]
            for s in st:
                if "mbt::actionTaken" in s:
                    acts[s["mbt::actionTaken"]] = acts.get(s["mbt::actionTaken"], 0) + 1
                k = json.dumps({x: v for x, v in s.items() if not x.startswith("mbt::") and x != "#meta"}, sort_keys=True)
                seen.add(hash(k))
            tr += len(st) - 1
        self.cov["states"] += len(seen)
        self.cov["transitions"] += tr
        return len(seen), tr, acts

    # ---- model checking of the specification itself ---------------------------
    def tlc(self, name, workers=4, timeout=600, xmx="6g"):
        """Exhaustive TLC run of spec/tla/<name>.tla (compiled from Quint, see tools/compile_tla.sh)."""
        d = os.path.join(self.work, "tlc_" + name)
        shutil.copytree(os.path.join(SPEC, "tla"), d)
        r = self.run(["tlc", "-config", name + ".cfg", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), name + ".tla"],
                     cwd=d, timeout=timeout, check=False)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
        if "No error has been found" not in r.stdout or not m:
            raise Machinery("TLC on %s: %s" % (name, r.stdout[-3000:]))
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.notes.setdefault("tlc", {})[name] = {"distinct_states": int(m.group(2)), "generated": int(m.group(1)), "exhaustive": True}
        self.log("TLC %s: %s states generated, %s distinct, complete" % (name, m.group(1), m.group(2)))
        return int(m.group(2))

    def quint_test(self, spec, main=None):
        r = self.run(["quint", "test", os.path.join(SPEC, spec)] + (["--main", main] if main else []) + ["--seed", str(self.seed)], timeout=600, check=False)
        if r.returncode != 0:
            raise Machinery("quint test %s: %s" % (spec, r.stdout[-3000:] + r.stderr[-2000:]))
        m = re.search(r"(\d+) passing", r.stdout)
        self.notes.setdefault("spec_tests", {})[spec] = int(m.group(1)) if m else 0
        return r.stdout

    def apalache(self, spec, main, invariant, steps=1, timeout=800, init=None, step=None):
        cmd = ["quint", "verify", os.path.join(SPEC, spec), "--main", main, "--invariant", invariant, "--max-steps", str(steps)]
        if init:
            cmd += ["--init", init]
        if step:
            cmd += ["--step", step]
        port = 20000 + (os.getpid() * 13 + len(self.notes.get("apalache", {}))) % 20000
        cmd += ["--server-endpoint", "localhost:%d" % port]
        r = self.run(cmd, timeout=timeout, check=False)
        if r.returncode != 0 or "[ok]" not in r.stdout:
            raise Machinery("apalache on %s/%s: %s" % (spec, invariant, (r.stdout + r.stderr)[-3000:]))
        self.notes.setdefault("apalache", {})["%s:%s" % (main, invariant)] = "holds (symbolic, %d steps)" % steps
        self.log("Apalache %s %s: holds" % (main, invariant))

    # ---- verdict -----------------------------------------------------------------
    def violation(self, where, code, what, detail=None):
        self.violations.append({"where": where, "code": code, "what": what, "detail": detail or {}})

    def finish(self, level="model_checking", explanation=None):
        known = load_known()
        fresh, hits = [], {}
        for v in self.violations:
            k = known.get((self.prop, "%s:%s" % (v["where"], v["code"])))
            if k:
                hits.setdefault(k, []).append(v)
            else:
                fresh.append(v)
        for k, vs in sorted(hits.items()):
            print("KNOWN-FINDING: property=%s %s (%d instances, e.g. %s)" % (self.prop, k, len(vs), vs[0]["what"][:160].replace("\n", " ")))
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples[:8] or ["none"]
        cov.update(self.notes)
        cov["known_finding_instances"] = {k: len(v) for k, v in hits.items()}
        if explanation:
            cov["explanation"] = explanation
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(EVIDENCE, self.prop + ".replay.json")
        if fresh:
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "how": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (self.seed, self.tier, self.prop), "violations": fresh[:200]}, f, indent=1)
            for v in fresh[:5]:
                print("  rejected: [%s %s] %s" % (v["where"], v["code"], str(v["what"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        self.log("ok: %s" % json.dumps({k: cov[k] for k in ("states", "transitions", "traces_validated_against_impl")}))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def crashed_in_repo(err):
    """Did the Go process die inside ndaumath code (not in the driver)?"""
    m = re.search(r"^(panic:|fatal error:|unexpected fault)", err, re.M)
    if not m:
        return False
    st = re.search(r"goroutine \d+.*?\[running.*?\]:\n(.*?)(\n\n|\Z)", err[m.start():], re.S)
    return "github.com/ndau/ndaumath/" in (st.group(1) if st else err[m.start():])


def load_known():
    """known-findings.txt: lines  'known: property=Cnn key=<where:code> <what>' (suppress) and 'fixed: ...' (suppress nothing)."""
    d = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                d[(m.group(1), m.group(2))] = m.group(3)
    return d


def itfval(x):
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return [itfval(y) for y in x["#tup"]]
        if "#set" in x:
            return [itfval(y) for y in x["#set"]]
        if "#map" in x:
            return [[itfval(k), itfval(v)] for k, v in x["#map"]]
        return {k: itfval(v) for k, v in x.items()}
    if isinstance(x, list):
        return [itfval(y) for y in x]
    return x


def main(checks):
    if sys.argv[1:2] == ["--setup"]:
        c = Ctx("setup")
        try:
            for w, race in (("core", False), ("core", True), ("numeric", False)):
                if os.path.isdir(os.path.join(VERIF, "driver", w)):
                    c.build(w, race)
                    c.log("built", w, "race" if race else "")
            return 0
        except Machinery as e:      # checks report it themselves
            print("setup:", e)
            return 0
        finally:
            c.cleanup()
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check <property>", file=sys.stderr)
        return 2
    c = Ctx(sys.argv[1])
    try:
        rc = checks[sys.argv[1]](c)
        return c.finish() if rc is None else rc
    except Machinery as e:
        print("CHECK ERROR property=%s: %s" % (c.prop, e), flush=True)
        return 2
    finally:
        c.cleanup()
