#!/usr/bin/env python3
"""Decide one property: python3 run.py <property> [quick|thorough]

Every property is decided by stages over an explicit TLA+ specification in spec/:
  mc     TLC explores a module exhaustively (or by simulation); every transition it takes is printed as a
         test and replayed into the real code, which must end in the state the specification predicts.
  trace  the real code is driven (seeded random histories, threads, ...) and what it did is recorded;
         TLC decides whether the recording is a behaviour of the specification.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, threading

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "target")
sys.path.insert(0, ROOT)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", TZ="UTC", CARGO_TARGET_DIR=TARGET)
for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "JAVA_TOOL_OPTIONS"):
    ENV.pop(k, None)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        self.what, self.data = what, data


def build(pkg):
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", pkg], cwd=os.path.join(ROOT, "harness"),
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])


def bin_path(name):
    return os.path.join(TARGET, "debug", name)


def java(mem):
    return ["java", "-XX:+UseParallelGC", "-Xmx%s" % mem, "-Xss16m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"]


def parse_stats(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ",").replace("\u202f", ""))
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        return int(m.group(1)), int(m.group(1))
    return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.stage_log, self.known = [], [], []
        self.n = 0

    def see_known(self, stage, ident, count):
        """a divergence the specification describes by name: fine only while known_findings.json lists it"""
        for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
            if f["id"] == ident and self.prop in f["properties"]:
                with self.lock:
                    if not any(k.startswith(ident) for k in self.known):
                        self.known.append("%s: %s" % (ident, f["what"]))
                return
        raise Violation("%s: %d times the divergence %s, which is not a listed finding" % (stage, count, ident),
                        dict(stage=stage, event=ident))

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%02d-%s" % (self.n, name))

    def add(self, stage, states=0, transitions=0, traces=0, events=0, sample=None, wall=0.0):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.traces += traces
            self.events += events
            self.stage_log.append(dict(stage=stage, states=states, transitions=transitions,
                                       traces_or_tests=traces, events=events, wall_s=round(wall, 1)))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(dict(stage=stage, case=sample))


def died(code):
    return code < 0 and code not in (-9, -15)


def run_mc(ctx, module, cfg, replay=None, workers=8, mem="6g", sim=None, extra=(), min_tests=1, env=None, replay_args=()):
    """Explore a module; replay=(binary, component): stream each printed transition into the real code."""
    t = time.time()
    name = os.path.splitext(cfg)[0]
    md = ctx.path("md-" + name)
    cmd = java(mem) + ["-workers", str(workers), "-config", cfg, "-metadir", md, "-seed", str(ctx.seed),
                       "-fp", "51"] + list(extra)
    if sim:
        cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1])]
    cmd.append(module + ".tla")
    e = dict(ENV, **(env or {}))
    log = ctx.path(name + ".log")
    out = ""
    if replay:
        p1 = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        p2 = subprocess.Popen([bin_path(replay[0]), replay[1], "replay", log] + list(replay_args), stdin=p1.stdout,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=ctx.dir)
        p1.stdout.close()
        out, err = p2.communicate()
        if p2.returncode not in (0, 1, 9):
            p1.kill()
            p1.wait()
            if died(p2.returncode):
                raise Violation("%s: the process running the real code died with signal %d" % (name, -p2.returncode),
                                dict(stage=name, stderr=err[-2000:]))
            raise ToolError("%s: replay driver failed (%s): %s %s" % (name, p2.returncode, out[-1500:], err[-1500:]))
        if p2.returncode == 9:
            p1.kill()
        p1.wait()
    else:
        with open(log, "w") as f:
            p1 = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
            p1.wait()
    shutil.rmtree(md, ignore_errors=True)
    bad, summ = [], {}
    for line in out.splitlines():
        try:
            v = json.loads(line)
        except ValueError:
            continue
        if "bad" in v and isinstance(v["bad"], dict):
            bad.append(v["bad"])
        elif "replayed" in v:
            summ = v
        elif "known" in v:
            ctx.see_known(name, v["known"], v["count"])
        elif "tool_error" in v:
            raise ToolError(v["tool_error"])
    text = open(log, errors="replace").read()
    if bad:
        raise Violation("%s: the real code left the behaviour of the specification" % name,
                        dict(stage=name, module=module, cfg=cfg, mismatches=bad[:5], total=summ.get("bad")))
    ok = "No error has been found" in text or (sim and "Error:" not in text and p1.returncode == 0)
    st = parse_stats(text)
    if p1.returncode != 0 or not ok or st is None:
        raise ToolError("%s: TLC did not finish cleanly (exit %s): %s" % (name, p1.returncode, text[-3000:]))
    if replay and summ.get("replayed", 0) < min_tests:
        raise ToolError("%s: only %s tests came out of the specification" % (name, summ.get("replayed")))
    ctx.add(name, states=st[1], transitions=st[0], traces=summ.get("replayed", 0),
            sample=summ.get("sample"), wall=time.time() - t)


RUN_START = re.compile(r'"op": ?"(reset|grid|sheet|vector)"')


def split_runs(lines, upto):
    """the run (from its reset line) that contains line index upto"""
    a = upto
    while a > 0 and '"reset"' not in lines[a][:400] and not RUN_START.search(lines[a]):
        a -= 1
    return lines[a:upto + 1]


def run_trace(ctx, module, cfg, record, name=None, mem="3g", min_events=1, env=None, expect_reject=False, timeout=840):
    """record: [binary, args...]; the trace path is appended. TLC must accept the whole trace."""
    t = time.time()
    name = name or os.path.splitext(cfg)[0]
    tr = ctx.path(name + ".ndjson")
    e = dict(ENV, **(env or {}))
    p = subprocess.run([bin_path(record[0])] + [str(x) for x in record[1:]] + [tr], cwd=ctx.dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    for line in p.stdout.splitlines():
        if line.startswith('{"bad"'):
            raise Violation("%s: %s" % (name, "the real code misbehaved while being driven"),
                            dict(stage=name, record=record, **json.loads(line)))
    if died(p.returncode):
        raise Violation("%s: the process running the real code died with signal %d" % (name, -p.returncode),
                        dict(stage=name, record=record, stderr=p.stderr[-2000:]))
    if p.returncode == 101 and "harness:" not in p.stderr:
        raise Violation("%s: the real code panicked, or refused a legal call, while being driven" % name,
                        dict(stage=name, record=record, stderr=p.stderr[-3000:]))
    if p.returncode != 0:
        raise ToolError("%s: recording failed (%s): %s %s" % (name, p.returncode, p.stdout[-1500:], p.stderr[-1500:]))
    check_trace(ctx, module, cfg, tr, name, mem, min_events, e, t, record)


def run_miri(ctx, module, cfg, pkg, seeds, args, name="miri"):
    """Run a driver of the real code under Miri (weak memory, detects unordered accesses), one process per seed;
    what the runs print is a trace for TLC.  A data race is a violation by itself."""
    t = time.time()
    e = dict(ENV, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(TARGET, "miri"))

    def one(k):
        return subprocess.run(["cargo", "miri", "run", "-q", "--offline", "--locked", "-p", pkg, "--", str(k)] + [str(x) for x in args],
                              cwd=os.path.join(ROOT, "harness"), env=dict(e, MIRIFLAGS="-Zmiri-seed=%d -Zmiri-preemption-rate=0.03" % k),
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    outs = [one(seeds[0])]
    with cf.ThreadPoolExecutor(8) as ex:
        outs += list(ex.map(one, seeds[1:]))
    lines = []
    for k, p in zip(seeds, outs):
        if p.returncode != 0:
            err = p.stderr
            m = re.search(r"error: Undefined Behavior: (.*)", err)
            if m:
                raise Violation("%s: %s" % (name, m.group(1)), dict(stage=name, miri_seed=k, stderr=err[-4000:]))
            if "panicked at" in err and "unsupported operation" not in err:
                raise Violation("%s: the real code panicked, or refused a legal call, while being driven" % name,
                                dict(stage=name, miri_seed=k, stderr=err[-3000:]))
            if "unsupported operation" in err:      # the code asks for something Miri does not emulate: no verdict from this stage
                print("NOTE: %s: Miri cannot run this code (seed %d); stage left out" % (name, k))
                return
            raise ToolError("%s: Miri failed (%s): %s" % (name, p.returncode, err[-3000:]))
        lines += [x for x in p.stdout.splitlines() if x.startswith("{")]
    tr = ctx.path(name + ".ndjson")
    open(tr, "w").write("\n".join(lines) + "\n")
    check_trace(ctx, module, cfg, tr, name, min_events=len(seeds), t=t)


def check_trace(ctx, module, cfg, tr, name, mem="3g", min_events=1, e=None, t=None, record=None):
    t = t or time.time()
    e = e or ENV
    lines = open(tr).read().splitlines()
    if len(lines) < min_events:
        raise ToolError("%s: only %d events recorded" % (name, len(lines)))
    md = ctx.path("md-" + name)
    p = subprocess.run(java(mem) + ["-workers", "1", "-config", cfg, "-metadir", md, module + ".tla"],
                       cwd=SPEC, env=dict(e, TRACE=tr), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r'<<"REJECTED-AT", (\d+)>>', p.stdout)
    if m:
        k = int(m.group(1))
        prev = lines[k - 2] if k >= 2 else None
        raise Violation("%s: recorded event %d is not a step of the specification" % (name, k),
                        dict(stage=name, module=module, record=record, trace_line=k,
                             event=json.loads(lines[k - 1]) if k <= len(lines) else None,
                             previous=json.loads(prev) if prev else None,
                             run=[json.loads(x) for x in split_runs(lines, min(k, len(lines)) - 1)][-60:]))
    if "is violated" in p.stdout:
        raise Violation("%s: an invariant of the specification is violated by the recorded behaviour" % name,
                        dict(stage=name, module=module, record=record, tlc=p.stdout[-6000:]))
    for k in sorted(set(re.findall(r'"KNOWN ([\w-]+)"', p.stdout))):
        ctx.see_known(name, k, p.stdout.count(k))
    st = parse_stats(p.stdout)
    if p.returncode != 0 or "No error has been found" not in p.stdout or st is None:
        raise ToolError("%s: TLC failed on a trace (exit %s): %s" % (name, p.returncode, p.stdout[-3000:]))
    runs = sum(1 for x in lines if '"op":"reset"' in x) or 1
    ctx.add(name, states=st[1], transitions=st[0], traces=runs, events=len(lines),
            sample=json.loads(lines[len(lines) // 2]), wall=time.time() - t)
    os.remove(tr)


def parallel(jobs, n=6):
    """run callables; the first violation wins, then the first tool error"""
    errs = []
    with cf.ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(j) for j in jobs]:
            try:
                f.result()
            except (Violation, ToolError) as x:
                errs.append(x)
    for x in errs:
        if isinstance(x, Violation):
            raise x
    if errs:
        raise errs[0]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    t = time.time()
    ctx = Ctx(prop, tier, seed)
    p = props.PROPS[prop]
    status, viol = 0, 0
    try:
        for pkg in p.get("pkgs", []):
            build(pkg)
        p["run"](ctx)
    except Violation as v:
        viol = 1
        path = os.path.join(ctx.dir, "replay.json")
        json.dump(dict(property=prop, tier=tier, seed=seed, what=v.what, **v.data), open(path, "w"), indent=1)
        print(v.what)
        if v.data.get("stderr"):
            print(v.data["stderr"][:800])
        for m in v.data.get("mismatches", [v.data.get("event")])[:2]:
            print(json.dumps(m)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    except ToolError as x:
        print("TOOL-ERROR property=%s: %s" % (prop, x))
        status = 2
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking",
                   coverage=dict(states=ctx.states, transitions=ctx.transitions,
                                 traces_validated_against_impl=ctx.traces, events_validated=ctx.events,
                                 stages=ctx.stage_log, samples=ctx.samples or [{"none": True}]),
                   assumptions=p.get("assumptions", []), wall_s=round(time.time() - t, 1), violations=viol),
              open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s %s: %d states, %d transitions, %d tests/traces on the real code, %d recorded events, %.0f s"
          % (prop, tier, {0: "held", 1: "BROKEN", 2: "error"}[status], ctx.states, ctx.transitions, ctx.traces,
             ctx.events, time.time() - t))
    sys.exit(status)


if __name__ == "__main__":
    import run  # the same module object props.py uses, so exceptions match
    run.main()
