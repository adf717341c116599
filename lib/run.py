"""Runs worker processes, watches them, and turns what they report into a verdict and an evidence file."""
import json, os, resource, select, shutil, signal, struct, subprocess, sys, tempfile, time
from build import build, BuildError, toolenv, VERIF, TARGET

REPLAYS = os.path.join(VERIF, "replays")
MAXSTEP = 2**64 - 1
CLK = os.sysconf("SC_CLK_TCK")


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / CLK
    except (OSError, IndexError, ValueError):
        return 0.0


class Worker:
    """One share of the cases, run by one variant. Restarted behind a case that killed it."""

    def __init__(self, name, binary, args, tmp, asan=False, out=None):
        self.name, self.binary, self.args, self.tmp, self.asan = name, binary, args, tmp, asan
        self.start = args.get("start", 0)
        self.proc = None
        self.buf = b""
        self.done = []
        self.crashes = []
        self.gen = 0
        self.finished = False
        self.sigs = []
        self.err = ""

    def launch(self):
        self.gen += 1
        self.hb = os.path.join(self.tmp, "%s.%d.hb" % (self.name, self.gen))
        sig = os.path.join(self.tmp, "%s.%d.sig" % (self.name, self.gen))
        self.sigs.append(sig)
        a = dict(self.args, start=self.start, hb=self.hb, sigs=sig)
        if self.args.get("dig"):
            a["dig"] = self.args["dig"] + ".%d" % self.gen
        self.errfile = os.path.join(self.tmp, "%s.%d.err" % (self.name, self.gen))
        env = toolenv()
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2048"
        asan = self.asan

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not asan:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

        self.proc = subprocess.Popen(
            [self.binary, "work"] + ["%s=%s" % kv for kv in a.items()],
            stdout=subprocess.PIPE, stderr=open(self.errfile, "wb"), env=env, preexec_fn=pre,
        )
        os.set_blocking(self.proc.stdout.fileno(), False)
        self.buf = b""
        self.last_hb = None
        self.last_cpu = 0.0
        self.last_t = time.time()

    def beat(self):
        try:
            with open(self.hb, "rb") as f:
                b = f.read(24)
        except OSError:
            return None
        return struct.unpack("<QQQ", b) if len(b) == 24 else None

    def errtail(self):
        try:
            with open(self.errfile, "rb") as f:
                b = f.read()
        except OSError:
            return ""
        t = b.decode("utf8", "replace")
        i = t.find("ERROR: AddressSanitizer")
        return (t[i:i + 1500] if i >= 0 else t[-1500:])


def crash_replay(prop, seed, case, tier, variant, note):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-crash-%s-%d-%d.txt" % (prop, variant, seed, case))
    with open(path, "w") as f:
        f.write("# property %s (%s build): %s\n" % (prop, variant, " ".join(note.split())[:600]))
        if prop == "C27":
            f.write("wasm prop=C27 seed=%d case=%d\n" % (seed, case))
        elif prop == "C28":
            f.write("e2e prop=C28 seed=%d case=%d\n" % (seed, case))
        else:
            f.write("gen prop=%d seed=%d case=%d tier=%s\n" % (int(prop[1:]), seed, case, tier))
    return path


class Verdict:
    def __init__(self):
        self.viols = []  # (message, replay)
        self.samples = []
        self.counts = {}
        self.evals = 0
        self.cases = 0
        self.capped = False
        self.distinct = 0
        self.unattributed = []
        self.setup_failed = None
        self.by_variant = {}


def run_workers(prop, seed, tier, workers, tmp, hang_cpu=25.0, hang_wall=90.0, shrink_wait=14.0, hard=800.0):
    """Run all workers to their end, or to the first violation."""
    v = Verdict()
    pnum = int(prop[1:])
    t0 = time.time()
    for w in workers:
        w.launch()
    stop_at = None
    while True:
        live = [w for w in workers if not w.finished]
        if not live:
            break
        now = time.time()
        if now - t0 > hard:
            v.capped = True
            break
        if stop_at and (now > stop_at):
            break
        fds = [w.proc.stdout for w in live]
        ready, _, _ = select.select(fds, [], [], 0.5)
        for w in live:
            if w.proc.stdout in ready:
                try:
                    b = os.read(w.proc.stdout.fileno(), 1 << 16)
                except BlockingIOError:
                    b = None
                if b:
                    w.buf += b
                    while b"\n" in w.buf:
                        line, w.buf = w.buf.split(b"\n", 1)
                        try:
                            m = json.loads(line)
                        except ValueError:
                            continue
                        if m["t"] == "sample":
                            v.samples.append(m["v"])
                        elif m["t"] == "viol":
                            w.reported = True
                            entry = (m["msg"], m["replay"], w.name)
                            if m.get("shrunk"):
                                v.viols = [x for x in v.viols if x[2] != w.name]
                                v.viols.insert(0, entry)
                                stop_at = now + 0.2
                            else:
                                v.viols.append(entry)
                                stop_at = min(stop_at or 1e18, now + shrink_wait)
                        elif m["t"] == "done":
                            w.done.append(m)
            beat = w.beat()
            if w.proc.poll() is not None:
                # drain what is left
                try:
                    rest = w.proc.stdout.read() or b""
                except (OSError, ValueError):
                    rest = b""
                for line in (w.buf + rest).split(b"\n"):
                    try:
                        m = json.loads(line)
                    except ValueError:
                        continue
                    if m.get("t") == "done":
                        w.done.append(m)
                    elif m.get("t") == "sample":
                        v.samples.append(m["v"])
                    elif m.get("t") == "viol":
                        v.viols.append((m["msg"], m["replay"], w.name))
                        stop_at = stop_at or now
                w.buf = b""
                rc = w.proc.returncode
                if rc == 0:
                    w.finished = True
                    continue
                note = "the process died (%s) while running case %s: %s" % (
                    "signal %d" % -rc if rc < 0 else "exit %d" % rc, beat and beat[0], w.errtail())
                if rc == 101:
                    # a panic outside the guarded calls is the harness's own
                    beat = beat and (beat[0], beat[1], 0)
                    note = "harness panic: " + note
                stop_at = on_crash(prop, pnum, seed, tier, w, beat, note, v, stop_at)
                continue
            # hang?
            c = cpu_of(w.proc.pid)
            if beat != w.last_hb:
                w.last_hb, w.last_cpu, w.last_t = beat, c, now
            elif beat is None:
                pass
            elif beat[0] == MAXSTEP - 2:
                pass  # shrinking
            elif c - w.last_cpu > hang_cpu and now - w.last_t > hang_cpu:
                w.proc.kill()
                w.proc.wait()
                note = "an instruction of case %d did not end within %.0f s of processor time" % (beat[0], c - w.last_cpu)
                stop_at = on_crash(prop, pnum, seed, tier, w, beat, note, v, stop_at)
    for w in workers:
        if w.proc and w.proc.poll() is None:
            w.proc.kill()
            w.proc.wait()
        for m in w.done:
            v.cases += m["cases"]
            v.evals += m["evals"]
            v.capped |= bool(m["capped"])
            v.setup_failed = v.setup_failed or m.get("setup_failed")
            for k, n in m["counts"].items():
                v.counts[k] = v.counts.get(k, 0) + n
            var = w.name.split("-")[0]
            v.by_variant[var] = v.by_variant.get(var, 0) + m["cases"]
    return v


def on_crash(prop, pnum, seed, tier, w, beat, note, v, stop_at):
    variant = w.name.split("-")[0]
    if beat is None:
        v.unattributed.append(note)
        w.finished = True
        return stop_at
    case, step, blame = beat
    if step != MAXSTEP and blame >> pnum & 1:
        path = crash_replay(prop, seed, case, tier, variant, note)
        v.viols.append((note, path, w.name))
        w.finished = True
        return stop_at or time.time() + 1.0
    # another property's matter (or the monitor's own): go on behind it
    v.unattributed.append(note)
    if len(w.crashes) >= 6:
        w.finished = True
        return stop_at
    w.crashes.append(case)
    w.start = case + 1
    w.launch()
    return stop_at


def union(binary, workers):
    files = [s for w in workers for s in w.sigs if os.path.exists(s)]
    if not files:
        return 0
    return int(subprocess.run([binary, "union"] + files, stdout=subprocess.PIPE, text=True).stdout.strip() or 0)


def read_digests(prefix):
    d = {}
    i = 1
    while os.path.exists("%s.%d" % (prefix, i)):
        b = open("%s.%d" % (prefix, i), "rb").read()
        for o in range(0, len(b) - 15, 16):
            k, x = struct.unpack_from("<QQ", b, o)
            d[k] = x
        i += 1
    return d


def write_evidence(prop, tier, seed, coverage, wall, nviol, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol,
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
