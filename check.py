#!/usr/bin/env python3
"""Runs the simulator for one property: builds it against /repo's working tree, searches over
seeded runs, minimises and re-executes what it finds, and writes the evidence file.

  check.py PROPERTY               the check (VERIF_SEED, VERIF_TIER)
  check.py --build                just build
  check.py --replay FILE          replay a violation
  check.py --selftest [N]         determinism: many seeds, twice each, in many processes
"""

import fcntl
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("LSIM_BUILD", os.path.join(VERIF, "build"))
WORKERS = int(os.environ.get("LSIM_WORKERS", "0")) or max(2, min(16, os.cpu_count() or 8))
# A run usually takes about a millisecond, and at most some ten seconds.
HANG_S = 80.0

sys.path.insert(0, VERIF)
from plan import PLAN, ASSUMPTIONS, RULES, COMPONENTS  # noqa: E402


class HarnessError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("LSIM_")}
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.setdefault("HOME", "/root")
    cargo = os.path.join(e["HOME"], ".cargo", "bin")
    if os.path.isdir(cargo) and cargo not in e.get("PATH", ""):
        e["PATH"] = cargo + ":" + e.get("PATH", "")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e


def start_build(variant):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, variant)
    if variant == "dst":
        e["RUSTFLAGS"] = "--cfg linesweeper_dst"
    return subprocess.Popen(
        ["cargo", "build", "--offline", "--quiet", "--locked"],
        cwd=SIM,
        env=e,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )


def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    failed = {}
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ps = [(v, start_build(v)) for v in variants]
        for v, p in ps:
            out, _ = p.communicate()
            if p.returncode != 0:
                failed[v] = out
    for v, out in failed.items():
        # The hooks are off by default, so a change to the code may well break them without
        # anyone noticing. The code that ships can be checked nevertheless.
        if v != "dst" or len(failed) == len(variants):
            raise HarnessError(f"building the {v} variant failed:\n{out[-4000:]}")
        print(f"NOTE: the variant with the hooks doesn't build; going on without it:\n{out[-1500:]}")
    return {v: os.path.join(BUILD, v, "debug", "lsim") for v in variants if v not in failed}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def lsim(exe, *args, timeout=None):
    """Returns (exit code, output); the exit code is None if it timed out."""
    try:
        p = subprocess.run(
            [exe, *map(str, args)],
            env=env(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            errors="replace",
            timeout=timeout,
            preexec_fn=limits,
        )
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return None, out.decode(errors="replace") if isinstance(out, bytes) else out


def read(path, default=""):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return default


def batch(exe, variant, prop, seed, count, secs, out):
    """Runs a batch. Returns (stats, None or the index and kind of the first violation)."""
    os.makedirs(out)
    procs = []
    for w in range(WORKERS):
        procs.append(
            subprocess.Popen(
                [exe, "batch", prop, str(seed), str(w), str(WORKERS), str(count), str(secs), out],
                env=env(),
                stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(out, f"stderr.{w}"), "w"),
                preexec_fn=limits,
            )
        )
    last = [("", time.monotonic())] * WORKERS
    abnormal = []  # (index, kind)
    live = set(range(WORKERS))
    # Workers stop by themselves, except if they're stuck.
    while live:
        time.sleep(0.1)
        now = time.monotonic()
        for w in sorted(live):
            rc = procs[w].poll()
            prog = read(os.path.join(out, f"progress.{w}")).strip()
            if prog != last[w][0]:
                last[w] = (prog, now)
            if rc is not None:
                live.discard(w)
                if rc != 0 or prog != "done":
                    if not prog.isdigit():
                        err = read(os.path.join(out, f"stderr.{w}"))
                        raise HarnessError(f"worker {w} failed with {rc} before starting: {err[-2000:]}")
                    if rc == -signal.SIGKILL:
                        # Someone else did that (when the machine ran out of memory, say).
                        raise HarnessError(f"worker {w} was killed in run {prog}")
                    abnormal.append((int(prog), "crash"))
            elif now - last[w][1] > HANG_S:
                procs[w].kill()
                procs[w].wait()
                live.discard(w)
                if not prog.isdigit():
                    raise HarnessError(f"worker {w} hangs, but not in a run")
                abnormal.append((int(prog), "hang"))
                for v in live:
                    # no need to wait for everyone else's last run
                    last[v] = (last[v][0], max(last[v][1] - HANG_S / 2, 0))
                with open(os.path.join(out, "stop.tmp"), "w") as f:
                    f.write(prog)
                if not os.path.exists(os.path.join(out, "stop")):
                    os.rename(os.path.join(out, "stop.tmp"), os.path.join(out, "stop"))
    stats = []
    for w in range(WORKERS):
        text = read(os.path.join(out, f"stats.{w}"))
        if text:
            stats.append(json.loads(text))
    found = [(int(n.split(".")[1]), "violation") for n in os.listdir(out) if n.startswith("violation.")]
    found = sorted(found + abnormal)
    return stats, (found[0] if found else None)


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def seed_replay_file(prop, variant, seed, index, kind, path):
    with open(path, "w") as f:
        f.write("lsim-replay 1\n")
        f.write(f"property {prop}\nseed {seed} run {index}\n")
        f.write(f"hooks {'true' if variant == 'dst' else 'false'}\n")
        f.write(f"class {kind}\nmode generate\n")
        f.write(f"# the simulated process {'stopped making progress' if kind == 'hang' else 'died'}\n")


def report(exe, variant, prop, seed, index, kind, out, min_secs):
    """Minimises a violation, and makes sure that it replays. Returns the path and the notes."""
    path = os.path.join(replay_dir(), f"{prop}.replay")
    notes = []
    if kind in ("hang", "crash"):
        seed_replay_file(prop, variant, seed, index, kind, path)
        rc, _ = lsim(exe, "replay", path, timeout=HANG_S)
        if kind == "hang":
            notes.append("replay hangs too" if rc is None else "replay did NOT hang")
        else:
            notes.append(f"replay ends with {rc}")
        return path, notes, f"run {index}: {kind}"
    src = os.path.join(out, f"violation.{index}")
    rc, text = lsim(exe, "min", src, path, min_secs, timeout=min_secs * 2 + 60)
    ok = False
    if rc == 0:
        rc, text = lsim(exe, "replay", path, timeout=HANG_S)
        ok = rc == 1 and "reproduced exactly" in text
    if not ok:
        shutil.copy(src, path)
        rc, text = lsim(exe, "replay", path, timeout=HANG_S)
        ok = rc == 1 and "reproduced exactly" in text
        notes.append("not minimised")
    notes.append("replayed exactly in a fresh process" if ok else "does NOT replay exactly")
    detail = [l[2:] for l in read(path).splitlines() if l.startswith("# ")]
    return path, notes, "\n".join(detail[:6])


def known_findings(exe, prop):
    """Runs the recorded findings. Those that still fail get printed; they never fail the check."""
    rc, out = lsim(exe, "known", prop, timeout=HANG_S)
    if rc not in (0, 1):
        # They don't decide anything: the search does.
        print(f"NOTE: running the known findings failed (exit code {rc})")
    ret = []
    for line in out.splitlines():
        if line.startswith("FAILS "):
            ret.append(line[6:])
    return ret


def determinism(exe, prop, seed, n):
    """The same runs, in different processes: do their event logs agree?"""
    half = n // 2
    a = subprocess.Popen([exe, "hashes", prop, str(seed), "0", str(n)], env=env(), text=True, stdout=subprocess.PIPE)
    b = subprocess.Popen([exe, "hashes", prop, str(seed), str(half), str(n - half)], env=env(), text=True, stdout=subprocess.PIPE)
    c = subprocess.Popen([exe, "hashes", prop, str(seed), "0", str(half)], env=env(), text=True, stdout=subprocess.PIPE)
    outs = []
    for p in (a, b, c):
        try:
            outs.append(p.communicate(timeout=2 * HANG_S)[0])
        except subprocess.TimeoutExpired:
            p.kill()
            return None
    return outs[0] == outs[2] + outs[1]


def determinism_span(plan):
    return plan.get("det", 40)


def diverged_replay_file(prop, variant, seed, index, span, path):
    with open(path, "w") as f:
        f.write("lsim-replay 1\n")
        f.write(f"property {prop}\nseed {seed} run {index}\n")
        f.write(f"hooks {'true' if variant == 'dst' else 'false'}\n")
        f.write(f"class diverged\nmode generate\nspan {span}\n")
        f.write("# the same simulated runs gave different answers when they were executed again\n")


def replay_diverged(exe, text):
    """Executes the runs in question several times: all in one process, each one in its own, and
    starting in the middle."""
    f = {l.split()[0]: l.split() for l in text.splitlines() if l and not l.startswith("#")}
    prop, seed, index = f["property"][1], f["seed"][1], int(f["seed"][3])
    first, n = (0, int(f["span"][1])) if int(f["span"][1]) > index else (index, 1)
    n = min(n, 400)
    ways = [[(first, n)], [(first, n)], [(first, n // 2), (first + n // 2, n - n // 2)], [(i, 1) for i in range(first, first + n)][-40:]]
    outs = []
    for way in ways:
        got = {}
        for i, k in way:
            if k:
                rc, out = lsim(exe, "hashes", prop, seed, i, k, timeout=4 * HANG_S)
                got.update(dict(l.split(" ", 1) for l in out.splitlines() if " " in l))
        outs.append(got)
    bad = sorted({int(i) for got in outs for i in got if i.isdigit() and got[i] != outs[0].get(i, got[i])})
    print(f"{prop}: {len(bad)} of {n} runs gave different answers: {bad[:10]}")
    return 1 if bad else 0


def merge(stats):
    m = {"faults": {}, "fault_runs": {}, "probes": {}, "distinct": set(), "shapes": set(), "diverged": [], "samples": []}
    for k in ("runs", "nontrivial", "events", "sweep_lines", "with_faults", "rerun", "hash_seed_requests", "threads", "switches"):
        m[k] = sum(s.get(k, 0) for s in stats)
    for s in stats:
        for k in ("faults", "fault_runs", "probes"):
            for n, v in s[k].items():
                m[k][n] = m[k].get(n, 0) + v
        m["distinct"].update(s["distinct"])
        m["shapes"].update(s["shapes"])
        m["diverged"] += s["diverged"]
        m["samples"] += s["samples"]
    m["slowest"] = max((s["slowest"][1] for s in stats), default=0)
    m["cut_short"] = any(s["cut_short"] for s in stats)
    return m


def check(prop):
    t_start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    plan = PLAN[prop]
    print(f"check {prop}: seed {seed}, tier {tier}")
    exes = build(sorted(plan["variants"]))
    build_s = time.monotonic() - t_start

    known = known_findings(exes[sorted(plan["variants"])[-1]], prop)
    if len(exes) < len(plan["variants"]):
        missing = ["the variant with the hooks didn't build, so that there were no engine faults"]
    else:
        missing = []
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")

    tmp = tempfile.mkdtemp(prefix=f"lsim-{prop}-")
    coverage = {}
    violation = None
    totals = []
    t_batch = 0.0
    try:
        for vi, variant in enumerate(plan["order"]):
            if variant not in exes:
                continue
            count, secs = plan["variants"][variant][tier]
            if len(exes) < len(plan["variants"]):
                count *= 2
            scale = float(os.environ.get("LSIM_SCALE", "1"))
            count = max(WORKERS, int(count * scale))
            exe = exes[variant]
            vseed = seed * 16 + vi
            out = os.path.join(tmp, variant)
            t0 = time.monotonic()
            stats, found = batch(exe, variant, prop, vseed, count, secs, out)
            wall = time.monotonic() - t0
            t_batch += wall
            m = merge(stats)
            m["wall"] = wall
            m["variant"] = variant
            totals.append(m)
            rate = m["runs"] / wall * 3600
            print(
                f"  {variant}: {m['runs']} runs in {wall:.1f} s ({rate / 1e6:.2f} million/hour), "
                f"{len(m['distinct'])} distinct non-trivial, {sum(m['faults'].values())} faults in {m['with_faults']} runs"
            )
            if found:
                index, kind = found
                path, notes, detail = report(exe, variant, prop, vseed, index, kind, out, plan.get("min_secs", 25))
                violation = (path, notes, detail, variant, vseed, index)
                break
            same = determinism(exe, prop, vseed, determinism_span(plan))
            m["processes_agree"] = same
            if m["diverged"] or same is False:
                if not plan.get("repeats"):
                    raise HarnessError(f"runs of {prop} don't repeat exactly: {m['diverged'][:5]} {same}")
                # Everything outside of the library is under the simulator's control, so it's the
                # library that depends on something that it shouldn't depend on.
                index = min(m["diverged"], default=0)
                path = os.path.join(replay_dir(), f"{prop}.replay")
                span = determinism_span(plan) if same is False else index + 1
                diverged_replay_file(prop, variant, vseed, index, span, path)
                notes = ["the same runs, executed again, gave different answers"]
                violation = (path, notes, f"runs {m['diverged'][:5]}, across processes: {same}", variant, vseed, index)
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    def total(k):
        return sum(m[k] for m in totals)

    def merged(k):
        r = {}
        for m in totals:
            for n, v in m[k].items():
                r[n] = r.get(n, 0) + v
        return dict(sorted(r.items()))

    distinct = set()
    shapes = set()
    for m in totals:
        distinct |= {m["variant"] + h for h in m["distinct"]}
        shapes |= m["shapes"]
    coverage = {
        "evaluations": total("runs"),
        "distinct_nontrivial": len(distinct),
        "rule": RULES[prop],
        "samples": [
            {"variant": m["variant"], **s} for m in totals for s in m["samples"][:2]
        ][:4],
        "simulated_runs_per_hour": round(total("runs") / max(t_batch, 1e-9) * 3600),
        "runs_by_variant": {m["variant"]: m["runs"] for m in totals},
        "simulated_time": {
            "sweep_steps": total("sweep_lines"),
            "logged_events": total("events"),
            "note": "there are no clocks in this library: simulated time is counted in sweep-line steps and logged events",
        },
        "runs_with_faults": total("with_faults"),
        "faults_injected": merged("faults"),
        "runs_with_fault_kind": merged("fault_runs"),
        "probes": merged("probes"),
        "simulated_threads": total("threads"),
        "thread_switches": total("switches"),
        "distinct_schedules": len(shapes),
        "distinct_schedules_measure": "distinct hashes of a run's thread schedule (or checkpoints, or pairs compared) and of all engine faults that fired (site, ordinal, argument)",
        "rerun_in_process": total("rerun"),
        "reruns_that_diverged": sum(len(m["diverged"]) for m in totals),
        "processes_agree": [m.get("processes_agree") for m in totals],
        "hash_seed_requests_served": total("hash_seed_requests"),
        "components": COMPONENTS,
        "slowest_run_s": max((m["slowest"] for m in totals), default=0),
        "workers": WORKERS,
        "cut_short": any(m["cut_short"] for m in totals),
        "build_s": round(build_s, 1),
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": ASSUMPTIONS + plan.get("assumptions", []) + missing,
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": 1 if violation else 0,
        "known_findings_reproduced": known,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if violation:
        path, notes, detail, variant, vseed, index = violation
        print(f"  {variant} variant, seed {vseed}, run {index}; {'; '.join(notes)}")
        for l in detail.splitlines():
            print("  " + l[:1000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} held on {total('runs')} runs")
    return 0


def replay(path):
    text = read(path)
    variant = "dst" if "\nhooks true" in text else "plain"
    exes = build([variant])
    if "\nclass diverged" in text:
        return replay_diverged(exes[variant], text)
    rc, out = lsim(exes[variant], "replay", path, timeout=HANG_S)
    print(out, end="")
    if rc is None:
        print("replay: no progress")
        return 1
    return rc


def selftest(n):
    """Every property, both variants, many seeds: twice each, across processes, in different
    groupings."""
    exes = build(["dst", "plain"])
    bad = 0
    for prop, plan in PLAN.items():
        for variant in plan["order"]:
            exe = exes[variant]
            runs = []
            for size in (n, 37, 11):
                got = {}
                procs = []
                i = 0
                while i < n:
                    k = min(size, n - i)
                    procs.append(subprocess.Popen([exe, "hashes", prop, "77", str(i), str(k)], env=env(), text=True, stdout=subprocess.PIPE))
                    i += k
                    while len([p for p in procs if p.poll() is None]) >= (3 if size == 37 else 12):
                        for p in procs:
                            if p.poll() is None:
                                out = p.communicate()[0]
                                p.lsim_out = out
                                break
                for p in procs:
                    out = getattr(p, "lsim_out", None)
                    if out is None:
                        out = p.communicate()[0]
                    for l in out.splitlines():
                        a, b = l.split(" ", 1)
                        got[int(a)] = b
                runs.append((len(procs), got))
            same = all(g == runs[0][1] for _, g in runs) and len(runs[0][1]) == n
            print(f"{prop} {variant}: {n} runs x {len(runs)} in {[p for p, _ in runs]} processes: {'identical' if same else 'DIFFERENT'}")
            bad += not same
    return 1 if bad else 0


def main():
    args = sys.argv[1:]
    if "--tier" in args:
        i = args.index("--tier")
        os.environ["VERIF_TIER"] = args[i + 1]
        del args[i : i + 2]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--build":
        build(["dst", "plain"])
        return 0
    if args[0] == "--replay":
        return replay(args[1])
    if args[0] == "--selftest":
        return selftest(int(args[1]) if len(args) > 1 else 200)
    if args[0] not in PLAN:
        raise HarnessError(f"unknown property {args[0]}")
    return check(args[0])


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print(f"HARNESS ERROR: {e}")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
