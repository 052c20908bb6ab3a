#!/usr/bin/env python3
"""Runs the check of one property: builds it against QCoro's working tree, searches with 8 workers, shrinks and
confirms what fails, and writes the evidence file.

usage: driver.py <property id> [--tier quick|thorough] [--src /repo] [--build DIR] [--only scenario] [--factor F]
       driver.py --replay FILE   (builds, then runs the one saved case verbosely)
Exit status: 0 the property held on everything explored, 1 it is violated (VIOLATION line), 2 the check could not run.
"""
import ctypes
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = "-g1 -O1 -fsanitize=address,undefined -fno-sanitize=vptr,null -fno-sanitize-recover=undefined " \
        "-fno-omit-frame-pointer -DQT_FORCE_ASSERTS -w"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
THREAD_SANITIZED = {"C30"}
OUTCOMES = {0: "ok", 10: "property", 96: "deadlock", 97: "hang", 98: "memory error", 2: "error"}


def sh_env(tmp):
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "exitcode=98:detect_leaks=0:max_free_fill_size=65536:free_fill_byte=189:detect_stack_use_after_return=0:abort_on_error=0:"
                        "allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
        "TSAN_OPTIONS": "halt_on_error=1:exitcode=98",
        "QT_QPA_PLATFORM": "offscreen",
        "QT_LOGGING_RULES": "",
        "QML_DISABLE_DISK_CACHE": "1",
        "QT_NO_GLIB": "1",
        "HOME": tmp,
        "TMPDIR": tmp,
        "XDG_RUNTIME_DIR": tmp,
        "XDG_CACHE_HOME": tmp,
        "LANG": "C.UTF-8",
        "LC_ALL": "C.UTF-8",
    })
    env.pop("QT_FATAL_WARNINGS", None)
    for v in ("http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"):
        env.pop(v, None)
    return env


class Check:
    def __init__(self, args):
        self.id = args.property
        self.tier = args.tier
        self.seed = args.seed
        self.src = args.src
        self.only = args.only
        self.factor = args.factor
        self.build_dir = args.build or os.path.join(VERIF, "build")
        self.out = os.path.join(self.build_dir, "run-" + self.id)
        self.start = time.time()
        self.assumptions = []
        if self.id in THREAD_SANITIZED:
            # its shadow memory does not tolerate every randomized layout
            ctypes.CDLL(None).personality(0x0040000)  # ADDR_NO_RANDOMIZE
        self.notes = []

    # ------------------------------------------------------------------ build
    def build(self):
        os.makedirs(self.build_dir, exist_ok=True)
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        os.makedirs(self.out)
        tmp = os.path.join(self.out, "tmp")
        os.makedirs(tmp, mode=0o700)
        self.env = sh_env(tmp)
        env = dict(os.environ, CC="gcc", CXX="g++", LANG="C.UTF-8")
        log = os.path.join(self.out, "build.log")
        with open(log, "wb") as f:
            cfg = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", self.build_dir, "-G", "Ninja",
                   "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + FLAGS, "-DQCORO_SRC=" + self.src]
            for cmd in (cfg, ["ninja", "-C", self.build_dir, self.id]):
                if subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env).returncode != 0:
                    f.flush()
                    sys.stderr.write(open(log, errors="replace").read()[-6000:])
                    print("ERROR: cannot build the check of %s (see above)" % self.id)
                    sys.exit(2)
        self.bin = os.path.join(self.build_dir, self.id)

    # ------------------------------------------------------------------ running single cases
    def run_case(self, text, timeout=100, keep=None):
        path = keep or os.path.join(self.out, "case-%d-%d" % (os.getpid(), time.monotonic_ns()))
        with open(path, "w") as f:
            f.write(text)
        env = dict(self.env)
        try:
            p = subprocess.run([self.bin, "replay", path], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=self.out, start_new_session=True)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, err = 97, (e.stderr or b"").decode(errors="replace")
        if not keep:
            os.unlink(path)
        if rc == 2:
            rc = 0  # not a case of this check
        return rc, err

    def fails(self, text):
        return self.run_case(text)[0] != 0

    # ------------------------------------------------------------------ shrinking
    def shrink(self, text, budget, attempts=1):
        """Greedy delta debugging on the text of the case; each candidate runs in a process of its own."""
        head, cfg, ops = [], [], []
        for line in text.splitlines():
            if line.startswith("op "):
                ops.append(line.split()[1:])
            elif line.startswith("cfg "):
                cfg.append(line.split()[1:])
            elif not line.startswith("#"):
                head.append(line)

        def render(cfg, ops):
            return "\n".join(head + ["cfg " + " ".join(c) for c in cfg] + ["op " + " ".join(o) for o in ops]) + "\n"

        def bad(cand):
            t = render(*cand)
            return any(self.fails(t) for _ in range(attempts))

        end = time.time() + budget
        pool = cf.ThreadPoolExecutor(WORKERS)

        def first_bad(cands):
            # evaluated in order, in parallel batches; the earliest failing candidate wins (deterministic)
            for i in range(0, len(cands), WORKERS):
                if time.time() > end:
                    return None
                batch = cands[i:i + WORKERS]
                for c, r in zip(batch, list(pool.map(bad, batch))):
                    if r:
                        return c
            return None

        size = max(1, len(ops) // 2)
        while ops and time.time() < end:
            cands = [(cfg, ops[:i] + ops[i + size:]) for i in range(0, len(ops), size)]
            got = first_bad(cands)
            if got:
                ops = got[1]
                size = min(size, max(1, len(ops)))
            elif size > 1:
                size //= 2
            else:
                break

        def smaller(v):
            v = int(v)
            return [str(x) for x in dict.fromkeys([0, v // 2, v - 1]) if 0 <= x < v]

        progress = True
        while progress and time.time() < end:
            progress = False
            cands = []
            for i, c in enumerate(cfg):
                for s in smaller(c[1]):
                    cands.append((cfg[:i] + [[c[0], s]] + cfg[i + 1:], ops))
            for i, o in enumerate(ops):
                for j in range(1, len(o)):
                    for s in smaller(o[j]):
                        cands.append((cfg, ops[:i] + [o[:j] + [s] + o[j + 1:]] + ops[i + 1:]))
            got = first_bad(cands)
            if got:
                cfg, ops = got
                progress = True
        # one more pass over the operations
        i = 0
        while i < len(ops) and time.time() < end:
            cand = (cfg, ops[:i] + ops[i + 1:])
            if bad(cand):
                ops = cand[1]
            else:
                i += 1
        pool.shutdown()
        return render(cfg, ops)

    # ------------------------------------------------------------------ search
    def worker_cmd(self, w, max_seconds):
        cmd = [self.bin, "search", "--seed", str(self.seed), "--worker", str(w), "--tier", self.tier,
               "--out", self.out, "--max-seconds", str(max_seconds), "--factor", str(self.factor)]
        if self.only:
            cmd += ["--only", self.only]
        return cmd

    def search(self):
        max_seconds = 700 if self.tier == "thorough" else 150
        hard = time.time() + max_seconds + 110
        procs = {}
        for w in range(WORKERS):
            err = open(os.path.join(self.out, "w%d.err" % w), "wb")
            procs[w] = subprocess.Popen(self.worker_cmd(w, max_seconds), env=self.env, stdout=subprocess.DEVNULL,
                                        stderr=err, cwd=self.out, start_new_session=True)
        failed = []
        seen = None
        while procs:
            for w, p in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del procs[w]
                if rc != 0:
                    failed.append((w, rc))
                    seen = seen or time.time()
            # after the first failure give the other workers a moment: a second witness may be a smaller one
            if (seen and time.time() > seen + 3) or time.time() > hard:
                for w, p in procs.items():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                procs.clear()
                if not seen:
                    self.notes.append("a worker exceeded the time limit of the search and was stopped")
            time.sleep(0.05)
        return failed

    def case_of_worker(self, w, rc):
        base = os.path.join(self.out, "w%d" % w)
        if rc == 10:
            try:
                return json.load(open(base + ".json"))["failure"]
            except (OSError, ValueError):
                pass
        raw = open(base + ".state", "rb").read()
        return raw.split(b"\0", 1)[0].decode()

    def confirm(self, text, n=5):
        hits, start = [], time.time()
        for _ in range(n):
            r = self.run_case(text)
            if r[0] != 0:
                hits.append(r)
            # cases that hang take long
            if time.time() - start > (30 if hits else 200) or time.time() - self.start > 720:
                break
        return hits

    def report(self, text, how, err):
        rdir = os.path.join(VERIF, "replays", self.id)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-seed%d.case" % (self.tier, self.seed))
        reason = how
        m = re.findall(r"PBT-FAIL: (.*)", err)
        if m:
            reason += ": " + m[-1]
        else:
            m = re.findall(r"(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|runtime error:.*|ASSERT.*|SUMMARY:.*)", err)
            if m:
                reason += ": " + m[0]
        lines = text.splitlines()
        with open(path, "w") as f:
            f.write("\n".join(lines[:2] + ["# " + reason] + [l for l in lines[2:] if not l.startswith("#")]) + "\n")
        with open(path + ".log", "w") as f:
            f.write(err)
        print("violated: %s" % reason)
        print("minimal case:")
        for l in lines:
            if not l.startswith("#"):
                print("    " + l)
        print("VIOLATION property=%s replay=%s" % (self.id, path))
        sys.stdout.flush()

    # ------------------------------------------------------------------ known findings
    def known_findings(self):
        n = 0
        path = os.path.join(VERIF, "known_findings.txt")
        if not os.path.exists(path):
            return 0
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if not m or m.group(1) != self.id:
                continue
            text = open(os.path.join(VERIF, m.group(2))).read()
            if any(self.fails(text) for _ in range(2)):
                print("KNOWN-FINDING: property=%s %s" % (self.id, m.group(3)))
                n += 1
        return n

    # ------------------------------------------------------------------ evidence
    def evidence(self, violations, known):
        rules = {}
        out = subprocess.run([self.bin, "list"], env=self.env, stdout=subprocess.PIPE).stdout.decode()
        for line in out.splitlines():
            if "\t" in line:
                k, v = line.split("\t", 1)
                rules[k] = v
        total, tags, samples, per = 0, {}, [], {}
        distinct = set()
        truncated = False
        for w in range(WORKERS):
            base = os.path.join(self.out, "w%d" % w)
            try:
                data = json.load(open(base + ".json"))
            except (OSError, ValueError):
                continue
            truncated = truncated or data["truncated"]
            for name, st in data["scenarios"].items():
                total += st["evaluations"]
                per.setdefault(name, {"evaluations": 0, "labels": {}})
                per[name]["evaluations"] += st["evaluations"]
                for t, n in st["tags"].items():
                    per[name]["labels"][t] = per[name]["labels"].get(t, 0) + n
                if len([s for s in samples if s.startswith(name + ":")]) < 2:
                    samples += [name + ": " + s for s in st["samples"][:1]]
            try:
                for line in open(base + ".hashes"):
                    distinct.add(line.strip())
            except OSError:
                pass
        cov = {
            "evaluations": total,
            "distinct_nontrivial": len(distinct),
            "rule": "Cases are generated by rapidcheck (configuration numbers and a list of operations with "
                    "arguments; swarm selection of operation kinds, growing length). Non-trivial: "
                    + "; ".join("[%s] %s" % kv for kv in sorted(rules.items()) if kv[0] in per or not per),
            "samples": samples or ["(no case completed)"],
            "scenarios": per,
        }
        if truncated:
            cov["truncated"] = "the time budget ended the search before the planned number of cases"
        if known:
            cov["known_findings_reproduced"] = known
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": [
                "Qt 6.4.2 and gcc 13.3 of this sandbox behave as documented; QCoro is compiled with -O1, assertions, "
                + ("ThreadSanitizer" if self.id in THREAD_SANITIZED else "AddressSanitizer and UndefinedBehaviorSanitizer"),
                "the reference model and the generators of harness/checks/%s.cpp" % self.id,
            ],
            "wall_s": round(time.time() - self.start, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    # ------------------------------------------------------------------
    def main(self):
        self.build()
        t = time.time()
        known = self.known_findings()
        failed = self.search()
        violation = None
        # prefer failures reported by an oracle, then the shorter case
        cands = []
        for w, rc in failed:
            text = self.case_of_worker(w, rc)
            if text.strip():
                cands.append((rc != 10, text.count("\nop "), w, rc, text))
        for _, _, w, rc, text in sorted(cands)[:4]:
            hits = self.confirm(text)
            if not hits:
                hits = self.confirm(text, 20)
            if hits:
                slow = time.time() - self.start > 400
                attempts = 1 if len(hits) >= 4 or slow else 4
                small = self.shrink(text, 30 if slow else 90, attempts)
                hits2 = self.confirm(small, 3 * attempts)
                if not hits2:
                    small, hits2 = text, hits
                violation = (small, OUTCOMES.get(hits2[0][0], "crash (status %d)" % hits2[0][0]), hits2[0][1])
                break
        if not violation:
            for _, _, w, rc, text in sorted(cands)[:2]:
                if time.time() - self.start > 650:
                    break
                # the case does not fail alone: state carried over from earlier cases; replay the campaign
                p = subprocess.run(self.worker_cmd(w, 120), env=self.env, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, cwd=self.out)
                if p.returncode != 0:
                    again = self.case_of_worker(w, p.returncode)
                    violation = ("campaign %s\nworker %d\n" % (self.id, w) + again,
                                 OUTCOMES.get(p.returncode, "crash (status %d)" % p.returncode)
                                 + " (only as part of the campaign: driver.py %s with VERIF_SEED=%d)"
                                 % (self.id, self.seed), p.stderr.decode(errors="replace"))
                    break
                self.notes.append("worker %d failed once (%s) but neither its case nor its campaign fails again"
                                  % (w, OUTCOMES.get(rc, rc)))
        if violation:
            self.report(*violation)
        self.evidence(1 if violation else 0, known)
        print("%s: %s, %.0f s build, %.0f s search" % (self.id, "VIOLATED" if violation else "held on all cases",
                                                       t - self.start, time.time() - t))
        for n in self.notes:
            print("note: " + n)
        return 1 if violation else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--src", default=os.environ.get("QCORO_SRC", "/repo"))
    ap.add_argument("--build", default=os.environ.get("VERIF_BUILD"))
    ap.add_argument("--only", default="")
    ap.add_argument("--factor", type=float, default=1.0)
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.replay:
        text = open(args.replay).read()
        args.property = re.search(r"^property (\S+)", text, re.M).group(1)
        c = Check(args)
        c.build()
        rc, err = c.run_case(text)
        sys.stderr.write(err)
        print("outcome: %s" % OUTCOMES.get(rc, "crash (status %d)" % rc))
        return 1 if rc else 0
    return Check(args).main()


if __name__ == "__main__":
    sys.exit(main())
