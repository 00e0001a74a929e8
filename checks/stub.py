"""C37: first run of the freqcd stand-in script. Everything happens in a scratch copy of the
tree, run as an unprivileged user (the script overwrites the program it believes it is)."""
import os
import random
import shutil
import struct
import signal
import subprocess
import tempfile
import time

from vlib import core, fq
from vlib.core import Check, HarnessError
from vlib.pylib import snap, write

NOBODY = 65534


def drop():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def own(d):
    for root, dirs, files in os.walk(d):
        for x in [root] + [os.path.join(root, f) for f in files]:
            os.lchown(x, NOBODY, NOBODY)


DECOYS = {"fpfind.py": b"raise SystemExit('another fpfind')\n", "fpfind/__init__.py": b"VERSION = 1\n", "fpfind/notes.txt": b"no package\n",
          "_postinstall": b"#!/bin/sh\necho another script; exit 0\n", "freqcd.c": b"int main(void) { return 3; }\n", "importlib.py": b"raise SystemExit('another importlib')\n",
          "freqcd": b"#!/bin/sh\necho another program\n", "freqcd_path": b"/nowhere\n", "PATH": b"#!/bin/sh\necho another program\n"}


class C37(Check):
    quick, thorough = 480, 6000
    workers = 8
    rule = ("a case installs the stub and the library in a scratch folder and runs it by absolute path, relative path, symbolic link or through PATH from various folders (every third with white space in the folder's name), with relative and absolute files, options, special characters and wrong arguments, twice; compared with the directly compiled program run in an identical folder; every fourth case makes compilation impossible; distinct by (call, folder, arguments)")
    assumptions = ("python3 and gcc are in PATH",)

    def prepare(self, shared):
        os.chmod(shared["tmp"], 0o755)
        shared["exe"] = fq.build(os.path.join(shared["tmp"], "freqcd"))

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def args(self, r, d, other):
        """Arguments with file names; '{d}' stands for the run's own folder."""
        a, stdin = [], True
        if r.random() < 0.5:
            a += ["-f", str(r.choice([0, 1000, -34000, 2097151, r.randrange(-2097151, 2097152)]))]
        if r.random() < 0.3:
            a += ["-x"]
        if r.random() < 0.6:
            a += ["-i", r.choice(["in.dat", "./in.dat", "{d}/work/in.dat", "sub/in 2.dat", "../work/in.dat"])]
            stdin = False
        if r.random() < 0.6:
            a += ["-o", r.choice(["out.dat", "{d}/work/out.dat", "sub/o ut.dat", "$x*.dat", "old.dat"])]
        if r.random() < 0.2:
            a += ["-F", "corr"]
        k = r.random()
        if k < 0.08:
            a += ["-f", "abc"]
        elif k < 0.14:
            a = ["-i", "no such file"] + a[:2] if "-f" in a[:1] else ["-i", "missing"]
            stdin = False
        elif k < 0.18:
            a += ["-h"]
        elif k < 0.22:
            a = ["-o", "no dir/out"] + a
        return a, stdin

    def folder(self, ctx, stub, space=False):
        d = ctx.fresh()
        os.chmod(d, 0o755)
        d = os.path.realpath(d)
        if space:
            # a file named like the beginning of the folder's name, up to the space
            os.mkdir(os.path.join(d, "home"))
            write(os.path.join(d, "home/John"), b"precious")
            os.lchown(os.path.join(d, "home/John"), NOBODY, NOBODY)
            os.lchown(os.path.join(d, "home"), NOBODY, NOBODY)
            d = os.path.join(d, "home", "John Doe")
            os.mkdir(d)
        for x in ("bin", "work", "work/sub", "elsewhere", "tmp"):
            os.mkdir(os.path.join(d, x))
        write(os.path.join(d, "work/old.dat"), b"old content " * 50)
        if stub:
            shutil.copytree(os.path.join(core.REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__", "freqcd_path"))
            shutil.copy(os.path.join(core.REPO, "src/fpfind/freqcd"), os.path.join(d, "bin/freqcd"))
        else:
            shutil.copy(ctx.shared["exe"], os.path.join(d, "bin/freqcd"))
        os.chmod(os.path.join(d, "bin/freqcd"), 0o755)
        return d

    def run(self, case, ctx):
        r = random.Random(case["s"])
        os.chmod(ctx.tmp, 0o755)
        words, _ = fq.gen_words(r, r.choice([1, 10, 300]), "typical")
        data = fq.encode(words)
        corr = b"no number\n\n"          # (valid updates would take effect at a random time)
        space = r.random() < 0.3
        D = self.folder(ctx, True, space)
        E = self.folder(ctx, False, space)
        for d in (D, E):
            write(os.path.join(d, "work/in.dat"), data)
            write(os.path.join(d, "work/sub/in 2.dat"), data[::-1])
            write(os.path.join(d, "work/corr"), corr)
        a, stdin = self.args(r, D, E)
        cwd = r.choice(["work", "work", "work", "elsewhere", "bin"])
        call = r.choice(["absolute", "relative", "PATH", "PATH", "link", "intree"])
        if cwd != "work":
            # relative names reach the same files
            os.symlink("../work/sub", os.path.join(D, cwd, "sub")), os.symlink("../work/sub", os.path.join(E, cwd, "sub"))
            for n in ("in.dat", "old.dat", "corr"):
                for d in (D, E):
                    shutil.copy(os.path.join(d, "work", n), os.path.join(d, cwd, n))
        impossible = case["i"] % 4 == 3
        program = os.path.join(D, "bin/freqcd")
        if call == "intree":
            program = os.path.join(D, "src/fpfind/freqcd")
        link = os.path.join(D, "elsewhere", "linked")
        os.symlink(program, link)
        argv0 = {"absolute": program, "relative": os.path.join(".", os.path.relpath(program, os.path.join(D, cwd))), "PATH": "freqcd",
                 "link": link, "intree": program}[call]
        decoys = []
        if r.random() < 0.6:
            # unrelated files of the same names in the working folder, another program of this name in PATH
            decoys = r.sample(sorted(DECOYS), r.choice([1, 1, 2, 3]))
            if cwd == "bin" and "freqcd" in decoys:
                decoys.remove("freqcd")
            for d in (D, E):
                for n in decoys:
                    f = os.path.join(d, cwd, n) if n != "PATH" else os.path.join(d, "decoy/freqcd")
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    write(f, DECOYS[n])
                    os.chmod(f, 0o755)
        for d in (D, E):
            own(d)
        if impossible:
            how = r.choice(["broken", "missing", "compiler", "readonly"])
            src = os.path.join(D, "src/fpfind/freqcd.c")
            if how == "broken":
                write(src, b"int main( {\n")
            elif how == "missing":
                os.unlink(src)
            elif how == "compiler":
                for n in ("gcc", "cc", "clang", "tcc", "c99"):
                    write(os.path.join(D, "tmp", n), b"#!/bin/sh\nexit 1\n")
                    os.chmod(os.path.join(D, "tmp", n), 0o755)
            else:
                os.chown(os.path.dirname(program), 0, 0)
                os.chown(program, 0, 0)
        where = "%s from %s with %s%s: freqcd %s" % (call, cwd, decoys, " (white space in the folder's name)" if space else "", a)
        runs = []
        for k in range(2):
            first = self.go(ctx, D, argv0, program, a, cwd, data if stdin else b"")
            if impossible:
                before = snap(os.path.join(E, "work"))
                ctx.check(first[0] != 0 and first[1] == b"", "ran-uncompiled", lambda: "%s %s: status %s, %d bytes of output; %r" % (how, where, first[0], len(first[1]), first[2][-400:]))
                ctx.check(snap(os.path.join(D, "work")) == before, "files-touched", lambda: "%s %s" % (how, where))
                ctx.count("impossible_" + how)
                if k:
                    break
                continue
            want = self.go(ctx, E, os.path.join(E, "bin/freqcd"), None, a, cwd, data if stdin else b"")
            ctx.check(first[0] == want[0], "status", lambda: "run %d, %s: %s instead of %s; %r" % (k + 1, where, first[0], want[0], first[2][-400:]))
            ctx.check(first[1] == want[1], "output", lambda: "run %d, %s: %d bytes instead of %d; %r" % (k + 1, where, len(first[1]), len(want[1]), first[2][-400:]))
            for x in ("work", "elsewhere") + (("bin",) if cwd == "bin" else ()):
                got, exp = snap(os.path.join(D, x)), snap(os.path.join(E, x))
                for n in ("linked",) + (("freqcd", "freqcd_path") if x == "bin" else ()):
                    got.pop(n, None)
                    exp.pop(n, None)
                ctx.check(got == exp, "files", lambda: "run %d, %s: %s in %s instead of %s" % (k + 1, where, sorted(got.items()), x, sorted(exp.items())))
            with open(program, "rb") as f:
                ctx.check(f.read(4) == b"\x7fELF", "not-replaced", lambda: "run %d, %s" % (k + 1, where))
            record = os.path.join(D, "src/fpfind/freqcd_path")
            ctx.check(os.path.exists(record) and open(record).read() == program + "\n", "path-record", lambda: "the path of the program is not recorded in freqcd_path; %s" % where)
            ctx.count("runs_compared")
            if stdin and want[0] == 0:
                ctx.count("bytes", len(want[1]))
        if space:
            p = os.path.dirname(D)
            ctx.check(sorted(os.listdir(p)) == ["John", "John Doe"] and open(os.path.join(p, "John"), "rb").read() == b"precious", "foreign-file", lambda: "%s in the folder above; %s" % (sorted(os.listdir(p)), where))
            ctx.count("white_space_in_folder")
        ctx.count("call_" + call)
        ctx.distinct(call, cwd, tuple(a), impossible)
        ctx.sample({"call": call, "cwd": cwd, "args": a, "status": first[0], "impossible": impossible})

    def go(self, ctx, d, argv0, program, a, cwd, data):
        env = {"PATH": "%s/tmp:%s/bin:/usr/bin:/bin" % (d, d), "PYTHONPATH": os.path.join(d, "src"), "PYTHONDONTWRITEBYTECODE": "1",
               "TMPDIR": os.path.join(d, "tmp"), "HOME": os.path.join(d, "tmp"), "LC_ALL": "C"}
        if program:
            env["PATH"] = "%s/tmp:%s:/usr/bin:/bin" % (d, os.path.dirname(program))
            # the program called by name comes first, otherwise another one does
            env["PATH"] = env["PATH"].replace(":/usr/bin", ":%s/decoy:/usr/bin" % d) if argv0 == "freqcd" else "%s/decoy:" % d + env["PATH"]
        args = [x.replace("{d}", d) for x in a]
        try:
            p = subprocess.run([argv0] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               cwd=os.path.join(d, cwd), env=env, preexec_fn=drop, executable=self.which(argv0, env))
        except subprocess.TimeoutExpired:
            ctx.fail("hang", "%s %s" % (argv0, args))
        except PermissionError as e:
            raise HarnessError("cannot run as an unprivileged user: %s" % e)
        except subprocess.SubprocessError as e:
            raise HarnessError("cannot run as an unprivileged user: %s" % e)
        return p.returncode, p.stdout, p.stderr

    def which(self, name, env):
        return name if "/" in name else shutil.which(name, path=env["PATH"])


SLOW = b"""#!/bin/sh
# A compiler with a slow linker: the output grows in place and becomes executable at the end.
n=$(mktemp -d "$TMPDIR/gcc.XXXXXX")
out=a.out; prev=; i=0
for x in "$@"; do [ "$prev" = -o ] && out=$x; prev=$x; done
for x in "$@"; do
  shift
  if [ "$x" = "$out" ] && [ "$last" = -o ]; then set -- "$@" "$n/x"; else set -- "$@" "$x"; fi
  last=$x
done
/usr/bin/gcc "$@" || exit 1
rm -f "$out"
for k in 1 2 3 4 5; do
  dd if="$n/x" of="$out" bs=3000 skip=$((k - 1)) seek=$((k - 1)) count=1 conv=notrunc 2>/dev/null || exit 1
  sleep 0.0%d
done
cat "$n/x" > "$out" || exit 1
chmod +x "$out"
rm -rf "$n"
"""


# Holds back the shell that runs the stub before it opens the program file (a process that is
# not scheduled between the two system calls), until the file $VERIF_GATE.go exists.
GATE = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
__attribute__((constructor)) static void hold(int argc, char **argv) {
    char exe[4096], go[4096];
    const char *gate = getenv("VERIF_GATE");
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (!gate || n <= 0 || argc < 2) return;
    exe[n] = 0;
    if (!strstr(exe, "sh") || strcmp(strrchr(argv[1], '/') ? strrchr(argv[1], '/') : argv[1], "/freqcd")) return;
    snprintf(go, sizeof go, "%s.go", gate);
    fclose(fopen(gate, "w"));
    for (int i = 0; i < 30000 && access(go, F_OK); i++) usleep(1000);
}
"""


class C44(C37):
    quick, thorough = 160, 3000
    workers = 8
    rule = ("a case lets 2-4 first runs of one fresh installation overlap (random stagger, real compiler or one with a slow linker), or kills a first run with its whole process group at a random moment and runs it again, once or twice, or holds a run back (preloaded library) between the start of its shell and the opening of the program file while others run to their end; every run that is not killed must behave as the compiled program does; "
            "distinct by (kind, call, stagger)")
    assumptions = ("python3 and gcc are in PATH", "the folder of the program is writable")

    def prepare(self, shared):
        super().prepare(shared)
        so = os.path.join(shared["tmp"], "gate.so")
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-o", so, "-xc", "-"], input=GATE.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise HarnessError("gate: %r" % p.stdout[-500:])
        os.chmod(so, 0o755)
        shared["gate"] = so

    def start(self, d, argv0, program, args, data, slow, gate=None, so=None):
        env = {"PATH": "%s/tmp:%s:/usr/bin:/bin" % (d, os.path.dirname(program)), "PYTHONPATH": os.path.join(d, "src"), "PYTHONDONTWRITEBYTECODE": "1",
               "TMPDIR": os.path.join(d, "tmp"), "HOME": os.path.join(d, "tmp"), "LC_ALL": "C"}
        if gate:
            env.update(LD_PRELOAD=so, VERIF_GATE=gate)
        fin, fout, ferr = tempfile.TemporaryFile(), tempfile.TemporaryFile(), tempfile.TemporaryFile()
        fin.write(data)
        fin.seek(0)

        def pre():
            os.setsid()
            drop()
        try:
            p = subprocess.Popen([argv0] + args, stdin=fin, stdout=fout, stderr=ferr, cwd=os.path.join(d, "work"), env=env, preexec_fn=pre, executable=self.which(argv0, env))
        except (PermissionError, subprocess.SubprocessError) as e:
            raise HarnessError("cannot run as an unprivileged user: %s" % e)
        except OSError as e:                     # not a program (any more)
            return None, None, str(e).encode()
        fin.close()
        return p, fout, ferr

    def end(self, ctx, run, where):
        p, fout, ferr = run
        if p is None:
            return 126, b"", ferr
        try:
            p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            ctx.fail("hang", where)
        out = []
        for f in (fout, ferr):
            f.seek(0)
            out.append(f.read())
            f.close()
        return p.returncode, out[0], out[1]

    def run(self, case, ctx):
        r = random.Random(case["s"])
        os.chmod(ctx.tmp, 0o755)
        d = self.folder(ctx, True, r.random() < 0.3)
        slow = r.random() < 0.6
        program = os.path.join(d, "bin/freqcd")
        call = r.choice(["absolute", "PATH", "intree"])
        if call == "intree":
            program = os.path.join(d, "src/fpfind/freqcd")
        argv0 = "freqcd" if call == "PATH" else program
        if slow:
            write(os.path.join(d, "tmp/gcc"), SLOW % r.choice([1, 3, 5]))
            os.chmod(os.path.join(d, "tmp/gcc"), 0o755)
        own(d)
        kind = "late" if case["i"] % 20 == 7 else "overlap" if case["i"] % 2 else "killed"
        jobs = []
        for k in range(r.choice([2, 2, 3, 4])):
            words, _ = fq.gen_words(r, r.choice([1, 10, 300]), "typical")
            f = fq.gen_corr(r)
            jobs.append((words, f, ["-f", str(f)] if f else []))
        if kind == "late":
            # one run gets no further than its shell while another one compiles the program
            gate = os.path.join(d, "tmp/gate")
            plan = [len(jobs)]
            where = "first run whose shell opens the program file after another run has replaced it, %s" % call
            words, f, a = jobs[0]
            late = self.start(d, argv0, program, a, fq.encode(words), slow, gate, ctx.shared["gate"])
            t0 = time.time()
            while not os.path.exists(gate) and time.time() - t0 < 30 and late[0] is not None and late[0].poll() is None:
                time.sleep(0.005)
            for k, (words, f, a) in enumerate(jobs[1:]):
                self.judge(ctx, self.end(ctx, self.start(d, argv0, program, a, fq.encode(words), slow), where), (words, f, a), "run %d before the late one, %s" % (k + 1, call))
            ctx.count("held_shells", os.path.exists(gate))
            write(gate + ".go", b"")
            late = self.end(ctx, late, where)
        elif kind == "overlap":
            runs, plan = [], []
            for words, f, a in jobs:
                runs.append(self.start(d, argv0, program, a, fq.encode(words), slow))
                plan.append(round(r.choice([0, 0, r.uniform(0, 0.03), r.uniform(0, 0.6 if slow else 0.25)]), 4))
                time.sleep(plan[-1])
            where = "%d overlapping first runs, %s, slow linker %s, stagger %s" % (len(jobs), call, slow, plan)
            for k, run in enumerate(runs):
                self.judge(ctx, self.end(ctx, run, where), jobs[k], "run %d of %s" % (k + 1, where), (d, program))
            ctx.count("overlapping_runs", len(runs))
        else:
            plan = []
            for words, f, a in jobs[:-1]:
                run = self.start(d, argv0, program, a, fq.encode(words), slow)
                plan.append(round(r.uniform(0, 0.7 if slow else 0.25), 4))
                time.sleep(plan[-1])
                if run[0] is not None:
                    try:
                        os.killpg(run[0].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                got = self.end(ctx, run, "killed run")
                ctx.count("killed_runs", got[0] == -9)
                plan = plan[-3:]
            where = "run after first runs killed after %s s, %s, slow linker %s" % (plan, call, slow)
            self.judge(ctx, self.end(ctx, self.start(d, argv0, program, jobs[-1][2], fq.encode(jobs[-1][0]), slow), where), jobs[-1], where)
        # and from then on
        words, f, a = jobs[0]
        self.judge(ctx, self.end(ctx, self.start(d, argv0, program, a, fq.encode(words), slow), where), jobs[0], "next run after " + where)
        with open(program, "rb") as fo:
            ctx.check(fo.read(4) == b"\x7fELF", "not-replaced", where)
        if kind == "late":
            self.judge(ctx, late, jobs[0], where, (d, program))
        ctx.distinct(kind, call, tuple(plan), slow)
        ctx.sample({"kind": kind, "call": call, "stagger": plan, "slow_linker": slow})

    def as_script(self, d, program, a):
        """What comes of the compiled program being taken for a shell script."""
        with open(program, "rb") as f:
            if f.read(4) != b"\x7fELF":
                return None
        with open(os.path.join(core.REPO, "src/fpfind/freqcd"), "rb") as f:
            first = f.readline().decode("latin1")
        shell = first[2:].split() if first.startswith("#!") else ["/bin/sh"]
        env = {"PATH": "/usr/bin:/bin", "TMPDIR": os.path.join(d, "tmp"), "HOME": os.path.join(d, "tmp"), "LC_ALL": "C"}
        p = subprocess.run(shell + [program] + a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.join(d, "work"), env=env, preexec_fn=drop, timeout=60)
        return p.returncode, p.stdout, p.stderr

    def judge(self, ctx, got, job, where, late=None):
        words, f, a = job
        if late and got[0] != 0 and got == self.as_script(late[0], late[1], a):
            ctx.count("runs_judged")
            raise core.Violation("status", "%s: the shell took the compiled program for the script; status %s, %r" % (where, got[0], got[2][-400:]), key="compiled-program-read-as-script")
        ctx.check(got[0] == 0, "status", lambda: "%s: status %s, %d bytes; %r" % (where, got[0], len(got[1]), got[2][-400:]))
        ctx.check(len(got[1]) == 8 * len(words), "output", lambda: "%s: %d bytes instead of %d" % (where, len(got[1]), 8 * len(words)))
        fq.check_law(ctx, words, fq.decode(got[1]), [(0, f)], where=where)
        ctx.count("runs_judged")
