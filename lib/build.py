"""Builds: the engine, the bitcode of /repo's current tree, the real uasm.exe."""
import os, re, subprocess, sys, tempfile, shutil, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NOWARN = ["-w", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
          "-Wno-incompatible-function-pointer-types", "-Wno-incompatible-pointer-types",
          "-Wno-return-type", "-Wno-implicit-int", "-Wno-error"]
CFLAGS = ["--target=x86_64-w64-mingw32", "-fcommon", "-IH", "-D__NT__", "-DNDEBUG", "-O1",
          "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-printf", "-gline-tables-only"]


class BuildError(Exception):
    pass


def engine():
    """The symbolic executor; rebuilt when its own sources changed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["make", "-j4", "-C", os.path.join(VERIF, "engine"), "OUT=" + BUILD],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(BUILD, "usym")
    if p.returncode or not os.path.exists(exe):
        raise BuildError("engine build failed:\n" + p.stdout)
    return exe


def sources():
    inc = open(os.path.join(REPO, "gccmod.inc")).read()
    return ["main.c"] + [m + ".c" for m in re.findall(r"/([A-Za-z0-9_]+)\.o", inc)]


def bitcode(outdir, extra_c=(), cflags=()):
    """Compiles every unit of GccWin64.mak to LLVM IR (Win64 target) and links them."""
    os.makedirs(outdir, exist_ok=True)

    def one(src):
        base = os.path.basename(src)[:-2]
        out = os.path.join(outdir, base + ".bc")
        cmd = ["clang-18"] + CFLAGS + list(cflags) + NOWARN + ["-emit-llvm", "-c", "-o", out, src]
        if base == "dbgcv":
            cmd += ["-funsigned-char", "-include", "/opt/vp/compat/dbgcv_prelude.h"]
        p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("clang: %s\n%s" % (src, p.stdout))
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, sources() + list(extra_c)))
    bc = os.path.join(outdir, "all.bc")
    p = subprocess.run(["llvm-link-18"] + outs + ["-o", bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("llvm-link: " + p.stdout)
    return bc


def realexe(outdir):
    """uasm.exe of the current tree, built with the project's makefile outside /repo."""
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ)
    env["PATH"] = "/opt/vp/bin:" + env.get("PATH", "")
    for k in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(k, None)
    p = subprocess.run(["make", "-j8", "-f", "GccWin64.mak", "OUTD=" + outdir, "name=uasm", "ALL"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(outdir, "uasm.exe")
    if p.returncode or not os.path.exists(exe):
        raise BuildError("uasm.exe build failed:\n" + p.stdout[-3000:])
    return exe


class Wine:
    """Runs the real uasm.exe.  Own prefix that borrows the sandbox's system files."""

    def __init__(self, scratch):
        self.prefix = os.path.join(scratch, "wineprefix")
        os.makedirs(self.prefix + "/dosdevices", exist_ok=True)
        src = "/opt/vp/wine"
        for f in os.listdir(src):
            if os.path.isfile(os.path.join(src, f)):
                shutil.copy2(os.path.join(src, f), self.prefix)
        os.symlink(src + "/drive_c", self.prefix + "/drive_c")
        os.symlink("../drive_c", self.prefix + "/dosdevices/c:")
        os.symlink("/", self.prefix + "/dosdevices/z:")
        self.env = {"HOME": scratch, "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                    "WINEPREFIX": self.prefix, "WINEDEBUG": "-all", "WINEARCH": "win64", "LC_ALL": "C", "TZ": "UTC",
                    "WINEDLLOVERRIDES": "mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"}
        self.scratch = scratch
        self.n = 0
        subprocess.run(["wineserver", "-p10"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def run(self, exe, args, files, timeout=60):
        """-> dict(code, console, files{name: bytes}, timeout)"""
        self.n += 1
        d = tempfile.mkdtemp(prefix="run", dir=self.scratch)
        try:
            for k, v in files.items():
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v)
            try:
                p = subprocess.run(["wine", exe] + list(args), cwd=d, env=self.env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                code, con, to = p.returncode, p.stdout, False
            except subprocess.TimeoutExpired as e:
                code, con, to = -1, e.stdout or b"", True
            out = {}
            for k in os.listdir(d):
                b = open(os.path.join(d, k), "rb").read()
                if k not in files or files[k] != b:
                    out[k] = b
            return {"code": code, "console": con, "files": out, "timeout": to}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_many(self, exe, cases, timeout=120, par=4):
        """cases: [(args, files)] -> list of run() results; one wine process per batch."""
        root = tempfile.mkdtemp(prefix="batch", dir=self.scratch)
        res = [None] * len(cases)
        chunks = [list(range(len(cases)))[i::par] for i in range(par)]

        def go(ids):
            if not ids:
                return
            bat = []
            for i in ids:
                d = os.path.join(root, str(i))
                os.makedirs(d)
                for k, v in cases[i][1].items():
                    with open(os.path.join(d, k), "wb") as f:
                        f.write(v)
                bat.append("cd /d Z:%s" % d.replace("/", "\\"))
                q = " ".join('"%s"' % a if (" " in a or "=" in a) else a for a in cases[i][0])
                bat.append("Z:%s %s > _out.txt 2>&1" % (exe.replace("/", "\\"), q))
                bat.append("echo %errorlevel% > _code.txt")
            b = os.path.join(root, "run%d.bat" % ids[0])
            with open(b, "w") as f:
                f.write("@echo off\r\n" + "\r\n".join(bat) + "\r\n")
            try:
                subprocess.run(["wine", "cmd", "/c", "Z:" + b.replace("/", "\\")], cwd=root, env=self.env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            except subprocess.TimeoutExpired:
                pass
            for i in ids:
                d = os.path.join(root, str(i))
                try:
                    code = int(open(d + "/_code.txt").read().split()[0])
                except (OSError, ValueError, IndexError):
                    continue
                out = {}
                for k in os.listdir(d):
                    c = open(os.path.join(d, k), "rb").read()
                    if k not in ("_out.txt", "_code.txt") and (k not in cases[i][1] or cases[i][1][k] != c):
                        out[k] = c
                res[i] = {"code": code, "console": open(d + "/_out.txt", "rb").read(), "files": out, "timeout": False}
        try:
            with ThreadPoolExecutor(par) as ex:
                list(ex.map(go, chunks))
            for i, r in enumerate(res):
                if r is None:
                    res[i] = self.run(exe, cases[i][0], cases[i][1], timeout=20)
            self.n += len(cases)
            return res
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def close(self):
        subprocess.run(["wineserver", "-k"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
