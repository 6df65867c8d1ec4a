"""Front end: turn /repo's *current working tree* into LLVM IR, in a scratch directory.

Nothing of /repo is executed except what its own build executes to produce source
(the `getter` constants printer and the cog generators); the analyses only ever see IR / AST.
"""
import re, os, sys, subprocess, tempfile, shutil, glob, json, hashlib, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang-18" if shutil.which("clang-18") else "clang"
OPT = "opt-18" if shutil.which("opt-18") else "opt"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = min(8, os.cpu_count() or 4)

VARIANTS = {
    "AVX": ["-march=x86-64-v3"],
    "SSE": ["-march=x86-64-v3", "-DreproBLAS_no__AVX__"],
    "SISD": ["-march=x86-64-v3", "-DreproBLAS_no__AVX__", "-DreproBLAS_no__SSE2__"],
}
# -O1 -disable-llvm-passes: clang emits `inline` bodies and no optnone, but runs no optimisation.
# -ffp-contract=off: keep every source-level rounding visible in the IR.
BASE = ["-std=c99", "-pedantic", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off",
        "-gline-tables-only", "-fno-discard-value-names", "-DRELEASE", "-DLITTLE_ENDIAN", "-w",
        "-S", "-emit-llvm"]
PASSES = "always-inline,function(sroa,mem2reg,adce)"


class FrontendError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


class Tree:
    """A scratch copy of the tree with all generated sources produced."""

    def __init__(self, repo=None, keep=False):
        self.repo = repo or REPO
        self.keep = keep
        self.dir = tempfile.mkdtemp(prefix="reproblas-sa-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        self.top = os.path.join(self.dir, "t")
        self.ir = os.path.join(self.dir, "ir")
        os.makedirs(self.ir)
        self.gen = {}          # .ccog relative path -> generated .c path
        self._copy()

    def close(self):
        if not self.keep and self.dir.startswith(("/tmp/", os.environ.get("VERIF_SCRATCH", "/tmp/"))):
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _copy(self):
        def ign(d, names):
            return [n for n in names if n in (".git", "build", "__pycache__", "getter.json")]
        shutil.copytree(self.repo, self.top, ignore=ign, symlinks=True)

    def env(self):
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=self.top, LANG="C.UTF-8",
                 PYTHONIOENCODING="utf-8", PYTHON=PYTHON, MTARGET_ARCH="x86-64-v3")
        for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS"):
            e.pop(k, None)
        return e

    def cog(self, rel, out):
        t = self.top
        d = os.path.join(t, os.path.dirname(rel))
        cmd = [PYTHON, "-W", "ignore", "-m", "scripts.cogapp",
               "-D", "args=" + t + "/src/tuned_args.json", "-D", "params=" + t + "/src/params.json",
               "-D", "mode=generate", "-I", t + "/include", "-I", t + "/scripts", "-I", t + "/src/gen",
               "-I", d, "-I", t + "/src/binned", "-I", t, "-o", out, os.path.join(t, rel)]
        rc, o = run(cmd, cwd=d, env=self.env())
        if rc != 0:
            raise FrontendError("cog failed on %s: %s" % (rel, o[-800:]))

    def make_getter(self):
        """scripts/getter.json, exactly as /opt/vp/build.sh makes it (first step of `make update`)."""
        t = self.top
        out = os.path.join(t, "scripts", "getter_gen.c")
        self.cog("scripts/getter.ccog", out)
        exe = os.path.join(self.dir, "getter")
        rc, o = run(["gcc", "-std=c99", "-march=x86-64-v3", "-O1", "-w", "-I", t + "/include", "-I", t,
                     out, "-o", exe])
        if rc != 0:
            raise FrontendError("getter does not build: " + o[-800:])
        rc, o = run([exe])
        if rc != 0:
            raise FrontendError("getter failed")
        self.getter = json.loads(o)
        with open(os.path.join(t, "scripts", "getter.json"), "w") as f:
            f.write(o)

    def generate(self, dirs=("binned", "binnedBLAS", "reproBLAS", "binnedMPI", "common")):
        """produce the generated C sources of the given source directories"""
        rels = sorted(os.path.relpath(p, self.top) for d in dirs for p in glob.glob(self.top + "/src/%s/*.ccog" % d))
        rels = [r for r in rels if r not in self.gen]
        if not rels:
            return []
        if not hasattr(self, "getter"):
            self.make_getter()

        def one(rel):
            base = os.path.splitext(os.path.basename(rel))[0]
            out = os.path.join(self.top, os.path.dirname(rel), base + ".c")
            self.cog(rel, out)
            self.gen[rel] = out
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, rels))
        return rels

    def mpiflags(self):
        rc, o = run(["mpicc", "--showme:compile"])
        if rc != 0:
            rc, o = run(["mpicc", "-compile_info"])
        if rc != 0:
            raise FrontendError("no MPI compiler wrapper: " + o[-200:])
        return [w for w in o.split() if w.startswith(("-I", "-D", "-pthread"))]

    def cflags(self, variant):
        t = self.top
        return BASE + VARIANTS[variant] + ["-I", t + "/include", "-I", t, "-I", t + "/src"]

    def default_folds(self, d, s):
        """give the two default folds values of their own in the scratch copy's config.h; -> previous text (None: not possible)"""
        p = os.path.join(self.top, "config.h")
        old = open(p).read()
        new, n = old, 0
        for k, v in (("DIDEFAULTFOLD", d), ("SIDEFAULTFOLD", s)):
            new, m = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\d+" % k, r"\g<1>%d" % v, new)
            n += m == 1
        if n != 2:
            return None
        with open(p, "w") as f:
            f.write(new)
        return old

    def restore_config(self, old):
        with open(os.path.join(self.top, "config.h"), "w") as f:
            f.write(old)

    def compile(self, rels, variant="AVX", extra=(), passes=PASSES, tag=""):
        """rels: .c paths relative to top -> {rel: path of optimised .ll}"""
        res = {}

        cache = self.__dict__.setdefault("cache", {})

        def one(rel):
            k = (rel, variant, tuple(extra), passes, tag)
            if k in cache:
                res[rel] = cache[k]
                return
            name = rel.replace("/", "__")[:-2]
            raw = os.path.join(self.ir, "%s.%s%s.raw.ll" % (name, variant, tag))
            ll = os.path.join(self.ir, "%s.%s%s.ll" % (name, variant, tag))
            rc, o = run([CLANG] + self.cflags(variant) + list(extra) + [os.path.join(self.top, rel), "-o", raw])
            if rc != 0:
                raise FrontendError("clang failed on %s (%s): %s" % (rel, variant, o[-800:]))
            rc, o = run([OPT, "-S", "-passes=" + passes, raw, "-o", ll])
            if rc != 0:
                raise FrontendError("opt failed on %s: %s" % (rel, o[-800:]))
            os.unlink(raw)
            res[rel] = cache[k] = ll
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, rels))
        return res

    def csources(self, *subdirs):
        out = []
        for s in subdirs:
            out += sorted(os.path.relpath(p, self.top) for p in glob.glob(self.top + "/src/" + s + "/*.c"))
        return out


if __name__ == "__main__":
    t0 = time.time()
    with Tree(keep=True) as T:
        print(T.dir)
        T.generate()
        print("gen", time.time() - t0, T.getter)
        for v in VARIANTS:
            r = T.compile(T.csources("binned", "binnedBLAS", "reproBLAS"), v)
            print(v, len(r), time.time() - t0)
        _, mpi = run(["mpicc", "--showme:compile"])
        r = T.compile(T.csources("binnedMPI"), "AVX", extra=mpi.split())
        print("mpi", len(r), time.time() - t0)
