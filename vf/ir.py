"""Build configuration, compilation of /repo sources to LLVM IR, and the linked Program."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
IRDUMP = os.path.join(BUILD, "irdump")

CXXFLAGS = (
    "-std=c++20 -O0 -g -DNDEBUG -fignore-exceptions -fno-math-errno -ffp-contract=off -fno-discard-value-names "
    "-flto -fwhole-program-vtables -S -emit-llvm -DOMPI_SKIP_MPICXX -Wno-everything"
).split()
SRCDIRS = "analysis dual_view gravity hydro io mesh moving_grid thermodynamics units user_step utils".split()
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
HDF5_INC = "/usr/include/hdf5/openmpi"


class BuildError(Exception):
    """the current tree (or a driver against it) does not compile: no verdict."""


class Config:
    def __init__(self, dim=1, geom="Cartesian", eos="PerfectGas", grav="Uniform", setup="shock_tube"):
        self.dim, self.geom, self.eos, self.grav, self.setup = dim, geom, eos, grav, setup

    def key(self):
        return "%dd-%s-%s-%s-%s" % (self.dim, self.geom, self.eos.replace("+", ""), self.grav, self.setup)

    __str__ = key


class Builder:
    """compiles into a private scratch directory, removed at exit."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w", dir=BUILD)
        self.units = []

    def close(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)

    def gen(self, cfg):
        d = os.path.join(self.dir, "gen-" + cfg.key())
        if not os.path.isdir(d):
            os.makedirs(d)
            for f in ("ndim", "eos", "geom"):
                src = open(os.path.join(REPO, "src/utils", f + ".hpp.in")).read()
                src = src.replace("@Heraclespp_NDIM@", str(cfg.dim)).replace("@Heraclespp_EOS@", cfg.eos).replace("@Heraclespp_GEOM@", cfg.geom)
                open(os.path.join(d, f + ".hpp"), "w").write(src)
            open(os.path.join(d, "git_version.cpp"), "w").write(open(os.path.join(REPO, "src/utils/git_version.cpp.in")).read())
        return d

    def flags(self, cfg):
        g = self.gen(cfg)
        r = list(CXXFLAGS)
        r += ['-DMY_SETUP="%s"' % cfg.setup, "-DHERACLESPP_GRAVITY_" + cfg.grav]
        r += ["-isystem", os.path.join(HERE, "stubs"), "-I", g]
        for s in SRCDIRS:
            r += ["-I", os.path.join(REPO, "src", s)]
        r += ["-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src/setups", cfg.setup)]
        r += ["-I", os.path.join(HERE, "spec")]
        r += ["-isystem", os.path.join(REPO, "vendor/inih/include"), "-isystem", HDF5_INC, "-isystem", MPI_INC]
        return r

    def compile(self, src, cfg, extra=()):
        """-> loaded JSON module"""
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        if src.endswith("git_version.cpp") and not os.path.exists(path):
            path = os.path.join(self.gen(cfg), "git_version.cpp")
        tag = hashlib.sha1((path + cfg.key() + repr(extra)).encode()).hexdigest()[:12]
        ll = os.path.join(self.dir, tag + ".ll")
        js = os.path.join(self.dir, tag + ".json")
        if path.endswith(".c"):
            cmd = ["clang-18", "-std=c11"] + [f for f in self.flags(cfg) if f != "-std=c++20"]
        else:
            cmd = ["clang++-18"] + self.flags(cfg)
        if "+exceptions" in extra:  # keep the exception edges
            cmd = [f for f in cmd if f != "-fignore-exceptions"]
        cmd += [x for x in extra if x[0] != "+"] + [path, "-o", ll]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("cannot compile %s [%s]\n%s" % (src, cfg.key(), p.stderr[:3000]))
        p = subprocess.run([IRDUMP, ll, js], capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("irdump failed on %s: %s" % (src, p.stderr[:1000]))
        m = json.load(open(js))
        os.unlink(ll)
        os.unlink(js)
        m["src"] = path
        return m

    def program(self, srcs, cfg, extra=()):
        self.gen(cfg)
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda s: self.compile(s, cfg, extra), srcs))
        self.units += ["%s [%s]" % (s.replace(REPO + "/", "").replace(HERE + "/", ""), cfg.key()) for s in srcs]
        return Program(mods)


class Func:
    __slots__ = ("name", "dem", "ret", "va", "file", "line", "args", "blocks", "loops", "lp", "region", "decl", "mod", "order")

    def __init__(self, name, d, mod):
        self.name = name
        self.dem = d["dem"]
        self.ret = d["ret"]
        self.va = d["va"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.args = d["args"]
        self.blocks = d.get("blocks")
        self.decl = self.blocks is None
        self.mod = mod
        self.lp = None
        if not self.decl:
            self.loops = [(h, frozenset(bs)) for h, bs in d["loops"]]

    def prepare(self):
        """loop nest: lp[header] = (blocks); region[b] = innermost loop index containing b"""
        if self.lp is not None:
            return
        self.lp = {h: bs for h, bs in self.loops}
        self.region = {}
        for h, bs in self.loops:  # preorder: inner loops come later
            for b in bs:
                self.region[b] = h


class Program:
    def __init__(self, mods):
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        for i, m in enumerate(mods):
            ren = {}
            for n in m["globals"]:
                if n.startswith((".str", "__const.", "switch.table", "_ZStL8__ioinit", "llvm.")) or "GLOBAL__N" in n or n.startswith("_ZL"):
                    ren[n] = "%s@%d" % (n, i)
            for n, d in m["functions"].items():
                if ("GLOBAL__" in n or n.startswith("_ZL") or n.startswith("__cxx_global_var_init")) and "blocks" in d:
                    ren[n] = "%s@%d" % (n, i)
            for n, g in m["globals"].items():
                g = dict(g)
                g["mod"] = i
                g["name"] = n
                nn = ren.get(n, n)
                if nn not in self.globals or ("init" in g and "init" not in self.globals[nn]):
                    self.globals[nn] = g
            for n, d in m["functions"].items():
                nn = ren.get(n, n)
                f = Func(nn, d, i)
                old = self.funcs.get(nn)
                if old is None or (old.decl and not f.decl):
                    self.funcs[nn] = f
            for n, t in m["aliases"].items():
                self.aliases[n] = ren.get(t, t)
            self.ren = getattr(self, "ren", {})
            self.ren[i] = ren
        self.bydem = {}
        for f in self.funcs.values():
            self.bydem.setdefault(f.dem, f)
        self.vtypes = {}
        for n, g in self.globals.items():
            for off, t in g.get("types", ()):
                self.vtypes.setdefault(t, []).append((n, off))

    def resolve(self, name, mod):
        n = self.ren.get(mod, {}).get(name, name)
        return self.aliases.get(n, n)

    def find(self, pred):
        return [f for f in self.funcs.values() if not f.decl and pred(f)]
