"""Build the compiled test engine from the repository's working tree."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    def __init__(self, stage, text):
        super().__init__(f"{stage}: {text[-3000:]}")
        self.stage = stage


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = f"{VERIF}/stubs:{REPO}/src"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONWARNINGS"] = "ignore"
    e.pop("PYTHONHOME", None)
    return e


def run(cmd, stage, timeout=300, cwd=None, **kw):
    p = subprocess.run(cmd, env=kw.pop("env", env()), capture_output=True,
                       text=True, timeout=timeout, cwd=cwd, **kw)
    if p.returncode:
        raise BuildError(stage, p.stdout + p.stderr)
    return p


def runtime_dir():
    import glob
    c = glob.glob("/opt/venv/lib/python3*/site-packages/amaranth_yosys/share/"
                  "include/backends/cxxrtl/runtime")
    c += glob.glob("/opt/venv/lib/python3*/site-packages/yowasp_yosys/share/"
                   "include/backends/cxxrtl/runtime")
    return c[0]


def yosys(script, cwd, stage="yosys"):
    return run([PY, "-m", "amaranth_yosys", "-q", "-p", script], stage,
               cwd=cwd)


def compile_engine(work, name, cc, defs=(), opt="-O2", src="engine.cc"):
    so = work / f"{name}.so"
    run(["clang++", "-std=c++17", opt, "-w", "-shared", "-fPIC", "-DNDEBUG",
         f"-I{runtime_dir()}", f"-I{VERIF}/vlib/engine",
         f'-DDUT_CC="{cc}"', *defs, str(VERIF / "vlib/engine" / src),
         "-o", str(so)], "clang++")
    return so


def build_design(work, kind):
    """kind: top | formal -> path of the engine's shared object."""
    il, cc = work / f"{kind}.il", work / f"{kind}.cc"
    run([PY, str(VERIF / "vlib/elab.py"), kind, str(il)], f"elaborate-{kind}")
    yosys(f"read_rtlil {il.name}; write_cxxrtl {cc.name}", work)
    return compile_engine(work, kind, cc,
                          {"formal": ["-DHAS_RVFI"],
                           "embed": ["-DHAS_EN"]}.get(kind, []))


def build_soc(work, how, bus, nbytes, rom):
    """how: fake | real.  Returns (shared object, address map)."""
    import json
    name = f"soc_{how}_{bus}"
    il, cc, romf = (work / f"{name}.{x}" for x in ("il", "cc", "json"))
    romf.write_text(json.dumps(rom))
    e = env()
    e["PYTHONPATH"] += f":{REPO}"
    p = run([PY, str(VERIF / "vlib/elab_soc.py"), how, bus, str(nbytes),
             str(romf), str(il)], f"elaborate-{name}", env=e, cwd=work)
    yosys(f"read_rtlil {il.name}; write_cxxrtl {cc.name}", work)
    so = compile_engine(work, name, cc, ["-DREAL"] if how == "real" else [],
                        src="soc.cc")
    return so, json.loads(p.stdout.strip().splitlines()[-1])


def build_verilog(work, kind, mods, top, rvfi=False):
    """Compile an emitted (parsed) Verilog design into an engine."""
    from . import vlog
    il, cc = work / f"{kind}.il", work / f"{kind}.cc"
    il.write_text(vlog.to_rtlil(mods, top))
    yosys(f"read_rtlil {il.name}; write_cxxrtl {cc.name}", work)
    return compile_engine(work, kind, cc, ["-DHAS_RVFI"] if rvfi else [])


def scratch():
    return Path(tempfile.mkdtemp(prefix="vsentinel-"))


def build_all(work, kinds):
    with ThreadPoolExecutor(4) as ex:
        fs = {k: ex.submit(build_design, work, k) for k in kinds}
        # in order: an error of the first design is reported first
        return {k: fs[k].result() for k in kinds}


def cleanup(work):
    shutil.rmtree(work, ignore_errors=True)
