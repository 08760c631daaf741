"""Environment set-up shared by the orchestrator and the workers."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VF_REPO", "/repo")  # overridden only while developing the checks


def deps_dir() -> str:
    return os.path.join(VERIF, ".deps")


def ensure_deps():
    """Make hypothesis importable for /opt/venv's Python (offline, from the wheelhouse)."""
    d = deps_dir()
    if not os.path.isdir(os.path.join(d, "hypothesis")):
        tmp = d + f".tmp{os.getpid()}"
        cmd = [PY, "-m", "pip", "install", "--quiet", "--no-index", "--find-links", WHEELS,
               "--target", tmp, "hypothesis"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            cmd[0:3] = ["python3", "-m", "pip"]
            r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            # last resort: unpack the wheels, which are plain zip archives
            import glob
            import zipfile

            os.makedirs(tmp, exist_ok=True)
            for pat in ("hypothesis-*cp312*.whl", "hypothesis-*py3*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for w in sorted(glob.glob(os.path.join(WHEELS, pat)))[:1]:
                    zipfile.ZipFile(w).extractall(tmp)
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    if d not in sys.path:
        sys.path.append(d)


def worker_env(x64: bool, threads: int = 1) -> dict:
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        JAX_ENABLE_X64="1" if x64 else "0",
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), VERIF, deps_dir()]),
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        TQDM_DISABLE="0",
    )
    return env
