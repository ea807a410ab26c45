"""Imports the code under test from the working tree of /repo, always from source (no stale bytecode)."""
import importlib
import os
import sys

from .core import REPO, HarnessError

NP_MODULES = ["my_assoc_scan", "lqt_np", "fsc_np", "viterbi_np", "clqt_np", "condensing_np", "nlqt_np",
              "parareal_clqt_np", "diffeq_np", "disc", "linear_model_np", "finite_model_np", "ge_model_np",
              "mass_model_np", "nonlinear_model_np", "text_model"]
JAX_MODULES = ["hjb_grid_1d_np", "sqp_np", "cnonlin_models_np"]
TF_MODULES = ["lqt_tf", "fsc_tf", "viterbi_tf", "clqt_tf", "condensing_tf", "nlqt_tf", "parareal_clqt_tf",
              "hjb_grid_1d_tf", "nonlinear_model_tf", "linear_model_tf", "cnonlin_models_tf", "diffeq_tf", "sqp_tf"]
SPEED_MODULES = ["linear_speedtest", "finite_speedtest", "nonlinear_speedtest", "contlin_speedtest",
                 "hjb_grid_1d_speedtest"]


def prepare_env():
    env = os.environ
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "TF_NUM_INTRAOP_THREADS",
              "TF_NUM_INTEROP_THREADS", "NPROC"):
        env[k] = "1"
    env["CUDA_VISIBLE_DEVICES"] = ""
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    env["JAX_PLATFORMS"] = "cpu"
    env["MPLBACKEND"] = "Agg"
    env["TF_ENABLE_ONEDNN_OPTS"] = "0"
    env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    env["PARCON_SIM"] = "1"
    env.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl-%d" % os.getuid())


def load(needs):
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/verif-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    names = list(NP_MODULES)
    if "jax" in needs:
        import jax
        jax.config.update("jax_enable_x64", True)
        names += JAX_MODULES
    if "tf" in needs:
        names += TF_MODULES
    if "speed" in needs:
        names += [n for n in TF_MODULES if n not in names] + SPEED_MODULES
    mods = {}
    for n in names:
        try:
            m = importlib.import_module("parallel_control." + n)
        except ImportError as e:
            raise HarnessError("cannot import parallel_control.%s: %s" % (n, e))
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError("module %s loaded from %s, not from %s" % (n, f, REPO))
        mods[n] = m
    return mods
