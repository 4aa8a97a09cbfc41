"""Environment for every process that imports the code under test."""
import os, sys

for k, v in dict(
    HF_HUB_OFFLINE="1",
    TRANSFORMERS_OFFLINE="1",
    HF_DATASETS_OFFLINE="1",
    HF_HUB_DISABLE_TELEMETRY="1",
    CUDA_VISIBLE_DEVICES="",
    TOKENIZERS_PARALLELISM="false",
    OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    PYTHONDONTWRITEBYTECODE="1",
    TQDM_DISABLE="1",
).items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import logging

logging.disable(logging.CRITICAL)
import warnings

warnings.filterwarnings("ignore")
