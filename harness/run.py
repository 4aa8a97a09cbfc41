"""run.py <property> [--quick|--thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULES = {
    "P01": "p_graph",
    "P02": "p_graph",
    "P03": "p_multigpu",
    "P04": "p_writer",
    "P05": "p_writer",
    "P06": "p_loader",
    "P07": "p_loader",
    "P08": "p_plan",
    "P09": "p_plan",
    "P10": "p_tensors",
    "P11": "p_dtype",
    "P12": "p_vocab",
    "P13": "p_vocab",
    "P14": "p_blend",
    "P15": "p_gta",
    "P16": "p_sphere",
    "P17": "p_method",
    "P18": "p_blend",
    "P19": "p_raw",
    "P20": "p_moe",
    "P21": "p_config",
    "P22": "p_companion",
    "P23": "p_multi",
    "P24": "p_multi",
    "P25": "p_repro",
    "P26": "p_lora",
    "P27": "p_lora",
    "P28": "p_surgeon",
    "P29": "p_forms",
    "P30": "p_front",
    "P31": "p_front",
    "P32": "p_fill",
    "P33": "p_genome",
}


def body(c):
    import env  # noqa

    try:
        mod = importlib.import_module(MODULES[c.prop])
    except vlib.MachineryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(os.path.join(vlib.REPO, "mergekit")) for f in tb):
            traceback.print_exc()
            c.violation("code under test does not import", {"error": repr(e)})
            return
        raise
    mod.check(c)


if __name__ == "__main__":
    vlib.main(sys.argv[1], body)
