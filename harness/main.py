"""
Usage: main.py PROPERTY [quick|thorough]
Exit 0: property held on everything explored, 1: VIOLATION line printed,
2: the check itself failed.
"""
import importlib
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib  # noqa: E402

GROUPS = {
    "g_steim": ["C04", "C05", "C06", "C07"],
    "g_rec3": ["C01", "C02", "C03", "C08", "C09"],
    "g_merge": ["C10"],
    "g_time": ["C11"],
    "g_ehtool": ["C12", "C13"],
    "g_hist": ["C14"],
    "g_ms2": ["C15", "C16", "C17"],
    "g_sid": ["C18", "C19", "C20"],
    "g_report": ["C21"],
    "g_codes": ["C22"],
    "g_damage": ["C24"],
    "g_hist2": ["C23"],
    "g_session": ["C25"],
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, os.path.join(vlib.REPO, "src"))
    os.environ["TZ"] = os.environ.get("TZ", "UTC")
    warnings.simplefilter("ignore")
    group = [g for g, ps in GROUPS.items() if pid in ps][0]
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(group)
        import simplemseed
        src = os.path.realpath(simplemseed.__file__)
        if not src.startswith(os.path.realpath(vlib.REPO) + "/"):
            raise vlib.CheckError(f"simplemseed imported from {src}")
        getattr(mod, "check_" + pid)(ctx)
        rc = ctx.finish()
    except vlib.CheckError as e:
        print(f"ERROR property={pid}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())
