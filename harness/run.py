"""Entry point of all checks: run.py <property id>."""
import os
import shutil
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import common
    import tlc
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    import checks
    func, level = checks.CHECKS[prop]
    report = common.Report(prop, tier, seed, level)
    scratch = common.make_scratch(prop)
    try:
        func(checks.Ctx(report, scratch, tier, seed))
        rc = report.finish()
    except tlc.MachineryError as e:
        print(f"MACHINERY ERROR in check of {prop}: {e}")
        rc = 2
    except BaseException:  # noqa
        traceback.print_exc()
        print(f"MACHINERY ERROR in check of {prop}")
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
