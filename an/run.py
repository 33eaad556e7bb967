#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough]"""
import os, resource, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir, report, checks, checks_scan, checks_store, checks_labels, checks_units, checks_nfc, checks_puny, checks_inflate, checks_fresh


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    R = report.Report(pid, tier)
    # an analysis that grows beyond these bounds ends with UNDECIDED for the construct at hand
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def late(*_):
        signal.alarm(20)
        raise TimeoutError("out of time")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("IDNA_TIME", "780" if tier == "quick" else "3300")))
    try:
        level = checks.CHECKS[pid](R, tier) or "other"
    except ir.AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except (MemoryError, TimeoutError) as e:
        R.unsure("-", "the analysis ran out of %s" % ("memory" if isinstance(e, MemoryError) else "time"))
        level = "other"
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    signal.alarm(0)
    return R.finish(level)


if __name__ == "__main__":
    sys.exit(main())
