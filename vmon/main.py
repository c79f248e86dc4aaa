import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--jobs", type=int)
    p.add_argument("--wall", type=float)
    p.add_argument("-v", action="store_true")
    p.add_argument("--selftest", action="store_true", help="only check that the framework and the tree import")
    a = p.parse_args()
    try:
        from vmon import rt
        if a.selftest:
            import spgrep
            print("imports", spgrep.__file__)
            sys.exit(0)
        rc = rt.run_check(a.prop, a.tier, a.seed, jobs=a.jobs, replay=a.replay, wall=a.wall, verbose=a.v)
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
