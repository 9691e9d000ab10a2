import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    import matplotlib

    matplotlib.use("Agg")
    if sys.argv[1] == "--selftest":
        import z3

        from sx import ctx, runner

        runner.load_props()
        s = z3.Solver()
        s.add(z3.Real("x") * z3.Real("x") < 0)
        assert s.check() == z3.unsat
        ctx.world(True)
        ctx.world(False)
        print("ok:", len(runner.REG), "properties")
        sys.exit(0)
    from sx import runner

    if sys.argv[1] == "replay":
        sys.exit(runner.replay_main(sys.argv[2]))
    rc = runner.main()
    sys.stdout.flush()
    os._exit(rc)
