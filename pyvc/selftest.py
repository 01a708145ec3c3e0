"""Setup: check that the tools the verifier needs are there and that it still
refutes a false obligation and discharges a true one."""
import os
import sys


def main():
    from pyvc import worker
    worker.setup(True)
    import z3
    import cvc5  # noqa
    from pyvc.engine import Engine
    e = Engine()
    Engine.cur = e
    e._reset_path()
    x = z3.Int("x")
    e.add(x >= 0)
    e.check("false", x >= 1)
    e._reset_path()
    e.add(x >= 2)
    e.check("true", x * x >= 4)
    st = [r["status"] for r in e.results]
    assert st == ["refuted", "discharged"], st
    Engine.cur = None
    import malcolm.core  # noqa: loads through the extractor
    from pyvc import loader
    assert loader.LOADED
    print("selftest ok: z3 %s, %d modules extracted" % (
        z3.get_version_string(), len(loader.LOADED)))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
