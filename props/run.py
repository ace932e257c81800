"""entry point: python -m props.run <property> <tier>"""
import importlib
import sys

from engine import core


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(f"props.{pid.lower()}")

    def go():
        ck = core.Check(pid, tier)
        return core.drive(ck, mod)

    sys.exit(core.run_big_stack(go))


if __name__ == "__main__":
    main()
