"""Entry point: python mc/main.py <property> [quick|thorough] [--replay FILE]"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = os.environ.get("GGGEARS_SRC", "/repo/src")
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, SRC)
import warnings

warnings.filterwarnings("ignore")


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    elif args:
        tier = args[0]
    from mc import engine

    sys.exit(engine.main(prop, tier, replay, ROOT, SRC))


if __name__ == "__main__":
    main()
