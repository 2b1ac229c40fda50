import os
import sys


def main():
    sys.dont_write_bytecode = True
    cmd = sys.argv[1] if len(sys.argv) > 1 else "help"
    from dst import runner

    if cmd == "check":
        return runner.check(sys.argv[2])
    if cmd == "replay":
        return runner.replay(sys.argv[2])
    if cmd == "determinism":
        return runner.determinism(*(int(x) for x in sys.argv[2:4]))
    print("usage: python -m dst check <property> | replay <file> | determinism [seeds] [plans per property]")
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
