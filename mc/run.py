import sys

if __name__ == "__main__":        # not in a spawned child
    from mc.core import main

    sys.exit(main(sys.argv[1:]))
