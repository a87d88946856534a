"""python -m mc.replay <file>: runs one recorded counterexample twice, without the explorer."""
import importlib
import json
import sys


def again(module, case):
    if set(case) == {"job"}:
        # the exploration itself fell over the behaviour of the library: explore that work item again
        from . import core
        kind, value, _ = core._run((module.__name__, core.listed(case["job"])))
        return [m for _, _, messages in value[3] for m in messages]
    return module.replay(case)


def main():
    record = json.load(open(sys.argv[1]))
    module = importlib.import_module(f"mc.props.{record['property'].lower()}")
    first, second = again(module, record["case"]), again(module, record["case"])
    print(json.dumps(record["case"])[:2000])
    for message in first:
        print(f"  {message}")
    if first != second:
        print("the two replays differ!")
    print("violated" if first else "holds")
    sys.exit(1 if first else 0)


if __name__ == "__main__":
    main()
