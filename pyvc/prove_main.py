"""prove_main.py Cxx SECONDS: discharge a property's contracts, print one JSON line."""
import json
import sys
import time

sys.setrecursionlimit(20000)
import runner  # noqa: E402
import registry  # noqa: E402

if __name__ == "__main__":
    end = time.time() + float(sys.argv[2])
    tasks = [runner.Task(**d) for d in registry.PROPS[sys.argv[1]].tasks]
    print(json.dumps({"tasks": runner.run(tasks, deadline=end)}))
