import sys, os, json
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
sys.dont_write_bytecode = True
import engine

args = json.loads(sys.argv[1])
os.environ.pop("LD_PRELOAD", None)   # only this process and its forks are instrumented
import ap
ap.load(args["lib"])
if args["mode"] == "shard":
    out = engine.run_shard(args["prop"], args["tier"], args["seed"], args["shard"], args["nshards"],
                           args.get("scale", 1.0), args.get("only"))
else:
    out = engine.run_replay(args["prop"], args["rec"])
with open(args["out"] + ".tmp", "w") as f:
    json.dump(out, f)
os.rename(args["out"] + ".tmp", args["out"])
