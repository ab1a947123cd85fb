"""Runs the operations of a scene in a process of its own: python -m vf.opsrun FILE."""
import pickle
import sys


def main():
    with open(sys.argv[1], "rb") as f:
        spec = pickle.load(f)
    sys.path[:0] = spec["path"]
    from vf.ops import Env, Scene
    sc = Scene.__new__(Scene)
    sc.__dict__.update(spec["scene"])
    if spec["pickled"] is not None:
        dm, roots, nodes = pickle.loads(spec["pickled"])
        env = Env(sc, dm, roots, nodes)
    else:
        env = Env(sc, sc.model())
    out = []
    for i in spec["order"]:
        out.append(sc.run(env, sc.ops[i]))
    print("R" + pickle.dumps(out).hex())


main()
