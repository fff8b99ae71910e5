import copy
import pickle
import subprocess
from functools import partial

from vlib import *
from clouds import catalogue, planar, rotation
from attitude.orientation import Orientation, ReconstructedPlane, create_groups
from attitude.orientation.grouped import GroupedOrientation, disable_orientations, copy_orientations
from attitude.error.axes import sampling_axes

CHILD = """
import sys, pickle, warnings
warnings.simplefilter('ignore')
from attitude.orientation import Orientation
clouds = pickle.load(sys.stdin.buffer)
print(' '.join(Orientation(a).hash for a in clouds))
"""


def child_uids(clouds):
    env = dict(os.environ, PYTHONHASHSEED="77")
    p = subprocess.run([sys.executable, "-c", CHILD], input=pickle.dumps(clouds, protocol=2), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-500:])
    return p.stdout.decode().split()


def variants(a):
    """Fits that differ from that of a: scaled, perturbed, turned, mirrored, thinned."""
    R = N.array([[0, -1., 0], [1, 0, 0], [0, 0, 1]])
    b = a.copy()
    b[0, 2] += 1e-6
    return [a, a * 2, a * [1, 1, -1], a.dot(R.T), b, a[:-1], a * [1, 1, 1.001], N.vstack([a, a[:1]]), a * (1 + 1e-11)]


def log(T, label, o, uid=None):
    m = call(o.to_mapping) if o is not None else {"uid": uid}
    T.ev("uid", label=label, uid=text(attr(o, "hash") if o is not None else uid),
         mapped=text(m if isinstance(m, Err) else m.get("uid")))


def history(T, rng, hist, a):
    T.ev("begin")
    V = variants(a)
    content = 1
    o = Orientation(V[0].copy())
    log(T, "f1", o)
    seen = set()
    other = planar(rng, 9)
    for op in hist:
        if op.startswith("other"):
            content = int(op[5:])
            o = Orientation(V[content - 1].copy())
        elif op == "query":
            o.residuals(), o.U, o.angular_errors(), o.strike_dip_rake(), o.rotated()
        elif op == "disable":
            disable_orientations([o], o.hash)
        elif op == "group":
            if o.member_of is None:
                q = Orientation(other)
                create_groups([o, q], [o.hash, q.hash], copy=False)
        elif op == "refit":
            o = Orientation(V[content - 1].copy())
        elif op == "copy":
            q = Orientation(other)
            out = create_groups([o, q], [o.hash, q.hash]) if o.member_of is None else copy_orientations([o])
            o = out[0]
        elif op == "mapping":
            o.to_mapping(name="x")
        elif op == "errors":
            from attitude.stereonet import normal_errors, plane_errors
            normal_errors(o.axes, o.covariance_matrix, n=5), plane_errors(o.axes, o.covariance_matrix, n=5)
        elif op == "method":
            o.method = partial(sampling_axes, confidence_level=.5)
        log(T, "f%d" % content, o)


def run(T, cases, rng, tier):
    a = planar(rng, 14, (9, 4, .6), center=(3, 2, 1))
    for i, c in enumerate(cases):
        T.guard("mc%d" % i, history, T, rng, c["hist"], a)

    # many distinct fits at once: no two share an identifier; each is the same in another process
    def many():
        T.ev("begin")
        clouds = [planar(rng, rng.randint(4, 30), 10 ** rng.uniform(-1, 2, 3), center=rng.randn(3)) for _ in range(250)]
        c = clouds[0]
        for k in range(60):
            b = c.copy()
            b[k % len(c), k % 3] += 10 ** -rng.uniform(1, 6)
            clouds.append(b)
        for k in range(1, 40):
            clouds.append(c * (1 + k * 1e-3))
            clouds.append(c.dot(rotation(rng)))
        fits = [Orientation(x) for x in clouds]
        for i, o in enumerate(fits):
            log(T, "c%d" % i, o)
        for i, u in enumerate(child_uids(clouds)):
            log(T, "c%d" % i, None, u)
        for i in range(0, len(fits) - 3, 4):
            g = GroupedOrientation(*fits[i:i + 3])
            log(T, "g%d" % i, g)
        for i, o in enumerate(fits):
            log(T, "c%d" % i, o)
            log(T, "c%d" % i, copy.copy(o))
    T.guard("many", many)

    def recon():
        T.ev("begin")
        for rep in range(2):
            for i in range(60):
                r = N.random.RandomState(i)
                s, d, k = r.uniform(0, 360), r.uniform(1, 89), r.uniform(1, 179)
                log(T, "r%d" % i, ReconstructedPlane(s, d, k, 3 + i % 4, 5 + i % 3))
        base = (120., 40., 30., 6., 2.)
        for j in range(5):
            for step in (.001, 1., 20.):
                b = list(base)
                b[j] += step
                for rep in range(2):
                    log(T, "b%d-%s" % (j, step), ReconstructedPlane(*b))
    T.guard("recon", recon)


if __name__ == "__main__":
    main(run)
