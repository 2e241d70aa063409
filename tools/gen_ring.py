"""Scripts for the hash ring."""
import random


def op(r, n, nv, w):
    o = r.choices(list(w), list(w.values()))[0]
    k = r.randint(1, n)
    nv[0] += 1
    v = nv[0] * 100 + k
    if o == "find":
        return dict(o=o, k=k, m=r.random() < 0.3)
    if o in ("addn", "addo"):
        return dict(o=o, k=k, v=v)
    if o in ("remn", "remo"):
        return dict(o=o, k=k)
    if o == "clear":
        return dict(o=o)
    m = r.choice([0, 1, 2, 2, 3, min(n, 5)])
    return dict(o=o, l=[[r.randint(1, n), nv[0] * 100 + i] for i in range(m)])


SEQ = dict(find=40, addn=14, remn=9, addns=4, setns=3, addo=6, remo=4, addos=2, seto=2, clear=1)
UPD = dict(find=10, addn=9, remn=6, addns=4, setns=3, addo=6, remo=4, addos=3, seto=5, clear=2)


def seq(i, r, n, ops, hint):
    nv = [0]
    l = [op(r, n, nv, SEQ) for _ in range(ops)]
    if r.random() < 0.3:
        l += [dict(o="find", k=k) for k in range(1, n + 1)]
    return dict(id=i, n=n, hint=hint, setup=l, race=[], after=[], threads=1, sched=[])


def race(i, r, n, threads, per):
    nv = [0]
    setup = [op(r, n, nv, dict(addn=3, addns=1, addo=2, addos=1)) for _ in range(r.randint(1, 3))]
    w = UPD if r.random() < 0.7 else dict(seto=4, find=6, addo=2, remo=1, clear=1, addos=1) if r.random() < 0.5 else dict(addn=5, remn=4, addns=2, setns=2, find=3)
    rc = [[op(r, n, nv, w) for _ in range(r.randint(1, per))] for _ in range(threads)]
    after = [dict(o="find", k=k) for k in range(1, n + 1)]
    after += [dict(o="remo", k=k) for k in range(1, n + 1)] + [dict(o="remn", k=k) for k in range(1, n + 1)]
    return dict(id=i, n=n, hint=True, setup=setup, race=rc, after=after, threads=threads, preempt=2, max=30, random=10, seed=r.randint(1, 1 << 30))


def scripts(n, seed, prefix=""):
    r = random.Random("ring-%d" % seed)
    return ([seq("%ss%d" % (prefix, i), r, r.choice([1, 2, 3, 5, 6]), r.randint(5, 60), False) for i in range(n // 2)]
            + [seq("%sl%d" % (prefix, i), r, r.choice([8, 12, 20]), r.randint(20, 120), True) for i in range(n // 2)])


def races(n, seed, threads=2, per=2, prefix=""):
    r = random.Random("ringrace-%d" % seed)
    return [race("%sr%d" % (prefix, i), r, r.choice([2, 3, 4]), threads, per) for i in range(n)]
