"""Scripts for semaphores and tasks."""
import random


def script(i, r):
    total = [r.choice([0, 1, 1, 2, 3, 4, 4, 6, 40]), r.choice([0, 1, 2, 2, 3, 5])]
    n = r.randint(2, 6)
    kinds = {}
    for c in range(1, n + 1):
        kinds[c] = r.choices("ptb", [5, 5, 1 if r.random() < 0.3 else 0])[0]
    steps = [[dict(o="spawn", c=c, k=kinds[c]) for c in kinds]]
    nid = [0]
    mine = {c: [] for c in kinds}
    reqs = []
    tasks = [c for c in kinds if kinds[c] != "p"]
    ended = set()
    taken = set()
    W = dict(req=10, tri=5, rel=8, give=2.5, cancel=3, kill=1.5, ret=2, aw=2, shut=1.3, many=1.2, drop=0.4)
    if r.random() < 0.3:
        W.update(aw=4, ret=5, many=4, shut=3)
    for _ in range(r.randint(3, 14)):
        st = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.choices(list(W), list(W.values()))[0]
            live = [c for c in kinds if c not in ended or r.random() < 0.1]
            act = [c for c in live if kinds[c] != "b"]
            if not act:
                continue
            p = r.choice(act)
            if k == "req":
                nid[0] += 1
                s = r.choice([1, 1, 2])
                m = r.choice([1, 1, 1, 1, 2, 2, 3, 0, total[s - 1], total[s - 1] + 1])
                st.append(dict(o="req", p=p, id=nid[0], s=s, n=m, own=r.random() < 0.6, m=r.random() < 0.3, cf=r.random() < 0.5))
                mine[p].append(nid[0])
                reqs.append(nid[0])
            elif k == "tri":
                nid[0] += 1
                st.append(dict(o="try", p=p, id=nid[0], s=r.choice([1, 1, 2]), own=r.random() < 0.6))
                mine[p].append(nid[0])
            elif k == "rel":
                p = r.choice([c for c in act if mine[c]] or [p])
                if mine[p]:
                    x = r.choice(mine[p])
                    st.append(dict(o="rel", p=p, id=x))
            elif k == "give":
                p = r.choice([c for c in act if mine[c]] or [p])
                if mine[p]:
                    x = r.choice(mine[p])
                    q = r.choice([c for c in kinds if kinds[c] != "b"])
                    st.append(dict(o="give", p=p, id=x, q=q))
                    mine[q].append(x)
            elif k == "cancel" and reqs:
                st.append(dict(o="cancel", id=r.choice(reqs[-4:])))
            elif k == "kill":
                st.append(dict(o="kill", q=r.choice([c for c in kinds])))
            elif k == "ret":
                p = r.choice(live)
                ended.add(p)
                st.append(dict(o="ret", p=p, v=-1 if r.random() < 0.25 else r.randint(1, 99)))
            elif k in ("aw", "shut") and tasks:
                q = r.choice(tasks)
                if q != p and q not in taken:
                    st.append(dict(o=k, p=p, l=[q], m=r.random() < 0.3))
                    taken.add(q)
            elif k == "many":
                l = [q for q in tasks if q != p and q not in taken]
                r.shuffle(l)
                l = l[:r.randint(0, 3)]
                st.append(dict(o="aw", p=p, l=l, m=True))
                taken.update(l)
            elif k == "drop" and tasks:
                st.append(dict(o="drop", q=r.choice(tasks)))
        steps.append(st)
    return dict(id=i, s1=total[0], s2=total[1], steps=steps)


def scripts(n, seed, prefix=""):
    r = random.Random("sema-%d" % seed)
    return [script("%s%d" % (prefix, i), r) for i in range(n)]
