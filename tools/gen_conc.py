"""Catalogue of races: a short set-up, operations that run concurrently on different threads, and what is observed after."""

RV = dict(ms=-1, u=-1, x=True, d=True, strict=False)


def drain(*ps):
    return [[[p, [dict(o="recv", polls=1, ty=t, **RV) for t in "SUSUSU"]] for p in ps]]


def sp(c, on, kind="plain", ref=0, init=()):
    return dict(o="spawn", c=c, on=on, kind=kind, ref=ref, init=list(init))


def send(*ds, m=1, ty="S"):
    return dict(o="send", dests=list(ds), ty=ty, m=m, vec=len(ds) > 1)


def pid(n):
    return ["pid", n, ""]


def name(n):
    return ["name", 0, n]


def al(r):
    return ["alias", r, ""]


def trap(v=True):
    return dict(o="trap", v=v)


def mon(ref, d, alias="none"):
    return dict(o="monitor", ref=ref, dest=d, alias=alias)


def ex(q, rs="c:x"):
    return dict(o="exit", q=q, rs=rs)


def reg(q, n):
    return dict(o="register", q=q, n=n)


def o(k, **kw):
    return dict(o=k, **kw)


# Base population: 1 and 3 on thread 0, 2 and 4 on thread 1; 2 is the usual target.
POP = [[[0, [sp(1, 0), sp(2, 1), sp(3, 0), sp(4, 1)]]]]


def catalogue():
    C = {}

    def add(props, nm, setup, race, after_actors=(1, 2, 3, 4), after=(), threads=2, adv=None):
        C[nm] = dict(props=props, setup=POP + [[s] if isinstance(s[0], int) else s for s in setup],
                     race=race, after=list(after) + drain(*after_actors) + drain(*after_actors), threads=threads)
        if adv is not None:
            C[nm]["adv"] = adv

    ways = {"ret": [2, [o("ret")]], "panic": [2, [o("panic", rs="c:boom")]], "self": [2, [ex(2, "c:self")]],
            "kill": [4, [ex(2, "kill")]], "exit": [4, [ex(2, "c:x")]]}
    for w, race in ways.items():
        add(["C07", "C04"], "link-vs-" + w, [[1, [trap()]]], [[1, [o("link", q=2), o("link", q=2)]], race])
        add(["C07", "C04"], "unlink-vs-" + w, [[1, [trap(), o("link", q=2)]]], [[1, [o("unlink", q=2)]], race])
        add(["C07", "C04"], "link-no-trap-vs-" + w, [[3, [mon(1, pid(1))]]], [[1, [o("link", q=2)]], race])
        add(["C07", "C05"], "monitor-vs-" + w, [], [[1, [mon(1, pid(2)), mon(2, pid(2))]], race])
        add(["C07", "C05"], "monitor-name-vs-" + w, [[2, [reg(2, "a")]]], [[1, [mon(1, name("a"))]], race])
        add(["C07", "C05"], "demonitor-vs-" + w, [[1, [mon(1, pid(2)), mon(2, pid(2))]]], [[1, [o("demonitor", ref=1), o("recv", polls=1, ty="S", **RV)]], race])
        add(["C07", "C06"], "register-vs-" + w, [], [[1, [reg(2, "a"), o("whereis", n="a"), reg(3, "a")]], race],
            after=[[[1, [o("whereis", n="a")]]]])
        add(["C07", "C06"], "rename-vs-" + w, [[2, [reg(2, "a")]]],
            [[1, [o("unregister", n="a"), reg(3, "a"), o("whereis", n="a")]], race], after=[[[1, [o("whereis", n="a")]]]])
        add(["C07", "C06"], "take-name-vs-" + w, [[2, [reg(2, "a")]]],
            [[1, [reg(3, "a"), o("whereis", n="a"), reg(3, "a")]], race], after=[[[1, [o("whereis", n="a")]]]])
        add(["C07", "C01"], "send-vs-" + w, [[2, [reg(2, "a")]]], [[1, [send(pid(2), m=1), send(name("a"), pid(2), m=2), o("alive", q=2)]], race])
        add(["C07", "C09"], "alias-vs-" + w, [[2, [o("alias", ref=1, reply=False), o("alias", ref=2, reply=True)]]],
            [[1, [send(al(1), m=1), send(al(2), m=2), send(al(2), m=3)]], race])
        add(["C07", "C03"], "exit-vs-" + w, [[1, [mon(9, pid(2)), o("link", q=2), trap()]]], [[1, [ex(2, "c:y"), o("alive", q=2)]], race])
    # trapping target
    add(["C03", "C07"], "exit-vs-trap", [[1, [mon(9, pid(2))]]], [[1, [ex(2, "c:y"), ex(2, "normal")]], [2, [trap()]]])
    add(["C03"], "exit-trapping", [[2, [trap()]]], [[1, [ex(2, "c:y"), ex(2, "c:z")]], [4, [ex(2, "c:w"), ex(2, "kill")]]])
    add(["C03"], "untrap-vs-exit", [[2, [trap()]], ], [[1, [ex(2, "c:y")]], [2, [trap(False), o("recv", polls=1, ty="S", **RV)]]])
    # the announcement is true: who gets a notification finds the process gone
    see = [o("recvb", ty="S", **RV), o("alive", q=2), o("listed", q=2), o("whereis", n="a"), reg(3, "a")]
    add(["C07", "C05"], "down-then-look", [[2, [reg(2, "a")]], [1, [mon(1, pid(2))]]], [[1, see], [2, [o("ret")]]])
    add(["C07", "C04"], "exit-msg-then-look", [[2, [reg(2, "a")]], [1, [trap(), o("link", q=2)]]], [[1, see], [2, [o("panic", rs="c:boom")]]])
    add(["C07", "C05"], "down-by-name-then-look", [[2, [reg(2, "a")]], [1, [mon(1, name("a"))]]], [[1, see], [4, [ex(2, "kill")]]])
    add(["C07", "C09"], "down-then-alias", [[1, [mon(1, pid(2), "multi")]]],
        [[1, [o("recvb", ty="S", u=-2, x=True, d=True, ms=-1, strict=False), send(al(1), m=5)]], [2, [o("ret")]], [4, [send(al(1), m=7)]]])
    add(["C09", "C05"], "demonitor-alias-vs-send", [[1, [mon(1, pid(2), "multi")]]], [[1, [o("demonitor", ref=1)]], [2, [send(al(1), m=1), send(al(1), m=2)]]])
    # both die
    add(["C07", "C04"], "both-die-linked", [[1, [o("link", q=2), o("link", q=4)]], [4, [trap(), mon(5, pid(1)), mon(6, pid(2))]]],
        [[1, [o("panic", rs="c:p1")]], [2, [o("panic", rs="c:p2")]]])
    add(["C07", "C05"], "both-die-monitoring", [[1, [mon(1, pid(2))]], [2, [mon(2, pid(1))]], [3, [mon(3, pid(1)), mon(4, pid(2))]]],
        [[1, [o("ret")]], [2, [o("ret")]]])
    add(["C05", "C07"], "owner-dies", [[1, [mon(1, pid(2)), o("alias", ref=2, reply=False)]], [3, [mon(3, pid(1))]]],
        [[1, [o("ret")]], [2, [send(al(2), m=1), o("ret")]]])
    # links from both sides
    add(["C04"], "link-both", [], [[1, [o("link", q=2)]], [2, [o("link", q=1)]]], after=[[[2, [o("panic", rs="c:late")]]], [[3, [o("alive", q=1)]]]])
    add(["C04"], "link-vs-unlink", [[1, [o("link", q=2), trap()]]], [[1, [o("unlink", q=2)]], [2, [o("link", q=1)]]],
        after=[[[2, [o("panic", rs="c:late")]]]])
    add(["C04"], "link-vs-unlink-2", [[2, [trap()]]], [[1, [o("unlink", q=2)]], [2, [o("link", q=1)]]],
        after=[[[1, [o("panic", rs="c:late")]]]])
    add(["C04"], "unlink-both", [[1, [o("link", q=2)]]], [[1, [o("unlink", q=2)]], [2, [o("unlink", q=1)]]],
        after=[[[2, [o("panic", rs="c:late")]]], [[3, [o("alive", q=1)]]]])
    # names
    add(["C06"], "two-register-one-name", [], [[1, [reg(1, "a"), o("whereis", n="a")]], [2, [reg(2, "a"), o("whereis", n="a")]]])
    add(["C06"], "two-names-one-process", [], [[1, [reg(3, "a"), o("whereis", n="a"), o("whereis", n="b")]], [2, [reg(3, "b"), o("whereis", n="b"), o("whereis", n="a")]]])
    add(["C06"], "unregister-vs-register", [[1, [reg(3, "a")]]], [[1, [o("unregister", n="a")]], [2, [reg(2, "a"), o("whereis", n="a"), reg(2, "a")]]])
    add(["C06"], "two-unregister", [[1, [reg(3, "a")]]], [[1, [o("unregister", n="a")]], [2, [o("unregister", n="a"), o("whereis", n="a")]]])
    add(["C06", "C01"], "send-vs-rename", [[1, [reg(3, "a")]]], [[1, [o("unregister", n="a"), reg(1, "a")]], [2, [send(name("a"), m=1), send(name("a"), m=2)]]])
    # sending
    add(["C01"], "two-senders", [[3, [reg(3, "a"), o("alias", ref=1, reply=False)]]],
        [[1, [send(pid(3), m=1), send(name("a"), m=2), send(al(1), m=3)]], [2, [send(al(1), pid(4), m=11), send(pid(3), m=12), send(name("a"), pid(3), m=13)]]])
    add(["C01", "C02"], "send-vs-receive", [], [[1, [send(pid(2), m=1, ty="U"), send(pid(2), m=2), send(pid(2), pid(3), m=3)]],
        [2, [o("recvb", ty="S", **RV), o("recv", polls=1, ty="U", **RV), o("recvb", ty="S", **RV)]]])
    add(["C02"], "send-vs-remove", [], [[1, [send(pid(2), m=1), send(pid(2), m=2), send(pid(2), m=3)]],
        [2, [o("remove", ty="S", u=-4, x=False, d=False, strict=False), o("recv", polls=1, ty="S", **RV)]]])
    add(["C02"], "send-vs-select", [[2, [o("recv", polls=1, ty="S", **dict(RV, u=7))]]], [[1, [send(pid(2), m=1), send(pid(2), m=7), send(pid(2), m=3)]],
        [2, [o("recv", polls=1, ty="S", **dict(RV, u=7)), o("recvb", ty="S", **dict(RV, u=7)), o("recvb", ty="S", **RV)]]])
    # aliases
    add(["C09"], "reply-two-senders", [[3, [o("alias", ref=1, reply=True)]]], [[1, [send(al(1), m=1)]], [2, [send(al(1), m=2)]]])
    add(["C09"], "reply-vs-unalias", [[1, [o("alias", ref=1, reply=True)]]], [[1, [o("unalias", ref=1), o("unalias", ref=1)]], [2, [send(al(1), m=2), send(al(1), m=3)]]])
    add(["C09"], "alias-vs-unalias", [[1, [o("alias", ref=1, reply=False)]]], [[1, [o("unalias", ref=1)]], [2, [send(al(1), m=2), send(al(1), m=3)]]])
    add(["C09"], "foreign-unalias", [[1, [o("alias", ref=1, reply=False)]]], [[1, [o("unalias", ref=1)]], [2, [o("unalias", ref=1), send(al(1), m=3)]]])
    # spawning onto another thread
    probe = [o("alive", q=5), o("listed", q=5), o("flags"), trap(), o("flags"), reg(5, "n5"), o("whereis", n="n5")]
    after5 = [[[1, [o("alive", q=5), o("whereis", n="n5")]]]]
    for kind in ("plain", "link", "mon"):
        add(["C08"], "spawn-%s-use" % kind, [[1, [trap()]]],
            [[1, [sp(5, 1, kind, 7, probe), o("alive", q=5), o("listed", q=5), send(pid(5), m=1), mon(8, pid(5)), o("link", q=5)]]],
            after_actors=(1, 2, 5), after=after5)
        add(["C08"], "spawn-%s-reg" % kind, [[1, [trap()]]],
            [[1, [sp(5, 1, kind, 7, [o("alive", q=5), reg(5, "mine"), send(pid(1), m=3)]), reg(5, "yours"), o("whereis", n="mine"), o("whereis", n="yours")]]],
            after_actors=(1, 2, 5), after=after5)
        for b, body in (("ret", [o("ret")]), ("panic", [o("panic", rs="c:early")]), ("selfexit", [ex(5, "c:s"), o("alive", q=5)])):
            add(["C08", "C04", "C05"], "spawn-%s-%s" % (kind, b), [[1, [trap()]]],
                [[1, [sp(5, 1, kind, 7, body), o("alive", q=5), send(pid(5), m=1), mon(8, pid(5))]]], after_actors=(1, 2), after=after5)
            add(["C08", "C04", "C05"], "spawn-%s-%s-notrap" % (kind, b), [[3, [mon(20, pid(1))]]],
                [[1, [sp(5, 1, kind, 7, body), o("link", q=5)]]], after_actors=(1, 3))
        add(["C08"], "spawn-%s-kill" % kind, [[1, [trap()]]],
            [[1, [sp(5, 1, kind, 7, probe), ex(5, "kill"), o("alive", q=5), mon(8, pid(5))]]], after_actors=(1, 2), after=after5)
    add(["C08"], "spawn-from-both", [], [[1, [sp(5, 1, "link", 0, [send(pid(2), m=1)]), send(pid(5), m=2)]], [2, [sp(6, 0, "mon", 9, [send(pid(1), m=3)]), send(pid(6), m=4)]]],
        after_actors=(1, 2, 5, 6))
    # timers
    add(["C10"], "fire-vs-cancel", [[1, [o("sendafter", tm=1, ms=10, dests=[pid(2), pid(3)], ty="S", m=1), o("sendafter", tm=2, ms=10, dests=[pid(2)], ty="S", m=2)]]],
        [[2, [o("cancel", tm=1), o("readt", tm=1), o("readt", tm=2)]]], adv=10)
    add(["C10"], "fire-vs-death", [[1, [o("sendafter", tm=1, ms=10, dests=[pid(2), name("a")], ty="S", m=1)]], [2, [reg(2, "a")]]],
        [[2, [o("ret")]], [1, [o("ret")]]], adv=10, after_actors=(3, 4))
    add(["C10"], "start-vs-fire", [[1, [trap()]]],
        [[1, [o("sendafter", tm=1, ms=0, dests=[pid(2)], ty="S", m=1), o("readt", tm=1), o("cancel", tm=1), o("readt", tm=1)]]])
    return C


def scripts(prop, preempt, maxn, rnd, seed, only=None):
    out = []
    for nm, c in sorted(catalogue().items()):
        if only is None and prop is not None and prop not in c["props"]:
            continue
        if only is not None and nm not in only:
            continue
        s = dict(id=nm, threads=c["threads"], setup=c["setup"], race=c["race"], after=c["after"], preempt=preempt, max=maxn, random=rnd, seed=seed)
        if "adv" in c:
            s["adv"] = c["adv"]
        out.append(s)
    return out
