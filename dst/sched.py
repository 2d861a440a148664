"""Seeded scheduling strategies for concurrent simulated processes."""
import random


def chooser(s, tag="sched"):
    """choose() for World.run_clients from s["sched"]: a list of choices or a
    seeded strategy {"seed":, "mode":, "d":}."""
    sc = s[tag]
    if isinstance(sc, list):
        def fixed(runnable, step):
            want = sc[step] if step < len(sc) else 0
            for i, c in enumerate(runnable):
                if c.idx == want:
                    return i
            return 0
        return fixed
    rng = random.Random("sched%s" % sc["seed"])
    mode = sc["mode"]
    if mode == "uniform":
        return lambda runnable, step: rng.randrange(len(runnable))
    if mode == "burst":
        st = {"cur": None, "left": 0}

        def burst(runnable, step):
            for i, c in enumerate(runnable):
                if c is st["cur"] and st["left"] > 0:
                    st["left"] -= 1
                    return i
            i = rng.randrange(len(runnable))
            st["cur"] = runnable[i]
            st["left"] = int(rng.expovariate(1.0 / sc["d"]))
            return i
        return burst
    # pct: random priorities, d change points
    prio = {}
    change = set(rng.randrange(sc.get("len", 300)) for _ in range(sc["d"]))

    def pct(runnable, step):
        for c in runnable:
            prio.setdefault(c.idx, rng.random())
        i = max(range(len(runnable)), key=lambda k: prio[runnable[k].idx])
        if step in change:
            prio[runnable[i].idx] = -rng.random()
            i = max(range(len(runnable)), key=lambda k: prio[runnable[k].idx])
        return i
    return pct


def gen(rng):
    m = rng.choice(["uniform", "burst", "burst", "pct", "pct"])
    return {"seed": rng.randrange(1 << 30), "mode": m, "d": rng.choice([2, 5, 10, 20]) if m == "burst" else rng.choice([1, 2, 3, 5]),
            "len": rng.choice([40, 100, 200, 400])}
