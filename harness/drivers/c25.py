"""The plotter's sheet (frontend/packages/webapp, plots)."""
from vlib import *
from nodejs import Batch

TEXTS = ["10", "8", "2", "20", "120", "46", "5", "45", "0", "9", "1e1", " 7 ", "007", "12.25", "-3.5", ".5", "359.999"]
BAD = ["", "", "abc", "-", "x5"]
COLORS = ["#65499e", "dodgerblue", "red", "", "no color!", "#12"]


def play(B, sc, ops):
    """ops: name and edits (row and column from 1, text)"""
    def then(r):
        B.T.ev("begin")
        for (o, es), q in zip([["open", []]] + ops, r["out"]):
            B.T.ev("sheet", o=o, edits=es, **q)
    B.add(sc, then, "sheet", [[o, [[r - 1, k - 1, t] for r, k, t in es]] for o, es in ops])


def walk(rng):
    out, n = [], 10
    for _ in range(int(rng.randint(3, 10))):
        o = str(rng.choice(["edit"] * 9 + ["more", "reset", "reload"]))
        es = []
        if o == "edit":
            style = rng.randint(5)
            r = int(rng.randint(n)) + 1
            if style == 0:      # a whole row, as pasted
                es = [[r, k, str(rng.choice(TEXTS))] for k in range(1, 6)] + ([[r, 6, str(rng.choice(COLORS))]] if rng.randint(2) else [])
            elif style == 4:    # a block, as pasted
                r = int(rng.randint(1, 4))
                es = [[r + j, k, str(rng.choice(TEXTS))] for j in range(int(rng.randint(5, 8))) for k in range(1, 7 if r > 2 else 6)]
                es = [[q, k, t if k < 6 else str(rng.choice(COLORS))] for q, k, t in es]
            else:
                for _ in range(int(rng.randint(1, 6))):
                    k = int(rng.randint(6)) + 1
                    if style == 2:
                        r = int(rng.randint(n)) + 1
                    es.append([r, k, str(rng.choice(COLORS if k == 6 else TEXTS if rng.randint(3) else BAD))])
            seen, keep = set(), []
            for e in es[::-1]:
                if (e[0], e[1]) not in seen:
                    keep.append(e)
                seen.add((e[0], e[1]))
            es = keep[::-1]
        elif o == "more":
            n += 10
        elif o == "reset":
            n = 10
        out.append([o, es])
    return out


def run(T, cases, rng, tier):
    B = Batch(T, "sheet.js")
    quick = tier == "quick"
    for i, c in enumerate(cases):
        if quick and rng.randint(4):
            continue
        play(B, "mc%d" % i, c)
    for i in range(150 if quick else 2000):
        play(B, "walk%d" % i, walk(rng))
    B.run()


if __name__ == "__main__":
    main(run)
