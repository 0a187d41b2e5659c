from vlib import Check

BASE_ASSUME = [
    "BLS12-381 group arithmetic of amcl_wrapper and merlin's STROBE are correct (they are dependencies)",
    "challenges are not chosen adversarially: accept/reject expectations hold except with negligible probability",
]


def builder(c, kind, ops, cb, sim=0, simops=10, miss="0", maxv=6):
    env = {"GEN_MODE": "exh", "GEN_OPS": str(ops), "GEN_CB": str(cb), "GEN_MISS": miss, "GEN_KIND": kind, "GEN_MAXV": str(maxv)}
    cases, _, _ = c.tlc("Builder", env=env)
    if sim:
        env.update({"GEN_MODE": "sim", "GEN_OPS": str(simops), "GEN_CB": "3"})
        more, _, _ = c.tlc("Builder", env=env, simulate=sim, depth=3 * simops + 10, workers=1)
        cases += more
    return c.dedupe(cases)


def shapes(tier, kind):
    """<<m, n1, n2, cbs, q, w, q2>> grid: every padding situation, every phase split, long lists."""
    q = tier == "quick"
    out = []
    top = 9 if q else 17
    if kind == "C01":
        for n1 in range(0, top + 1):
            for n2 in range(0, top + 1 - n1):
                for cbs in ((0,) if n2 == 0 else (1,) if q else (1, 2)):
                    out.append([(n1 + n2) % 4, n1, n2, cbs, (n1 + 2 * n2) % 5, 1 + (n1 % 3), n2 % 3 if cbs else 0])
        out += [[258, 2, 1, 1, 3, 3, 2], [1, 1, 0, 258, 1, 2, 258], [1, 130, 129, 2, 3, 2, 2], [3, 257, 0, 0, 3, 2, 0]]
        for m in (0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 65):
            out.append([m, 2, 1, 1, 3, 3, 2])
            out.append([m, 1, 0, 0, 2, 3, 0])
        for qn in (0, 1, 2, 7, 31, 64, 65, 130, 257, 300):
            out.append([3, 3, 2, 2, qn, 4, qn // 2])
        for w in (0, 1, 2, 8, 20, 70):
            out.append([4, 5, 3, 1, 4, w, 3])
        for n in (15, 16, 17, 31, 32, 33, 63, 64, 65) + ((127, 128, 129, 255, 256, 257) if not q else (129,)):
            out.append([2, n, 0, 0, 5, 3, 0])
            out.append([2, n // 2, n - n // 2, 3, 5, 3, 4])
            out.append([1, 0, n, 1, 2, 2, 2])
        for cbs in (1, 2, 3, 4, 5, 6, 8, 9, 17, 33):
            out.append([1, 1, 0, cbs, 1, 2, cbs])
            out.append([1, 0, cbs, cbs, 1, 2, cbs])
    else:
        for n1 in range(0, 6 if q else 9):
            for n2 in range(0, 5 if q else 9):
                out.append([1 + (n1 + n2) % 3, n1, n2, 1 + n2 % 2 if n2 else n1 % 2, 1 + (n1 + 2 * n2) % 3, 1 + n1 % 3, 2 if n2 or n1 % 2 else 0])
        for m in (5, 9, 17, 33, 65):
            out.append([m, 2, 1, 1, 3, 6, 2])
        for qn in (16, 33, 65, 129, 257):
            out.append([3, 3, 2, 2, qn, 3, qn // 2])
        for w in (8, 20, 70):
            out.append([4, 5, 3, 1, 3, w, 3])
        for n in (17, 33, 65):
            out.append([2, n, 0, 0, 3, 3, 0])
            out.append([2, n // 2, n - n // 2, 2, 3, 3, 3])
        for cbs in (5, 9, 17, 33):
            out.append([1, 1, cbs, cbs, 0, 1, cbs])
            out.append([1, 1, 0, cbs, 0, 1, cbs])
    return out


def pair_shapes(tier):
    """programs with many constraints, for cancelling pairs at every distance between two of them"""
    out = [[1, 2, 1, 1, 9, 1, 5], [2, 1, 0, 0, 33, 2, 0], [1, 1, 1, 2, 60, 1, 20], [1, 1, 0, 1, 250, 1, 30]]
    if tier != "quick":
        out += [[3, 3, 2, 2, q, 2, q // 3] for q in (2, 5, 12, 20, 40, 70, 100, 130)] * 4 + [[1, 1, 0, 1, 480, 1, 50], [0, 1, 1, 1, 20, 1, 300]] * 2
    return out


def sizes(c, kind, maxv):
    import json, os
    f = os.path.join(c.work, "shapes.ndjson")
    with open(f, "w") as h:
        for s in (pair_shapes(c.tier) if kind == "PAIRS" else shapes(c.tier, kind)):
            h.write(json.dumps(s) + "\n")
    cases, _, _ = c.tlc("GenSizes", env={"GEN_SHAPES": f, "GEN_KIND": kind, "GEN_MAXV": str(maxv)})
    return cases


def c_prog(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    if prop == "C01":
        cases = builder(c, "C01", 3 if q else 4, 2, 500 if q else 4000, 12) + sizes(c, "C01", 0)
    elif prop == "C02":
        cases = builder(c, "C02", 3, 2, 80 if q else 1000, 8, maxv=4 if q else 12) + sizes(c, "C02", 8 if q else 40) + sizes(c, "PAIRS", 0)
    else:
        cases = builder(c, "C05", 3 if q else 4, 2, 600 if q else 5000, 14, miss="1")
    out = c.replay("prog", cases)
    c.judge("JudgeProg", out)
    return c.finish(BASE_ASSUME)


def write_nd(c, name, rows):
    import json, os
    f = os.path.join(c.work, name)
    with open(f, "w") as h:
        for s in rows:
            h.write(json.dumps(s) + "\n")
    return f


def c_sim(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = []
    top = 4 if q else 9
    for n1 in range(top + 1):
        for n2 in range(top + 1 - n1 if q else top + 1):
            for m in ((n1 + n2) % 3,) if q else (0, 1, 3):
                rows.append([m, n1, n2, (1 + n1 % 2) if n2 or n1 % 2 else 0, 1 + (n1 + n2) % 3, 2, 2 if n2 or n1 % 2 else 0])
    rows += [[3, 5, 3, 2, 4, 3, 2], [1, 8, 0, 0, 3, 2, 0], [2, 0, 9, 1, 3, 2, 3], [6, 2, 1, 1, 9, 3, 4], [0, 16, 1, 1, 2, 2, 1], [2, 2, 1, 1, 70, 2, 10], [1, 1, 0, 0, 260, 1, 0]]
    if not q:
        rows += [[2, 30, 3, 2, 5, 3, 3], [20, 3, 2, 1, 40, 5, 20], [1, 64, 1, 1, 3, 3, 3]]
    if not q:
        rows = rows * 2
    for p in (3,) if q else (3, 5, 7):                  # the protocol itself, exhaustively over a small field
        c.tlc("SmallField", env={"VERIF_MODULUS": str(p), "MODEL_MODE": "sound"})
    f = write_nd(c, "shapes.ndjson", rows)
    cases, _, _ = c.tlc("GenSim", env={"GEN_SHAPES": f})
    out = c.replay("sim", cases)
    c.judge("JudgeSim", out)
    n = sum(2 + len(x["muts"]) for x in cases)
    return c.finish(BASE_ASSUME + ["challenges y, x and the argument's u_j are non-zero (a zero occurs with negligible probability)"],
                    {"verifier_verdicts": n})


def c_ipp(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = [[lg, v, f] for lg in range(0, 6 if q else 7) for v in range(6) for f in (1, 0) for _ in range(1 if lg > 3 else 2 if q else 6)]
    rows += [[6, 0, 1], [7, 0, 0]] if q else [[7, 0, 1], [8, 0, 0], [8, 5, 1]]
    rows += [[lg, v, 2] for lg in range(0, 19 if q else 21) for v in (0,)] + [[4, 5, 2], [9, 5, 2]]
    cases, _, _ = c.tlc("GenIpp", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows)})
    out = c.replay("ipp", cases)
    c.judge("JudgeIpp", out)
    return c.finish(BASE_ASSUME, {"verifier_verdicts": sum(len(x.get("checks", x.get("idx"))) for x in cases)})


def proto_rows(q, top):
    rows = []
    for n1 in range(top + 1):
        for n2 in range(top + 1 - n1):
            for cbs in ((1, 2) if n2 else (0, 1, 3)):
                rows.append([(n1 + n2 + cbs) % 4, n1, n2, cbs, 1 + n1 % 2, 2, cbs])
    return rows + [[6, 5, 4, 2, 3, 3, 2], [0, 17, 0, 0, 2, 2, 0], [1, 0, 9, 1, 2, 2, 1], [17, 1, 0, 0, 3, 5, 0],
                   [1, 1, 9, 9, 1, 1, 9], [0, 1, 0, 17, 1, 1, 17],  [1, 35, 0, 0, 1, 1, 0], [0, 1, 34, 1, 1, 1, 1]] + ([] if q else [[1, 66, 0, 0, 1, 1, 0], [0, 40, 33, 2, 1, 1, 2]])


def c_transcript(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = proto_rows(q, 5 if q else 10) + [[258, 1, 0, 0, 1, 1, 0], [1, 0, 259, 1, 1, 1, 1], [1, 259, 0, 0, 1, 1, 0], [9 if q else 12]]
    cases, _, _ = c.tlc("GenTranscript", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows), "GEN_KIND": "C04"})
    out = c.replay("transcript", cases)
    c.judge("Transcript", out)
    return c.finish(BASE_ASSUME + ["merlin's challenge function is collision free"],
                    {"altered_runs": sum(len(x["alts"]) for x in cases)})


def c_random(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = proto_rows(q, 4 if q else 8)
    for p in (2,) if q else (2, 3):                     # perfect hiding of the protocol, exhaustively over a small field
        c.tlc("SmallField", env={"VERIF_MODULUS": str(p), "MODEL_MODE": "hide"})
    cases, _, _ = c.tlc("GenTranscript", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows), "GEN_KIND": "C09"})
    out = c.replay("rand", cases)
    c.judge("Randomness", out)
    # gadgets: commitments to auxiliary values
    rows = [["bound", "3", "a", 3], ["bound", "0", "ffffffffffffffff", 64], ["nonzero", 0], ["hamming", 4, 2, 0], ["hamming", 3, 3, 1], ["mimc", 3, 2]]
    rows += [[g, n, v] for g in ("setmem", "setalt", "nonmem") for n in ((1, 2, 5) if q else range(1, 12)) for v in (0, 1)]
    rows += [["pos", w, 0, 0, 1, 0, "Quint", 2] for w in (3, 5, 9)]
    rows += [["smt", a, d, 0, 0, 1, 0, "Quint", 3, 2] for a in (4, 8) for d in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    rows += [["rand", 1, 0, 0, 1, 0, 4, 1], ["rand", 2, 0, 0, 1, 0, 7, 2]] + ([] if q else [["rand", 2, 0, 0, 1, 0, 16, 3], ["rand", 3, 0, 0, 1, 0, 12, 2]])
    runs, _, _ = c.tlc("GenGadget", env={"GEN_SHAPES": write_nd(c, "gshapes.ndjson", rows)})
    runs = c.dedupe([dict(r, alts=[], altrel=[]) for r in runs if r["kind"] == "honest" and r["rel"] and r["must"] and r["nc"] > 0])
    out = c.replay("grand", runs)
    c.judge("Randomness", out)
    return c.finish(BASE_ASSUME + ["the operating system's entropy source behind FieldElement::random is good"])


def c_lincomb(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    cases = []
    for n in (1, 2) if q else (1, 2, 3):
        if n < 3:
            cases += c.tlc("GenLinComb", env={"GEN_MODE": "exh", "GEN_OPS": str(n)})[0]
    for n, k in ((6, 300), (14, 300)) if q else ((3, 20000), (8, 4000), (20, 3000), (40, 500)):
        cases += c.tlc("GenLinComb", env={"GEN_MODE": "sim", "GEN_OPS": str(n), "GEN_RUNS": str(k)})[0]
    cases = c.dedupe(cases)
    out = c.replay("lincomb", cases)
    c.judge("JudgeLinComb", out)
    return c.finish(["equality of coefficient functions over the whole field stands for equality under every assignment"])


def c_hash(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = []
    for w, p in ((3, 55), (5, 56), (9, 57)):
        rows += [["std", w, 4, 4, p, 8 if q else 60], ["std", w, 0, 0, 0, 4], ["std", w, 8, 0, p, 4], ["std", w, 0, 8, p, 4], ["std", w, 3, 5, p, 5]]
        for fb in range(3):
            for fe in range(3):
                for pr in range(3) if q else range(6):
                    rows.append(["rnd", w, fb, fe, pr, 5 if q else 25])
                    rows.append(["std", w, fb, fe, pr, 4])
        rows += [["rnd", w, 4, 4, p, 5], ["rnd", w, 3, 2, 7, 5], ["rnd", w, 1, 6, 30, 5]] * (1 if q else 6)
    rows += [["mimc", r, 8 if q else 40] for r in list(range(0, 12)) + [16, 31, 32, 33, 64, 91, 110, 161, 220, 322]]
    cases, _, _ = c.tlc("GenHash", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows)})
    out = c.replay("hash", cases)
    c.judge("JudgeHash", out)
    return c.finish(["the fixed constants are the published ones: Grain LFSR (field 1, S-box 1, n = 255, R_F = 8, R_P = 55/56/57) and the Cauchy matrix"],
                    {"hash_evaluations": sum(len(x["ins"]) * (1 if x["kind"] == "mimc" else 6) for x in cases)})


def c_support(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = [["poly", n, v] for n in list(range(0, 10)) + [16, 17, 33, 64, 65] + ([] if q else [128, 257]) for v in range(3) for _ in range(2 if q else 8)]
    rows += [["gens", p, n] for p in range(1, 8) for n in ((0, 1, 2, 5, 12) if q else (0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 128))]
    rows += [["gens", 1, 130], ["gens", 5, 1100]] + ([] if q else [["gens", 2, 70000], ["gens", 3, 5000]])
    rows += [["chal", p, s, n] for p in (0, 1, 2, 3, 5) + (() if q else (9, 17)) for s in (0, 1, 7, 33, 130) for n in (1, 2, 3, 6) + (() if q else (12,))]
    rows += [["store", n, r] for n in (6, 20, 60) for r in range(20 if q else 400)]
    rows += [["keys", n] for n in (1, 2, 31, 32, 33, 48, 49, 64, 97, 128)]
    rows += [["exh", n] for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    cases, _, _ = c.tlc("GenSupport", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows)})
    out = c.replay("support", cases)
    c.judge("JudgeSupport", out)
    return c.finish(["amcl_wrapper's hash-to-curve and hash-to-field are collision free"])


def gadget_rows(prop, q):
    r = []
    if prop == "C10":
        r += [["bound", "%x" % a, "%x" % b, n] for a, b, n in
              [(0, 0, 0), (5, 5, 0), (5, 5, 1), (0, 1, 1), (7, 8, 1), (3, 5, 1), (3, 6, 2), (0, 3, 2), (10, 13, 2), (10, 14, 2), (10, 12, 3), (0, 7, 3),
               (100, 107, 3), (100, 108, 3), (20, 35, 4), (1, 13, 4), (2, 1, 4), (0, 255, 8), (10, 100, 7), (10, 138, 7), (0, 2**32 - 1, 32), (5, 2**33, 33),
               (0, 2**63, 64), (0, 2**64 - 1, 64), (2**64 - 1, 2**64 - 1, 1), (2**64 - 4, 2**64 - 1, 2), (2**63 - 1, 2**63 + 6, 3), (1, 2**64 - 1, 64), (1, 2**64 - 1, 63)]]
        if not q:
            r += [["bound", "%x" % a, "%x" % (a + w), n] for n in range(0, 5) for w in range(0, 2 ** n + 2) for a in (0, 1, 6, 1000, 2 ** 40)]
            r += [["bound", "%x" % a, "%x" % (a + 2 ** n - e), n] for n in range(5, 64) for a, e in ((0, 1), (3, 2), (9, 0))]
        r += [["posno", n] for n in ((0, 1, 2, 3, 4, 6, 9, 32, 64, 65, 70, 130, 254) if q else list(range(0, 130)) + [191, 192, 193, 252, 253, 254])]
    if prop == "C11":
        for g in ("setmem", "setalt"):
            r += [[g, n, v] for n in range(0, 6 if q else 9) for v in ((0, 1, 2) if g == "setmem" else (0, 1, 2, 3))] + [[g, 9, 0], [g, 17, 0], [g, 40, 0]]
            r += [] if q else [[g, n, v] for n in (16, 31, 33, 64) for v in (0, 1)] + [[g, 130, 0]]
        r += [["setalt", n, 4] for n in (1, 3, 5, 8)]
        r += [["bit"]] + [["vecsum", n] for n in (0, 1, 2, 5)]
    if prop == "C12":
        r += [["nonzero", i] for i in range(3 if q else 20)]
        r += [["nonmem", n, v] for n in range(0, 6 if q else 12) for v in (0, 1, 2)] + [["nonmem", n, 0] for n in ((17, 70) if q else (17, 33, 65, 130))]
    if prop == "C13":
        r += [["hamming", n, d, v] for n in range(0, 5 if q else 8) for d in range(n + 1) for v in (0, 1, 2)]
        r += [["hamming", n, d, 0] for n, d in ((9, 4), (16, 16), (17, 0), (33, 20), (70, 33)) + (() if q else ((130, 65), (260, 100)))]
    if prop == "C14":
        r += [["mimc", n, 4] for n in ((0, 1, 2, 3, 5, 8) if q else list(range(0, 14)) + [31, 64])] + [["mimc", 110 if q else 322, 2]]
        for w in (3, 5, 9):
            for sb in ("Cube", "Quint", "Inverse"):
                for fb, fe, p in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 0, 3), (2, 1, 2)) if q else \
                        [(a, b, c) for a in range(3) for b in range(3) for c in range(4)]:
                    r.append(["pos", w, 0, fb, fe, p, sb, 3])
                    if (fb, fe, p) in ((1, 1, 1), (0, 0, 1)) or not q:
                        r.append(["perm", w, 0, fb, fe, p, sb, 2])
                if w == 3 or not q:
                    r.append(["pos", w, 1, 4, 4, {3: 55, 5: 56, 9: 57}[w], sb, 2])
        if q:
            r += [["pos", 5, 1, 4, 4, 56, "Quint", 1], ["pos", 9, 1, 4, 4, 57, "Quint", 1]]
    if prop == "C17":
        sbs = ("Quint", "Cube", "Inverse")
        for a in (4, 8):
            for d in (1, 2, 3):
                r.append(["smt", a, d, 0, 0, 1, 0, sbs[d % 3], 3, 2])
                r.append(["smt", a, d, 0, 1, 0, 1, "Quint", 6, 2])
        r += [["smt", 4, d, 0, 0, 1, 0, "Quint", 5, 1] for d in (4, 5)] + [["smt", 8, 4, 0, 0, 1, 0, "Quint", 5, 1]]
        r += [["smt", 4, 2, 1, 4, 4, 56, "Quint", 3, 1]]
        r += [["smt", a, d, 0, 0, 1, 0, "Cube", 3, 2] for a, d in ((4, 33), (4, 66), (8, 22), (8, 44))]      # deep: honest runs only
        if not q:
            r += [["smt", a, d, 0, 1, 1, 1, sb, 8, 4] for a in (4, 8) for d in (1, 2, 3) for sb in sbs]
            r += [["smt", 4, d, 0, 0, 1, 0, "Quint", 5, 1] for d in range(6, 13)] + [["smt", 8, d, 0, 0, 1, 0, "Cube", 5, 1] for d in (5, 6, 7)]
            r += [["smt", a, d, 0, 0, 1, 0, "Cube", 3, 2] for a, d in ((4, 17), (4, 32), (4, 65), (4, 100), (4, 127), (8, 21), (8, 43), (8, 64), (8, 84))]
            r += [["smt", 4, 5, 1, 4, 4, 56, "Quint", 3, 1], ["smt", 8, 3, 1, 4, 4, 57, "Quint", 3, 1]]
    if prop == "C18":
        r += [["rand", d, 0, fb, fe, p, n, m] for d, fb, fe, p, n, m in
              ((1, 0, 1, 0, 4, 1), (1, 1, 0, 1, 3, 2), (2, 0, 1, 0, 9, 1), (2, 0, 1, 0, 7, 2), (2, 1, 0, 1, 16, 3), (3, 0, 1, 0, 12, 2), (3, 0, 1, 0, 20, 4))]
        if not q:
            r += [["rand", d, 0, 1, 1, 1, n, m] for d, n in ((1, 4), (2, 8), (2, 16), (3, 30)) for m in (1, 2, 3, 4)] + [["rand", 4, 0, 0, 1, 0, 40, 6]]
            r += [["rand", 2, 1, 4, 4, 56, 7, 1]]
    return r


def attack(c, attacks):
    """circuit extraction, adversary, forgery"""
    import json
    if not attacks:
        return []
    for i, a in enumerate(attacks):
        a["id"] = i
    circ = c.replay("circuit", attacks)
    c.traces -= len(attacks)
    wins, _, _ = c.tlc("Adversary", env={"JUDGE_IN": circ}, cfg="Judge.cfg", partial=True, timeout=400 if c.quick else 7200)
    usable = sum(1 for l in open(circ) if json.loads(l)["o"].get("err") == "")
    seen, forg = {}, []
    for w in sorted(wins, key=lambda w: (w["id"], json.dumps(w["vals"]), json.dumps(w["wires"]))):
        key = (w["id"], w["rel"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= (1 if w["rel"] else 3):
            forg.append(w)
    c.adv = {"attacks": len(attacks), "circuits_extracted": usable, "assignments_found": len(wins),
             "assignments_of_false_statements": sum(1 for w in wins if not w["rel"]), "forged": len(forg)}
    return forg


def c_gadget(prop, tier):
    c = Check(prop, tier)
    cases, _, _ = c.tlc("GenGadget", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", gadget_rows(prop, c.quick))})
    cases = c.dedupe(cases)
    honest = [x for x in cases if x["kind"] == "honest"]
    out = c.replay("honest", honest)
    c.judge("JudgeGadget", out)
    forg = attack(c, [x for x in cases if x["kind"] == "attack"])
    if forg:
        out = c.replay("forge", forg)
        c.judge("JudgeGadget", out)
        import json
        acc = sum(1 for l in open(out) if json.loads(l)["o"]["ver"] == "ok")
        c.adv["forged_accepted"] = acc
    if prop == "C18":
        q = c.quick
        rows = [[n, k, v] for n in (1, 2, 3, 5, 10, 16, 64, 100, 256) for k in (0, 1, 2, 3, 5, 8) + (() if q else (13, 30, 60)) for v in ((0, 1) if q else (0, 0, 1, 2, 3))]
        rows += [[n, k, 0] for n in (400, 65536, 1000003, 2 ** 31 - 1) for k in (1, 7, 30)]
        # as many indices as entries: the whole stream is needed now and then
        rows += [[n, k, 0] for n in (2, 3, 4, 5, 8) for k in (n, n - 1) for _ in range(15 if q else 100)]
        dc, _, _ = c.tlc("GenDistort", env={"GEN_SHAPES": write_nd(c, "dshapes.ndjson", rows)})
        out = c.replay("distort", c.dedupe(dc))
        c.judge("JudgeDistort", out)
    return c.finish(BASE_ASSUME + ["the adversary's search is complete for the circuits whose zero products are branched exhaustively; larger ones are searched around honest assignments"],
                    {"honest_runs": len(honest), "adversary": c.adv})


def c_smt(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = [["exh", 4, 1, 2], ["exh", 8, 1, 2], ["exh", 4, 2, 2], ["exh", 8, 2, 2]] + ([] if q else [["exh", 4, 2, 3], ["exh", 8, 2, 3], ["exh", 4, 3, 3]])
    for a in (4, 8):
        for d in range(1, 7 if q else 10):
            rows += [["rnd", a, d, 0, 0, 1, 0, n] for n in ((12, 25) if q else (12, 25, 40, 60, 100))]
            rows += [["rnd", a, d, 0, 1, 0, 1, 15]]
        rows += [["rnd", a, d, 0, 0, 1, 0, 15] for d in ((12, 20, 31, 60) if q else (12, 20, 31, 40, 60, 85 if a == 8 else 127))]
        rows += [["rnd", a, d, 1, 4, 4, 56 if a == 4 else 57, 8] for d in ((2,) if q else (1, 2, 3, 5, 8))]
    cases, _, _ = c.tlc("GenSmt", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows)})
    out = c.replay("smt", cases)
    c.judge("JudgeSmt", out)
    return c.finish(["Poseidon is collision free"], {"operations": sum(len(x["ops"]) for x in cases)})


def c_malformed(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    rows = [["bound", "3", "a", 3], ["nonzero", 0], ["setmem", 3, 0], ["setalt", 3, 0], ["nonmem", 2, 0], ["hamming", 3, 1, 0], ["mimc", 2, 1], ["bit"],
            ["vecsum", 2], ["pos", 3, 0, 0, 1, 0, "Quint", 1], ["pos", 5, 0, 0, 1, 0, "Cube", 1], ["pos", 9, 0, 0, 1, 0, "Inverse", 1],
            ["perm", 3, 0, 0, 1, 0, "Quint", 1], ["smt", 4, 2, 0, 0, 1, 0, "Quint", 3, 1], ["smt", 8, 2, 0, 0, 1, 0, "Quint", 3, 1],
            ["rand", 1, 0, 0, 1, 0, 4, 1], ["rand", 2, 0, 0, 1, 0, 7, 2]] + [["posno", n] for n in ((0, 1, 2, 3, 4, 5, 8, 9) if q else range(0, 35))]
    if not q:
        rows += [["bound", "0", "ff", 8], ["setmem", 9, 0], ["setalt", 8, 0], ["nonmem", 7, 0], ["hamming", 9, 3, 0], ["mimc", 9, 1], ["pos", 5, 0, 1, 1, 2, "Quint", 1],
                 ["smt", 4, 1, 0, 0, 1, 0, "Quint", 3, 1], ["smt", 4, 4, 0, 0, 1, 0, "Quint", 3, 1], ["smt", 8, 1, 0, 0, 1, 0, "Cube", 3, 1], ["smt", 8, 3, 0, 0, 1, 0, "Quint", 3, 1],
                 ["rand", 3, 0, 0, 1, 0, 12, 3]]
    runs, _, _ = c.tlc("GenGadget", env={"GEN_SHAPES": write_nd(c, "shapes.ndjson", rows)})
    base, seen = [], set()
    for r in runs:
        if r["kind"] != "honest" or not (r["rel"] and r["must"]):
            continue
        s = r["s"]
        key = json_key([s["g"], s.get("depth"), s.get("bits"), len(s.get("set", [])), len(s.get("new", [])), len(s.get("consts", []))])
        if key in seen:
            continue
        seen.add(key)
        b = {"s": s, "w": r["w"], "nc": r["nc"], "r": ["%x" % (7 + 13 * i) for i in range(2 if s["g"][:3] == "smt" else len(r["w"]["vals"]))]}
        if s["g"] == "bound":
            b.update(above="%x" % (int(r["w"]["vals"][0], 16) + 1), below="%x" % (int(r["w"]["vals"][0], 16) - 1))
        base.append(dict(b, only="input"))
        if s["g"] == "posno" or not q or len(seen) < 100:
            base.append(dict(b, only="size"))
    for n1, n2, cbs in [(0, 0, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 2), (4, 1, 1), (3, 5, 1), (0, 2, 4)]:
        base.append({"s": {"g": "two", "n1": n1, "n2": n2, "cbs": cbs}, "w": {"vals": []}, "nc": 0, "r": [], "only": "size"})
    base += [{"only": "ipp", "lg": lg} for lg in range(0, 4 if q else 7)]
    cases, _, _ = c.tlc("GenMalformed", env={"GEN_CASES": write_nd(c, "base.ndjson", base), "GEN_DEEP": "0" if q else "1"})
    cases = c.dedupe(cases)
    out = c.replay("malformed", cases)
    c.judge("JudgeMalformed", out)
    return c.finish(BASE_ASSUME + ["configuration errors of the caller (unsupported Poseidon widths) are outside the property"],
                    {"well_formed_runs": len(base), "malformed_runs": len(cases)})


def c_compose(prop, tier):
    c = Check(prop, tier)
    q = c.quick
    cases = c.tlc("Compose", env={"GEN_MODE": "exh", "GEN_STEPS": "2", "GEN_RUNS": "0"})[0]
    for n, k in ((3, 100), (5, 150), (8, 100), (12, 40)) if q else ((3, 1500), (5, 2000), (8, 1500), (12, 600), (20, 200)):
        cases += c.tlc("Compose", env={"GEN_MODE": "sim", "GEN_STEPS": str(n), "GEN_RUNS": str(k)})[0]
    cases = c.dedupe(cases)
    out = c.replay("compose", cases)
    c.judge("JudgeCompose", out)
    return c.finish(BASE_ASSUME, {"true_combinations": sum(x["rel"] for x in cases), "verifier_verdicts": sum(len(x["vs"]) for x in cases)})


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)


CHECKS = {"C19": c_compose, "C08": c_malformed, "C16": c_smt, "C10": c_gadget, "C11": c_gadget, "C12": c_gadget, "C13": c_gadget, "C14": c_gadget, "C17": c_gadget, "C18": c_gadget, "C20": c_support, "C15": c_hash, "C06": c_lincomb, "C04": c_transcript, "C09": c_random, "C07": c_ipp, "C03": c_sim, "C01": c_prog, "C02": c_prog, "C05": c_prog}

_ADV = "TLC-generated honest and false runs judged by the TLA+ relation; TLC adversary machine searches the extracted circuit for winning witnesses of false statements, which are then forged on the real code"
INFO = {
    "C19": ("TLC state machine over sequences of gadgets, constraint-system operations, shared commitments and callbacks; proofs of the real code and altered verifiers judged by TLC",
            "all ordered pairs of 16 gadgets with at most one false statement, half-assigned multipliers before; random combinations to 12 (20 thorough) steps"),
    "C08": ("TLC crosses well-formed runs of every wrapper with every fault in one or two sizes; the outcomes of the real code are judged by the TLA+ well-formedness predicate",
            "generator, L/R, commitment, path, input and blinding lengths off by one, two, all, or over the 32-round limit; every node missing in turn"),
    "C16": ("TLC state machine over tree versions (branching update histories, exhaustive over a small alphabet; random long ones) replayed on both trees; every root, value, path and verdict compared by TLC",
            "exhaustive to 2 (quick) or 3 (thorough) updates; random histories to 25 (100) operations, depths to 20 (127)"),
    "C10": (_ADV, "bit sizes to 64, every start of the bit search exhaustive to 8 bits in total, hinted search beyond; end points and u64 extremes"),
    "C11": (_ADV, "sets to 17 (64 thorough) elements; members and related non-members; exhaustive guess search to 5 set elements for the bitmap variant"),
    "C12": (_ADV, "sets to 17 elements; every member position, prover-chosen inverses"),
    "C13": (_ADV, "vectors to 33 positions; every count for up to 5 positions"),
    "C14": (_ADV, "three widths, three S-boxes, small round counts plus the standard parameter sets; MiMC to 322 rounds"),
    "C17": (_ADV, "depths to 5 (12 thorough) for arity 4, 4 (7) for arity 8; exhaustive index-bit search to 6 bits"),
    "C18": (_ADV, "depths to 3 (4 thorough), to 4 (6) indices"),
    "C20": ("TLC-generated polynomials, derivation inputs and store histories (exhaustive to 3 or 5 operations); results of the real code judged by TLC",
            "vector lengths to 65 (257 thorough); every single alteration of a challenge input"),
    "C15": ("TLC-generated parameter sets and inputs; native hash values and constants of the real code against the TLA+ definitions (rounds, Grain LFSR, Cauchy matrix)",
            "all three widths and S-boxes; round counts 0..8 full, 0..57 partial; random and edge inputs"),
    "C06": ("TLC state machine over linear-combination operations (every operand typing), coefficient functions of the real results compared by TLC",
            "exhaustive to 2 operations over a small operand alphabet, random programs to 14 (quick) or 40 (thorough) operations"),
    "C01": ("TLC-generated programs (exhaustive builder machine + size grid + simulation) replayed on Prover/Verifier, verdict computed by TLC",
            "explicit TLA+ builder/satisfaction model; bounded program shapes"),
    "C02": ("TLC-generated false statements and verifier-side alterations replayed, expected verdict computed by TLC",
            "explicit TLA+ model decides which alterations change the statement; bounded program shapes"),
    "C03": ("TLC explores the protocol over a small field exhaustively; TLC-simulated transcripts (equations solved for a message) and alterations, verdict of the real verifier under a programmed oracle",
            "explicit TLA+ verification equations over discrete logarithms; bounded statement shapes"),
    "C07": ("TLC-generated inner-product instances: exact messages and verdicts of the real code against the TLA+ halving protocol",
            "explicit TLA+ protocol over discrete logarithms; lengths 1..128 (quick), ..256 (thorough)"),
    "C04": ("recorded transcripts of both sides and of altered runs judged by TLC against the TLA+ message schedule",
            "every single alteration of bounded statement shapes"),
    "C09": ("TLC checks perfect hiding of the protocol over a small field exhaustively; each random draw perturbed under a programmed oracle, its effect judged by TLC against the TLA+ role table",
            "bounded statement shapes; every draw of each proof"),
    "C05": ("TLC builder state machine (both sides) replayed operation by operation, returned variables and values compared by TLC",
            "exhaustive to 3 (quick) or 4 (thorough) operations, random beyond"),
}
