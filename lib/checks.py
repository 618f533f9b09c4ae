"""One function per property."""


def tierval(c, quick, thorough):
    return thorough if c.tier == "thorough" else quick


def C05(c):
    t = c.drive("ops-fwd", tierval(c, 24000, 800000))
    c.validate("OpsTrace", t)


def C06(c):
    t = c.drive("ops-bwd", tierval(c, 24000, 800000))
    c.validate("OpsTrace", t)


def hist(c, flavour, n, m, yielding=False):
    t = c.drive("hist-" + flavour, tierval(c, n, m), timeout=20)
    if yielding:
        t += c.drive("hist-" + flavour, tierval(c, n, m), timeout=20, bin=c.build_yield(), tag="hist-yield", envx={"VERIF_YIELD": str(c.seed)})
    c.validate("AutogradTrace", t)


def C02(c):
    hist(c, "paths", 6400, 160000)


def C04(c):
    hist(c, "reuse", 4800, 80000, True)


def C07(c):
    hist(c, "block", 6400, 160000)


def C01(c):
    c.model("Backward", tierval(c, "MCBackward.cfg", "MCBackwardDeep.cfg"))
    f = c.behaviours("BackwardGen", tierval(c, 800, 8000), 300)
    t = c.drive("bwd-sched", 0, ["-in", f], timeout=30)
    b = c.build_yield()
    n = tierval(c, 600, 8000)
    t += c.drive("bwd-rand", n, timeout=30, bin=b, tag="bwd-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("bwd-rand", n, timeout=30)
    c.validate("BackwardTrace", t)


def C03(c):
    c.model("Forward", tierval(c, "MCForward.cfg", "MCForwardDeep.cfg"))
    f = c.behaviours("ForwardGen", tierval(c, 480, 6000), 200)
    t = c.drive("fwd-sched", 0, ["-in", f], timeout=30)
    b = c.build_yield()
    n = tierval(c, 400, 6000)
    t += c.drive("fwd-rand", n, timeout=30, bin=b, tag="fwd-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("fwd-rand", n, timeout=30)
    # on one processor the limit on concurrent evaluations is at its smallest
    t += c.drive("fwd-rand", n // 2, timeout=30, tag="fwd-one", one_cpu=True)
    t += c.drive("fwd-sched", 0, ["-in", f], timeout=30, tag="fwd-sched-one", one_cpu=True)
    c.validate("ForwardTrace", t)


def C08(c):
    c.model("GradCell")
    n = tierval(c, 800, 16000)
    b = c.build_yield()
    t = c.drive("grad-hist", n, timeout=30, bin=b, tag="grad-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("grad-hist", n, timeout=30)
    m = tierval(c, 200, 4000)
    t += c.drive("grad-bulk", m, timeout=30, bin=b, tag="bulk-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("grad-bulk", m, timeout=30)
    c.search("GradTrace", t, "no sequential order explains the history", need=lambda r: r["mode"] == "hist")


def optimize(c, flavour):
    c.model("Optimize", tierval(c, "MCOptimize.cfg", "MCOptimizeDeep.cfg"))
    f = c.behaviours("OptimizeGen", tierval(c, 400, 6000), 200)
    t = c.drive("opt-sched", 0, ["-in", f], timeout=30)
    b = c.build_yield()
    n = tierval(c, 400, 6000)
    t += c.drive("opt-rand-" + flavour, n, timeout=30, bin=b, tag="opt-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("opt-rand-" + flavour, n, timeout=30)
    t += c.drive("opt-rand-" + flavour, n // 2, timeout=30, tag="opt-one", one_cpu=True)
    c.validate("OptimizeTrace", t)


def C09(c):
    optimize(c, "ok")


def C10(c):
    optimize(c, "fail")
    c.validate("OptimTrace", c.drive("opt-alien", tierval(c, 600, 12000), timeout=30))


def C11(c):
    t = c.drive("opt-traj", tierval(c, 1600, 24000), timeout=30)
    t += c.drive("opt-decay", tierval(c, 800, 8000), timeout=30)
    t += c.drive("opt-config", 400, timeout=30)
    c.validate("OptimTrace", t)


def C12(c):
    t = c.drive("opt-clip", tierval(c, 3200, 40000), timeout=30)
    t += c.drive("opt-clip-config", tierval(c, 240, 2400), timeout=30)
    c.validate("OptimTrace", t)


def C13(c):
    t = c.drive("opt-resume", tierval(c, 1600, 24000), timeout=30)
    c.validate("OptimTrace", t)


def C14(c):
    t = c.drive("traverse", tierval(c, 4000, 60000), timeout=30)
    c.validate("TraverseTrace", t)


def C15(c):
    c.model("Stream")
    n = tierval(c, 4000, 60000)
    t = c.drive("stream", n, timeout=30)
    t += c.drive("stream", n // 2, timeout=30, tag="stream-one", one_cpu=True)
    c.validate("StreamTrace", t)


def C16(c):
    c.model("Codec")
    t = c.drive("codec", tierval(c, 6400, 40000), timeout=30)
    t += c.drive("codec-shared", tierval(c, 320, 3200), timeout=30)
    c.validate("CodecTrace", t)


def C17(c):
    c.model("Codec")
    t = c.drive("codec-cut", tierval(c, 1600, 10000), timeout=60)
    c.validate("CodecTrace", t)


def layers(c, *cmds):
    t = []
    for cmd, q, th in cmds:
        t += c.drive(cmd, tierval(c, q, th), timeout=30, max_crashes=4000)
    c.validate("LayersTrace", t)


def C19(c):
    layers(c, ("layer-rnn", 1800, 18000), ("rnn-state", 1600, 12000), ("new-C19", 320, 3200))


def C20(c):
    layers(c, ("attention", 6000, 60000), ("new-C20", 320, 3200))


def C21(c):
    layers(c, ("layer-norm", 1600, 16000), ("bn-train", 480, 4000), ("bn-history", 480, 6000), ("new-C21", 320, 3200))


def C22(c):
    layers(c, ("crf-nll", 960, 8000), ("crf-decode", 1200, 12000), ("new-C22", 320, 3200))


def C23(c):
    layers(c, ("layer-conv", 6000, 60000), ("new-C23", 320, 3200))


def C24(c):
    layers(c, ("layer-ff", 7200, 60000), ("new-C24", 320, 3200), ("act-name", 320, 3200))


def C25(c):
    layers(c, ("loss", 8000, 80000))


def C18(c):
    c.model("EmbMarks")
    t = c.drive("embedding", tierval(c, 3200, 48000), timeout=30)
    t += c.drive("emb-conc", tierval(c, 1200, 16000), timeout=30, bin=c.build_yield(), envx={"VERIF_YIELD": str(c.seed)})
    c.validate("EmbTrace", t)
    layers(c, ("new-C18", 160, 1600))


def C26(c):
    t = c.drive("mat-history", tierval(c, 2400, 40000), timeout=30)
    c.validate("MatTrace", t)


def C27(c):
    t = c.drive("mat-op", tierval(c, 14000, 600000), timeout=30)
    # the same operations without the vector instructions, and without assembly
    n = tierval(c, 4000, 120000)
    t += c.drive("mat-op", n, timeout=30, tag="mat-op-sse", envx={"GODEBUG": "cpu.avx2=off,cpu.avx=off"})
    b = c.build_or_none(tags="purego,noasm")
    if b:
        t += c.drive("mat-op", n, timeout=30, tag="mat-op-pure", bin=b)
    c.validate("MatTrace", t)


def C28(c):
    c.model("LockedRand")
    t = c.drive("random", tierval(c, 2400, 36000), timeout=30)
    b = c.build_yield()
    n = tierval(c, 80, 1600)
    t += c.drive("rand-bulk", n, timeout=30)
    t += c.drive("rand-bulk", n, timeout=30, bin=b, tag="bulk-yield", envx={"VERIF_YIELD": str(c.seed)})
    c.validate("RandTrace", t)
    n = tierval(c, 800, 12000)
    t = c.drive("rand-hist", n, timeout=30)
    t += c.drive("rand-hist", n, timeout=30, bin=b, tag="hist-yield", envx={"VERIF_YIELD": str(c.seed)})
    c.search("RandHist", t, "no sequential order explains the history")


def C29(c):
    c.model("Shared")
    n = tierval(c, 1200, 16000)
    t = c.drive("shared", n, timeout=30, max_crashes=4000, bin=c.build_yield(), tag="shared-yield", envx={"VERIF_YIELD": str(c.seed)})
    t += c.drive("shared", n, timeout=30, max_crashes=4000)
    t += c.drive("shared", n // 3, timeout=30, max_crashes=4000, tag="shared-one", one_cpu=True)
    c.validate("LayersTrace", t)
