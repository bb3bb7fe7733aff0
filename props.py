"""Which stages decide which property."""
from run import run_mc, run_trace, run_miri, parallel

PROPS = {}


def prop(pid, pkgs, assumptions=()):
    def deco(f):
        PROPS[pid] = dict(run=f, pkgs=pkgs, assumptions=list(assumptions))
        return f
    return deco


def thorough(ctx):
    return ctx.tier == "thorough"


# ------------------------------------------------------------------ order book
def book_traces(ctx, modes, runs, length, k=1):
    runs, length = (runs * 6, length * 2) if thorough(ctx) else (runs, length)
    jobs = []
    for m in modes:
        for j in range(k):
            sd = ctx.seed * 1000 + j
            jobs.append(lambda m=m, sd=sd: run_trace(
                ctx, "TraceOrderBook", "TraceOrderBook.cfg", ["vte", "book", "record", sd, runs, length, m],
                name="book-%s-%d" % (m, sd), min_events=100))
    parallel(jobs)


BOOK_ASSUME = ["order ids are unique among resting orders; quantities are positive (zero only as amend-to-zero or an empty "
               "feed slot); prices stay away from the two sentinel values"]


def book_mc(ctx, cfg, module="MCOrderBook"):
    if thorough(ctx):
        big = {"MCOrderBook_quick.cfg": "MCOrderBook_big.cfg", "MCOrderBook_raw.cfg": "MCOrderBook_rawbig.cfg",
               "MCOrderBookL2_quick.cfg": "MCOrderBookL2_big.cfg"}
        cfg = big[cfg]
    run_mc(ctx, module, cfg, replay=("vte", "book"), min_tests=1000)


@prop("C01", ["vte"], BOOK_ASSUME)
def c01(ctx):
    book_mc(ctx, "MCOrderBook_raw.cfg")
    book_traces(ctx, ["raw", "l3", "diff", "snap"], 120, 120)


@prop("C02", ["vte"], BOOK_ASSUME)
def c02(ctx):
    book_mc(ctx, "MCOrderBook_quick.cfg")
    book_traces(ctx, ["l3"], 120, 120, k=4)


@prop("C03", ["vte"], BOOK_ASSUME)
def c03(ctx):
    book_mc(ctx, "MCOrderBook_quick.cfg")
    book_traces(ctx, ["l3"], 200, 60, k=4)


@prop("C04", ["vte"], BOOK_ASSUME)
def c04(ctx):
    book_mc(ctx, "MCOrderBook_raw.cfg")
    book_traces(ctx, ["l3", "raw"], 120, 120, k=2)


@prop("C05", ["vte"], BOOK_ASSUME + ["snapshots are applied to books with one order per level (the documented use)"])
def c05(ctx):
    book_mc(ctx, "MCOrderBookL2_quick.cfg", "MCOrderBookL2")
    book_traces(ctx, ["snap"], 120, 120, k=4)


@prop("C06", ["vte"], BOOK_ASSUME)
def c06(ctx):
    book_mc(ctx, "MCOrderBookL2_quick.cfg", "MCOrderBookL2")
    book_traces(ctx, ["diff"], 120, 120, k=4)


# ------------------------------------------------------------------ shared slot
@prop("C07", ["vte"], ["one producer, which asks for access before it writes and publishes; a worker reports completion only "
                       "of an update it holds, or when it holds none; queues are made with DataSpinQueue::new"])
def c07(ctx):
    run_mc(ctx, "MCSpinQueue", "MCSpinQueue_%s.cfg" % ("big" if thorough(ctx) else "quick"),
           replay=("vte", "spin"), min_tests=1000)
    k = 8 if thorough(ctx) else 1
    for j in range(k):
        run_trace(ctx, "TraceSpinQueue", "TraceSpinQueue.cfg", ["vte", "spin", "record", ctx.seed * 1000 + j, 250, 24, 90],
                  name="spin-%d" % j, min_events=2000)
    # the orderings: on the weak memory of the specification, and the real code on that of Miri
    run_mc(ctx, "MCSpinMem", "MCSpinMem_%s.cfg" % ("big" if thorough(ctx) else "quick"), workers=1)
    run_miri(ctx, "TraceSpinMem", "TraceSpinMem.cfg", "vmm", [ctx.seed * 100 + j for j in range(64 if thorough(ctx) else 8)], [6],
             name="weak-memory")


# ------------------------------------------------------------------ counters
@prop("C08", ["vte"], ["start and end leave room below the largest 64-bit number for the draws made"])
def c08(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCCounter", "MCCounter_%s.cfg" % ("big" if big else "quick"), replay=("vte", "counter"), min_tests=1000)
    for j in range(8 if big else 1):
        run_trace(ctx, "TraceCounter", "TraceCounter.cfg",
                  ["vte", "counter", "record", ctx.seed * 1000 + j, 300, 30, 60], name="counter-%d" % j, min_events=2000)
        run_trace(ctx, "TraceCounter", "TraceCounter.cfg", ["vte", "counter", "sprint", ctx.seed * 1000 + j, 2000000 if big else 400000, 40],
                  name="sprint-%d" % j, min_events=500)


# ------------------------------------------------------------------ instrument ids
@prop("C09", ["vte"], ["symbol text has no embedded or trailing zero bytes"])
def c09(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCInstId", "MCInstId_%s.cfg" % ("big" if big else "quick"), replay=("vte", "instid"), min_tests=10000)
    for j in range(8 if big else 1):
        run_trace(ctx, "TraceInstId", "TraceInstId.cfg", ["vte", "instid", "record", ctx.seed * 1000 + j, 250],
                  name="instid-%d" % j, min_events=2000)


# ------------------------------------------------------------------ logger
@prop("C10", ["vte"], ["nothing is logged at an enabled level after shutdown began; one shutdown per process; a file is attached "
                       "at some time before shutdown"])
def c10(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCLogger", "MCLogger_%s.cfg" % ("big" if big else "quick"))
    run_mc(ctx, "MCLogger", "MCLogger_%s.cfg" % ("genbig" if big else "gen"), replay=("vte", "logger"), min_tests=100)
    for j in range(6 if big else 1):
        run_trace(ctx, "TraceLogger", "TraceLogger.cfg", ["vte", "logger", "record", ctx.seed * 1000 + j, 150],
                  name="logger-%d" % j, min_events=2000)


# ------------------------------------------------------------------ timestamps
@prop("C11", ["vte"], ["times of day are twelve digits below 24:00:00; converter offsets are whole seconds; the first day of 1970 "
                       "is left out (a negative offset would leave the epoch)"])
def c11(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCCivil", "MCCivil.cfg", workers=2)
    run_mc(ctx, "MCDayRoll", "MCDayRoll_%s.cfg" % ("big" if big else "quick"), replay=("vte", "dayroll"), min_tests=5000)
    jobs = [lambda j=j: run_trace(ctx, "TraceDayRoll", "TraceDayRoll.cfg", ["vte", "dayroll", "record", ctx.seed * 1000 + j, 150, 120],
                                  name="dayroll-%d" % j, min_events=2000) for j in range(12 if big else 1)]
    jobs += [lambda j=j: run_trace(ctx, "TraceDayRoll", "TraceDayRoll.cfg", ["vte", "dayroll", "render", ctx.seed * 1000 + j, 1 if big else 4],
                                   name="render-%d" % j, min_events=2000) for j in range(3 if big else 1)]
    parallel(jobs)


# ------------------------------------------------------------------ exchange messages
def krx_traces(ctx, runs, length, k):
    runs, length = (runs * 4, length * 2) if thorough(ctx) else (runs, length)
    parallel([lambda j=j: run_trace(ctx, "TraceKrx", "TraceKrx.cfg", ["vte", "krx", "record", ctx.seed * 100 + j, runs, length],
                                    name="krx-%d" % j, min_events=200) for j in range(k)])


KRX_ASSUME = ["numeric fields of well-formed messages consist of digits (with a leading sign or unused characters and the decimal "
              "point where the layout has them)", "payloads lie in a larger receive buffer: the parsers read whole words"]


@prop("C12", ["vte"], KRX_ASSUME)
def c12(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCKrx", "MCKrx_big.cfg" if big else "MCKrx_quick.cfg", replay=("vte", "krx"), min_tests=1000)
    run_mc(ctx, "MCKrx", "MCKrx_bad.cfg", replay=("vte", "krx"), min_tests=1000)
    krx_traces(ctx, 10, 60, 4)


@prop("C13", ["vte"], KRX_ASSUME)
def c13(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCKrx", "MCKrx_seqbig.cfg" if big else "MCKrx_seq.cfg", replay=("vte", "krx"), min_tests=1000)
    krx_traces(ctx, 10, 80, 4)


# ------------------------------------------------------------------ features
@prop("C14", ["vte"], ["times never go backwards; decay weights between 0 and 1"])
def c14(ctx):
    big = thorough(ctx)
    run_mc(ctx, "MCEWM", "MCEWM_%s.cfg" % ("big" if big else "quick"), replay=("vte", "ewm"), min_tests=10000)
    parallel([lambda j=j: run_trace(ctx, "TraceEWM", "TraceEWM.cfg", ["vte", "ewm", "record", ctx.seed * 1000 + j, 60, 100],
                                    name="ewm-%d" % j, min_events=2000) for j in range(12 if big else 2)])


@prop("C15", ["vte"], ["a snapshot's level vectors hold at least its effective levels; consecutive snapshots of one instrument use "
                       "one converter; the average price of a book with bids only is left open"])
def c15(ctx):
    big = thorough(ctx)
    for c in (["quick", "depth", "seq", "big"] if big else ["quick", "depth"]):
        run_mc(ctx, "MCOFI", "MCOFI_%s.cfg" % c, replay=("vte", "ofi"), min_tests=5000)
    parallel([lambda j=j: run_trace(ctx, "TraceOFI", "TraceOFI.cfg", ["vte", "ofi", "record", ctx.seed * 1000 + j, 60, 60],
                                    name="ofi-%d" % j, min_events=2000) for j in range(16 if big else 3)])


# ------------------------------------------------------------------ dates, calendars, schedules
def ql_traces(ctx, comp, module, runs, length, k, big=8, min_events=1000, env=None):
    k = k * big if thorough(ctx) else k
    parallel([lambda j=j: run_trace(ctx, module, module + ".cfg", ["vql", comp, "record", ctx.seed * 1000 + j, runs, length],
                                    name="%s-%d" % (comp, j), min_events=min_events, env=env) for j in range(k)])


def ql_mc(ctx, module, comp, min_tests, cfg=None):
    cfg = cfg or (module + "_%s.cfg" % ("big" if thorough(ctx) else "quick"))
    run_mc(ctx, module, cfg, replay=("vql", comp), min_tests=min_tests)


DATE_ASSUME = ["calendar years 1951 to 2199 (Korea: to 2050, the range of its lunar tables)", "no sub-second parts"]


@prop("C16", ["vql"], DATE_ASSUME + ["amounts are sixteenths of the reference spot, so that the deduction of a price is known to a few parts per million"])
def c16(ctx):
    ql_mc(ctx, "MCMarket", "market", 10000)
    ql_traces(ctx, "market", "TraceMarket", 60, 30, 4)


@prop("C17", ["vql"], ["values are 32-bit floats: equal within a few parts per million", "windows stand clear of the pillars they do not lie on",
                       "a constant volatility has one pillar and moves as a whole"])
def c17(ctx):
    ql_mc(ctx, "MCVol", "vol", 1000)
    ql_mc(ctx, "MCCurve", "curve", 1000)
    ql_mc(ctx, "MCMarket", "market", 10000)
    if thorough(ctx):
        ql_mc(ctx, "MCCurve", "curve", 1000, "MCCurve_deep.cfg")
        ql_mc(ctx, "MCVol", "vol", 1000, "MCVol_deep.cfg")
    ql_traces(ctx, "curve", "TraceCurve", 60, 30, 4)


ENGINE_ASSUME = ["values agree up to the rounding of 32-bit floats divided by the bump", "names of instruments are distinct"]


@prop("C18", ["vql"], ENGINE_ASSUME)
def c18(ctx):
    run_mc(ctx, "MCEngineConf", "MCEngineConf.cfg", replay=("vql", "engine"), min_tests=1000)
    engine(ctx)


@prop("C19", ["vql"], ENGINE_ASSUME)
def c19(ctx):
    engine(ctx)


def engine(ctx):
    ql_mc(ctx, "MCEngine", "engine", 400)
    if thorough(ctx):
        ql_mc(ctx, "MCEngine", "engine", 10000, "MCEngine_deep.cfg")


@prop("C20", ["vql"], DATE_ASSUME + ["effective date and maturity carry the same time of day and offset"])
def c20(ctx):
    ql_mc(ctx, "MCSched", "sched", 1000)
    ql_traces(ctx, "sched", "TraceSched", 60, 30, 3)


@prop("C21", ["vql"], DATE_ASSUME)
def c21(ctx):
    ql_mc(ctx, "MCHolCal", "holcal", 1000)
    ql_traces(ctx, "holcal", "TraceHolCal", 90, 30, 3)


@prop("C22", ["vql"], DATE_ASSUME)
def c22(ctx):
    ql_mc(ctx, "MCHolCal", "holcal", 1000)
    ql_traces(ctx, "holcal", "TraceHolCal", 90, 30, 3)
    years = [(1951, 1970), (1971, 1990), (1991, 2010), (2011, 2030), (2031, 2050), (2051, 2100), (2101, 2150), (2151, 2199)]
    parallel([lambda y=y: run_trace(ctx, "TraceHolCal", "TraceHolCal.cfg", ["vql", "months", "record", y[0], y[1]],
                                    name="months-%d" % y[0], min_events=1000) for y in years])


@prop("C23", ["vql"], DATE_ASSUME + ["results are 32-bit floats: equal within a few parts per million of a year"])
def c23(ctx):
    ql_mc(ctx, "MCDayCount", "daycount", 1000)
    ql_traces(ctx, "daycount", "TraceDayCount", 90, 30, 3)


@prop("C24", ["vql"], DATE_ASSUME)
def c24(ctx):
    ql_mc(ctx, "MCTenor", "tenor", 1000)
    ql_traces(ctx, "tenor", "TraceTenor", 90, 30, 3)


# ------------------------------------------------------------------ grids
@prop("C25", ["vql"], ["grids are sorted, without repeated values, and not empty"])
def c25(ctx):
    ql_mc(ctx, "MCGrid", "grid", 1000)
    ql_mc(ctx, "MCSurface", "grid", 1000)
    ql_traces(ctx, "grid", "TraceGrid", 90, 30, 3)


@prop("C26", ["vql"], ["grids are sorted, without repeated values, and not empty"])
def c26(ctx):
    ql_mc(ctx, "MCPut", "grid", 1000)
    ql_traces(ctx, "grid", "TraceGrid", 90, 30, 3)


# ------------------------------------------------------------------ cash flows
CASH_ASSUME = ["all times of one instrument are in one offset", "amounts are 32-bit floats: equal within 4 parts per million"]


@prop("C27", ["vql"], CASH_ASSUME)
def c27(ctx):
    ql_mc(ctx, "MCSwapKind", "cash", 500, "MCSwapKind.cfg")
    ql_mc(ctx, "MCCash", "cash", 1000, "MCCash_%s.cfg" % ("swapsbig" if thorough(ctx) else "swaps"))
    ql_traces(ctx, "swaps", "TraceCash", 14, 5, 3, min_events=50)


@prop("C28", ["vql"], CASH_ASSUME)
def c28(ctx):
    ql_mc(ctx, "MCCash", "cash", 1000, "MCCash_%s.cfg" % ("bondsbig" if thorough(ctx) else "bonds"))
    ql_traces(ctx, "bonds", "TraceCash", 30, 5, 3, min_events=100)


@prop("C29", ["vql"], CASH_ASSUME)
def c29(ctx):
    ql_mc(ctx, "MCCash", "cash", 500, "MCCash_%s.cfg" % ("couponsbig" if thorough(ctx) else "coupons"))
    ql_traces(ctx, "coupons", "TraceCash", 14, 5, 4, min_events=50)


@prop("C30", ["vql"], ["no curve is named like the placeholder", "bond futures have no public constructor and are left out"])
def c30(ctx):
    ql_mc(ctx, "MCMatch", "match", 10000)
    if thorough(ctx):
        ql_mc(ctx, "MCMatch", "match", 10000, "MCMatch_miss.cfg")
    ql_traces(ctx, "match", "TraceMatch", 300, 8, 3)


@prop("C31", ["vql"], ["instruments are priced before they expire; an at-the-money option is not priced at its very expiry (zero over zero)",
                       "the yield solver stops within a tenth of a percent of face", "values are 32-bit floats"])
def c31(ctx):
    deep = thorough(ctx)
    ql_mc(ctx, "MCPricing", "price", 1000, "MCPricing_%s.cfg" % ("optsbig" if deep else "opts"))
    ql_mc(ctx, "MCPricing", "price", 500, "MCPricing_%s.cfg" % ("futsbig" if deep else "futs"))
    ql_mc(ctx, "MCPricing", "price", 4000, "MCPricing_%s.cfg" % ("krxbig" if deep else "krx"))
    if deep:
        ql_mc(ctx, "MCPricing", "price", 100, "MCPricing_krxdaily.cfg")


# ------------------------------------------------------------------ storage, results, series
STORED = {"V_STORED": "1"}


@prop("C32", ["vql", "vte"], ["objects whose keys have no JSON form (a series of daily values with data, a matching table with bonds) are never written",
                              "observers, and the expected flows of a result, are not part of what is written",
                              "64-bit floats are read back up to their last bit"])
def c32(ctx):
    deep = thorough(ctx)
    ql_mc(ctx, "MCStore", "store", 10000)
    # the behaviours of the other parts, run on objects that were written and read back
    mcs = [("MCInstId", "MCInstId_quick.cfg", "vte", "instid", 1000), ("MCDayRoll", "MCDayRoll_quick.cfg", "vte", "dayroll", 1000),
           ("MCOrderBook", "MCOrderBook_quick.cfg", "vte", "book", 10000), ("MCKrx", "MCKrx_quick.cfg", "vte", "krx", 1000),
           ("MCEWM", "MCEWM_quick.cfg", "vte", "ewm", 1000), ("MCSched", "MCSched_quick.cfg", "vql", "sched", 1000),
           ("MCHolCal", "MCHolCal_quick.cfg", "vql", "holcal", 1000), ("MCMarket", "MCMarket_quick.cfg", "vql", "market", 10000),
           ("MCCash", "MCCash_bonds.cfg", "vql", "cash", 1000), ("MCCash", "MCCash_swaps.cfg", "vql", "cash", 1000),
           ("MCMatch", "MCMatch_quick.cfg", "vql", "match", 10000), ("MCPricing", "MCPricing_opts.cfg", "vql", "price", 1000),
           ("MCPricing", "MCPricing_futs.cfg", "vql", "price", 500), ("MCEngineConf", "MCEngineConf.cfg", "vql", "engine", 1000)]
    if deep:
        mcs += [("MCEngine", "MCEngine_big.cfg", "vql", "engine", 400), ("MCCash", "MCCash_coupons.cfg", "vql", "cash", 500),
                ("MCPricing", "MCPricing_krx.cfg", "vql", "price", 1000), ("MCCurve", "MCCurve_quick.cfg", "vql", "curve", 1000),
                ("MCTenor", "MCTenor_quick.cfg", "vql", "tenor", 1000), ("MCVol", "MCVol_quick.cfg", "vql", "vol", 1000)]
    parallel([lambda m=m: run_mc(ctx, m[0], m[1], replay=(m[2], m[3]), min_tests=m[4], env=STORED, workers=2, mem="3g") for m in mcs], n=5)
    ql_traces(ctx, "market", "TraceMarket", 30, 30, 2, min_events=500, env=STORED)
    ql_traces(ctx, "match", "TraceMatch", 100, 8, 1, min_events=500, env=STORED)


@prop("C33", ["vql"], ["amounts are small integers, so that every product is exact"])
def c33(ctx):
    ql_mc(ctx, "MCSheet", "sheet", 10000)


@prop("C34", ["vql"], ["moments are multiples of a second or one nanosecond after"])
def c34(ctx):
    ql_mc(ctx, "MCSeries", "series", 5000)


# ------------------------------------------------------------------ linear algebra, texts, parts, instruments' questions
@prop("C35", ["vql"], ["entries are small multiples of powers of two; equal within a few units in the last place of the sums"])
def c35(ctx):
    ql_mc(ctx, "MCChol", "chol", 5000)
    ql_traces(ctx, "chol", "TraceChol", 20, 40, 2)


@prop("C36", ["vql"], ["figures exactly half way between two texts are left open"])
def c36(ctx):
    ql_mc(ctx, "MCNum", "text", 2000)
    ql_traces(ctx, "text", "TraceNum", 20, 400, 2)


@prop("C37", ["vql"], [])
def c37(ctx):
    ql_mc(ctx, "MCFit", "fit", 10000)
    run_mc(ctx, "MCEngineConf", "MCEngineConf.cfg", replay=("vql", "engine"), min_tests=1000)


@prop("C38", ["vql"], ["bond futures have no public constructor and are left out"])
def c38(ctx):
    ql_mc(ctx, "MCInstr", "instr", 500)
    run_mc(ctx, "MCInstr", "MCInstr_stored.cfg", replay=("vql", "instr"), min_tests=500, env=STORED)


# ------------------------------------------------------------------ the desk around a book, fields of messages
def te_mc(ctx, module, comp, min_tests, env=None):
    run_mc(ctx, module, module + "_%s.cfg" % ("big" if thorough(ctx) else "quick"), replay=("vte", comp), min_tests=min_tests, env=env)


@prop("C39", ["vte"], ["letters of up to 1024 bytes over the loopback network, few enough to wait in a socket's buffer",
                       "an instrument table with entries has no JSON form and is never written"])
def c39(ctx):
    te_mc(ctx, "MCDesk", "desk", 20000)


@prop("C40", ["vte"], ["fields consist of digits (a sign and a point where the layout has them) and lie in a larger buffer",
                       "the later of two stamps is asked for its distance to the earlier"])
def c40(ctx):
    te_mc(ctx, "MCNumField", "field", 20000)
    run_mc(ctx, "MCNumField", "MCNumField_stored.cfg", replay=("vte", "field"), min_tests=20000, env=STORED)
