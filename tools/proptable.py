BOOKF = [TE + "orderbook/mod.rs", TE + "orderbook/half_book.rs", TE + "orderbook/level.rs"]
BOOKS = [("levels", "price -> FIFO queue of (order id, remaining quantity)", TE + "orderbook/half_book.rs HalfBook.levels"),
         ("cache", "order id -> price of its level", TE + "orderbook/half_book.rs HalfBook.cache"),
         ("best_price", "cached best price of a side", TE + "orderbook/half_book.rs HalfBook.best_price")]
BOOKT = "TLA+ order-book specification: TLC transition cover replayed into the real book + TLC validation of recorded random histories"
BOOKN = ("Exhaustive over the small-constant model (3 prices, 2-3 quantities, 3-4 live orders), every transition replayed into the code under "
         "three price/quantity/id scales; beyond that, sampled long histories with up to 12 prices. Trusts TLC and the projection in harness/te/src/book.rs.")

prop("C01", "Book quantities, best prices and lookups always agree with the resting orders",
     "After any sequence of order-book operations, every price level's quantity and order count, each side's total quantity, its best price and the depth listing equal what the live orders on that side add up to, and no empty level remains. An order can be looked up by id, with its current side, price and remaining quantity, exactly while it is resting.",
     ["histories"], "every sequence of adds, limit and market orders, cancels, amendments (also to zero), removals and depth updates with unique live ids and positive quantities",
     "unit tests replay two or three fixed scripts and compare a few totals; redundant state (level totals, side totals, best price, id cache) can drift apart only after particular sequences",
     BOOKF, [("level and side totals updated by every operation", TE + "orderbook/half_book.rs"), ("best price reinitialised when a level disappears", TE + "orderbook/half_book.rs reinitialize_best_price")],
     BOOKS, ["OrderBook.asks/bids (pub)", "ask_level_snapshot/bid_level_snapshot", "HalfBook::get_order/get_price/aggregate_quantity*"], BOOKT, BOOKN)
prop("C02", "Matching follows price-time priority and conserves quantity",
     "An incoming market or marketable limit order executes against the best opposite price first and, within a price, against the oldest resting order first; an order is touched only when everything ahead of it is completely filled. The reported executions are exactly the quantities taken from the resting orders, price by price from best to worst, and executed plus remaining quantity equals the incoming quantity.",
     ["histories", "inputs"], "every reachable book and every incoming order of either side, including orders that sweep several levels or the whole side",
     "tests cover a handful of fixed sweeps on the ask side; the bid side and partial fills inside multi-order levels are never compared order by order",
     BOOKF, [("best-first iteration over levels", TE + "orderbook/half_book.rs *_trade_market_order, *_trade_limit_order"), ("front-of-queue consumption", TE + "orderbook/level.rs Level::trade")],
     BOOKS, ["process_market_order/process_limit_order results", "level queues after the call"], BOOKT, BOOKN)
prop("C03", "Limit orders never trade through their limit and never leave the book crossed",
     "A limit order processed by the book never executes at a price worse than its limit, executes against everything available at its limit or better, and only its unfilled remainder rests, at its limit price, behind the orders already there. Consequently a book built only from processed limit orders, market orders, cancels and amendments never has its best bid at or above its best ask.",
     ["histories", "inputs"], "every history of processed limit/market orders, cancels, amendments and removals",
     "no existing test checks the crossed-book condition or rests a remainder behind existing orders on the other side",
     BOOKF, [("cross test against the opposite best price before resting", TE + "orderbook/mod.rs process_limit_order")],
     BOOKS, ["process_limit_order result", "best prices"], BOOKT, BOOKN)
prop("C04", "Cancels, amendments and removals affect exactly the order they name",
     "Cancelling removes exactly the named order; amending the quantity at the same price changes only that order's quantity and keeps its place in the queue; amending the price is the same as cancelling and sending a new limit order (so it may trade and goes to the back of the queue); a removal without id takes quantity from the youngest orders at the price and reports what it could not remove. Operations naming an unknown order change nothing and report that nothing was found.",
     ["histories"], "every history and every order id, live, dead or never used, including amendments to zero quantity",
     "existing tests amend only fresh books and never check the position in the queue or other orders' state afterwards",
     BOOKF, [("modify routes by price equality", TE + "orderbook/mod.rs modify_order"), ("removal from the back of the queue", TE + "orderbook/half_book.rs remove_order")],
     BOOKS, ["cancel_order/modify_order/change_quantity/remove_order results", "level queues"], BOOKT, BOOKN)
prop("C05", "A depth snapshot replaces the book's levels exactly",
     "After applying a full-depth quote or trade-quote snapshot of the book's instrument, both sides show exactly the snapshot's non-empty levels with the snapshot's quantities, with correct best prices and totals, whatever the book (itself fed by snapshots, executions or removals) contained before. A snapshot of another instrument is refused and changes nothing.",
     ["histories", "inputs"], "every sequence of well-formed snapshots (distinct prices, any order, possibly empty slots or sides) interleaved with executions and removals",
     "the only test applies one snapshot to an empty book and prints it",
     BOOKF, [("levels missing from the snapshot are removed, others updated in place", TE + "orderbook/half_book.rs update_l2_snapshot"), ("instrument check", TE + "orderbook/mod.rs check_id")],
     BOOKS, ["ask_level_snapshot/bid_level_snapshot", "best_price", "get_total_quantity"], BOOKT, BOOKN)
prop("C06", "Depth changes decompose into orders that reproduce them",
     "Deriving orders from a new depth yields, per price, one addition or one removal of exactly the changed quantity and nothing for unchanged prices; the book updated on the way shows the new depth exactly, and applying the derived orders to a copy of the old book gives an equal book. New orders go to the back and removed quantity comes from the back of each queue, so older orders keep their place.",
     ["histories", "inputs"], "every reachable book (also with several orders per level) and every new depth of both sides",
     "the integration test checks one scripted series whose levels mostly change one at a time",
     BOOKF, [("per-price difference against the current level", TE + "orderbook/half_book.rs decomposed_orders_with_update")],
     BOOKS, ["returned derived orders", "levels before/after", "eq_level"], BOOKT, BOOKN)

# ---------------------------------------------------------------- concurrency and infrastructure
prop("C07", "The shared data slot is never read while being written, and no update is lost",
     "A producer obtains write access to the shared slot only when every registered worker has finished with the previous update, and a worker obtains read access only between the publication of an update and its own completion of it. Hence, in every interleaving, each registered worker sees every published update exactly once and unmodified while it reads, and unregistered or duplicate worker ids never gain access.",
     ["schedules", "configurations"], "every interleaving of one producer and up to sixteen registered workers, every choice of worker ids and every order of completion",
     "the single test walks one fixed sequence on one thread (and does not pass today); interleavings are never explored",
     [TE + "spinqueue.rs"], [("bit per worker, producer waits for zero", TE + "spinqueue.rs get_mut/ready_to_update"), ("publish sets every registered bit", TE + "spinqueue.rs notify_all_workers"), ("atomic clear of one bit", TE + "spinqueue.rs work_done")],
     [("worker_status", "one bit per worker that still has to consume the update", TE + "spinqueue.rs")],
     ["get_mut/get/ready_to_update/ready_to_work results"],
     "TLA+ specification of producer/worker interleavings; exhaustive schedules replayed at call granularity; multi-threaded recordings validated by TLC",
     "All interleavings of the public calls (each one atomic access) for up to 3 workers on the model and the code; real threads sampled. Memory-order weakening invisible on x86 is out of reach.")
prop("C08", "Counters hand out every number once, in order, and stop at their bound",
     "However many threads draw from a counter, the numbers drawn are exactly consecutive from its start with no duplicate and no gap, and each thread sees increasing numbers. A bounded counter refuses every draw past its inclusive end, and keeps refusing.",
     ["schedules", "histories"], "every interleaving of concurrent draws and every start/end pair, both widths, bounded and unbounded",
     "tests draw from many threads but only look at the final value; nobody checks uniqueness, gaps or the bound under contention",
     [TE + "utils/counter.rs"], [("atomic fetch-and-add", TE + "utils/counter.rs next")], None, ["next() results"],
     "TLA+ counter specification with call/return events; recorded multi-threaded histories validated for linearizability by TLC; TLC histories replayed",
     "Exhaustive on the model for 3 threads; real threads sampled. A 64-bit wrap-around is not reached.")
prop("C09", "Instrument identity is exactly symbol and venue, everywhere",
     "Two instrument ids compare equal exactly when their symbol and venue are equal (and then hash equally), no matter in which order, on which thread, or by which route (construction or deserialisation) they were made. An id keeps returning the symbol, venue and text it was made from, and serialising then deserialising gives the same id.",
     ["schedules", "histories", "inputs"], "every history of constructions and deserialisations from concurrent threads over ISIN and ticker symbols and all venues",
     "tests build three ids on one thread; aliasing between ISIN and ticker text, venues and concurrent first construction is not explored",
     [TE + "types/id/mod.rs", TE + "types/id/isin_code.rs", TE + "types/id/ticker.rs"], [("interning under a lock", TE + "types/id/mod.rs InstId::new and Deserialize"), ("pointer equality", TE + "types/id/mod.rs PartialEq")],
     [("ID_CACHE", "symbol+venue -> interned pointer", TE + "types/id/mod.rs")], ["==, Hash, get_id, symbol_str, venue, serde_json"],
     "TLA+ interning specification; TLC-enumerated construction histories replayed; multi-threaded recordings validated by TLC",
     "Exhaustive for small symbol/venue universes; larger and concurrent runs sampled.")
prop("C10", "Every accepted log message reaches the file exactly once, in order",
     "Each message logged at or above the configured threshold before shutdown appears exactly once and complete in the log file, in the order its thread logged it, and nothing below the threshold appears. After shutdown returns, the file contains all of them, whatever the number of threads, the flushing calls in between, or when the file was attached.",
     ["schedules", "histories"], "every interleaving of logging threads, flushing messages, level changes, late file attachment and shutdown",
     "the unit test logs a few lines and never reads the file",
     [TE + "logger.rs"], [("single writer thread draining a channel", TE + "logger.rs LOG_SENDER"), ("close drains the queue and flushes", TE + "logger.rs LogMessage::Close, Logger::finalize"), ("level test in the macros", TE + "logger.rs log_fn_json")],
     [("message_queue", "messages received but not yet written", TE + "logger.rs")], ["contents of the log file after the guard is dropped"],
     "TLA+ logger specification (channel, writer, buffer); recorded logging sessions (one process each) validated by TLC",
     "Model exhaustive for 2 threads; real sessions sampled in child processes writing to a scratch directory.")
prop("C11", "Exchange times of day become strictly dated timestamps across midnight",
     "A sequence of exchange times of day is turned into UTC timestamps whose time of day is the given one shifted by the exchange offset; the date advances, one day at a time, exactly while the result would lie fifteen hours or more behind the previous message, and otherwise stays, so moderately late messages keep the date. Rendering a timestamp as local date and time text is exact for every instant and whole-hour offset.",
     ["histories", "inputs"], "every sequence of message times over several days including out-of-order messages around midnight; every instant from 1970 (one day in) to 2200 with offsets -12..+14",
     "tests convert isolated times on one date and never render dates across year ends or leap days",
     [TE + "types/timestamp.rs", TE + "utils/numeric_converter.rs", TE + "utils/timer.rs"], [("fifteen-hour rule", TE + "utils/numeric_converter.rs TimeStampConverter::parse_hhmmssuuuuuu"), ("hand-written civil calendar", TE + "utils/timer.rs days_to_date")],
     [("prev_timestamp", "last timestamp of the feed", TE + "types/timestamp.rs DateUnixNanoGenerator")], ["to_timestamp result", "convert_unix_nano_to_date_and_time"],
     "TLA+ day-roll specification; TLC histories replayed and recorded random feeds validated by TLC; civil-calendar transcription walked day by day",
     "Exhaustive for a coarse clock over a few days; every calendar day 1970-2200 for rendering; finer times sampled.")
prop("C12", "Exchange messages decode field by field as laid out; malformed ones are refused",
     "A well-formed derivative or stock quote, trade or trade-quote message decodes to exactly the instrument, side, level prices, quantities, order counts, trade and timestamp found at the positions of its published layout, for every level depth and every value of the fields. A message of the wrong length or without the end marker is refused, and decoding never panics on it.",
     ["inputs"], "every combination of field values (signs, leading zeros, full-width numbers) for each supported message type, and every length or end-marker corruption",
     "each parser has one or two literal sample messages; most fields, levels and digit positions are never varied",
     [TE + "data/krx/derivative_quote.rs", TE + "data/krx/derivative_trade.rs", TE + "data/krx/stock_quote.rs", TE + "data/krx/unroll_macro.rs", TE + "utils/numeric_converter.rs"],
     [("per-field slices and converters", TE + "data/krx/krx_converter.rs"), ("length and end-keyword test", TE + "data/krx/derivative_trade.rs")], None,
     ["to_quote_snapshot / to_trade_quote_snapshot / to_trade results"],
     "TLA+ layout specification generates messages and their meaning (TLC simulation); every generated message is decoded by the real parsers",
     "Field values sampled by TLC simulation per message type; corruptions enumerated.")
prop("C13", "Decoding into a reused buffer equals decoding afresh",
     "Decoding a message into a buffer that already holds the result of any earlier message gives exactly the result of decoding it into fresh storage: no level, count or trade of an earlier message survives. A refused message leaves an error and never a half-decoded result reported as success.",
     ["histories"], "every sequence of messages (valid and corrupted, different instruments, sides and depths) decoded through one buffer",
     "buffered decoding is tested once on a fresh buffer",
     [TE + "data/krx/derivative_quote.rs", TE + "data/krx/derivative_trade.rs", TE + "data/krx/unroll_macro.rs"], [("buffered parsers overwrite every field", TE + "data/krx/unroll_macro.rs")],
     [("buffer", "caller-owned snapshot reused between messages", TE + "data/quote.rs, trade_quote.rs")], ["contents of the buffer after each call"],
     "TLA+ buffer specification; TLC message histories replayed through one buffer and compared with the specification's contents",
     "Histories of up to a few dozen messages, sampled by TLC.")
prop("C14", "Streaming averages weight every observation by its age",
     "After any sequence of timestamped observations, the exponentially weighted mean and sum equal the closed form over the whole history, each new observation decaying what came before by the time elapsed since the previous one. The state depends only on the observations and their times, not on how updates were grouped.",
     ["histories"], "every sequence of observations with arbitrary non-decreasing times, any decay constant",
     "tests apply one or two updates, so an elapsed time measured from the wrong instant goes unnoticed",
     [TE + "feature/weight.rs", TE + "feature/weighted_valuation.rs"], [("decay by elapsed time, then add", TE + "feature/weighted_valuation.rs update")],
     [("timestamp", "time of the last observation", TE + "feature/weighted_valuation.rs")], ["value after each update"],
     "TLA+ closed-form specification over dyadic decays; TLC histories replayed and recorded histories validated by TLC",
     "Exact dyadic arithmetic on the model; comparison within a relative tolerance.")
prop("C15", "Order-flow imbalance depends only on consecutive quote changes",
     "The order-flow imbalance over two consecutive snapshots follows the published rule on each side (price improved: full new quantity; unchanged: quantity difference; worsened: minus the old quantity, with ask and bid mirrored), at the requested level; the total is the bid part minus the ask part, and the logarithmic variant replaces quantities by their logarithms and never takes that of zero. Level zero and levels beyond the data are refused, and the feature after an update holds the latest snapshot's levels and times.",
     ["histories", "inputs"], "every pair and sequence of snapshots with up to ten levels, every level and converter",
     "tests check a few literal snapshots",
     [TE + "feature/tick.rs", TE + "feature/ofi.rs"], [("case split on price movement", TE + "feature/tick.rs")], None, ["OFI values", "errors for bad depth"],
     "TLA+ OFI specification; TLC-generated snapshot sequences replayed into the real feature",
     "Small price/quantity alphabets exhaustive for depth 1-2, sampled up to depth 10; logarithms compared within 1e-9.")
# ---------------------------------------------------------------- quantlib
DIVF = [QL + "evaluation_date.rs", QL + "parameters/market_price.rs", QL + "parameters/discrete_ratio_dividend.rs"]
prop("C16", "Moving the evaluation date deducts each dividend once and is reversible",
     "When the evaluation date moves, every attached price is reduced by exactly the dividends whose ex-date lies after the old date and not after the new one, and raised by the same when it moves back, so the price depends only on where the date ends, not on the path taken. Every attached price and dividend observer has seen the new date when the move returns, and the dividend curve answers as of that date.",
     ["histories"], "every sequence of forward and backward moves (by date or by tenor) over any set of ex-dates, for several prices and dividends attached to one date",
     "the integration test makes a few fixed moves past one or two ex-dates",
     DIVF, [("observer notification in attach order", QL + "evaluation_date.rs set_date"), ("deduct and roll back by date window", QL + "parameters/market_price.rs update_evaluation_date")],
     [("value, market_datetime", "price and the date it is as of", QL + "parameters/market_price.rs")], ["get_value, get_deduction_ratio after each move"],
     "TLA+ evaluation-date specification with power-of-two dividends; TLC move histories replayed; recorded random moves validated by TLC",
     "Exhaustive histories of three steps over four markets of two dividends and four prices; longer random histories sampled; values compared within f32 tolerance.")
prop("C17", "Scenario bumps are local, composable and undone by the opposite bump",
     "Bumping a zero curve, dividend or volatility surface over a window changes exactly the pillars inside the window (start exclusive, end inclusive; dividends by day) by exactly the bump, in every value later read from it, and applying the opposite bump restores every value. Parallel bumps shift everything equally, bumps in any order give the same state, and a window whose end lies before its start is refused and changes nothing on curves and dividends. A constant volatility has a single pillar and shifts as a whole. A bump outlives moves of the evaluation date, and a dividend already paid stays paid.",
     ["histories"], "every sequence of parallel, windowed and opposite bumps on zero curves, dividends and volatility surfaces",
     "tests bump once and look at one or two values; restoration and composition are not checked",
     [QL + "parameters/zero_curve.rs", QL + "parameters/discrete_ratio_dividend.rs", QL + "parameters/volatilities/local_volatility_surface.rs", QL + "parameters/volatilities/constant_volatility.rs", QL + "data/vector_data.rs"],
     [("bump_time_interval", QL + "parameters/zero_curve.rs"), ("bump_date_interval", QL + "parameters/discrete_ratio_dividend.rs")],
     None, ["discount factors, deduction ratios, volatilities after each bump"],
     "TLA+ bump-algebra specification; TLC bump histories replayed into the real curves and compared pillar by pillar",
     "Exhaustive windows and short bump sequences over all 29 curve pillars and two vega grids; longer random histories for curves; comparison within f32 tolerance.")
prop("C18", "Portfolio results do not depend on grouping, order or parallelism",
     "Calculating a portfolio gives each instrument exactly one result, equal (up to float rounding) to calculating that instrument alone, whatever the order of the portfolio, the grouping into categories, or the scheduling of the groups; only the theta horizon depends on the group's shortest maturity. The first category that an instrument's type, currency and underlyings fit takes it. An instrument that fits no category, or whose market data is missing, is an error and never silently dropped, and a configuration contradicting itself is refused.",
     ["configurations", "schedules", "programs"], "every portfolio over a mixed set of instruments, every grouping, every order, every missing datum",
     "the engine tests price one fixed portfolio with one grouping and print results",
     [QL + "pricing_engines/engine_generator.rs", QL + "pricing_engines/engine.rs", QL + "pricing_engines/pricer_factory.rs", QL + "pricing_engines/calculation_configuration.rs"],
     [("first matching category takes the instrument", QL + "pricing_engines/engine_generator.rs distribute_instruments"), ("parallel map over groups, merge by id", QL + "pricing_engines/engine_generator.rs calculate")],
     None, ["EngineGenerator::get_calculation_results"],
     "TLA+ engine specification: distribution, refusals and, per instrument, every result as an expression over repricings; TLC enumerates portfolios, groupings, configurations and missing data; real generator runs replayed against expressions evaluated instrument by instrument",
     "Pool of 29 instruments of 14 types: each alone, pairs, the whole pool, ten groupings, every single missing datum, thousands of drawn combinations; rates data fixed; values within rounding noise scaled by the bump.")
prop("C19", "Sensitivities are repricings under the stated bump; the market is left as found",
     "Each requested sensitivity equals the documented combination of values repriced under the documented bump of that factor alone (spot, volatility or window of it, curve or window of it, dividends or window of them, evaluation date), and after a calculation every quote, curve, volatility, dividend and date is as before (up to float rounding), so that calculating again gives the same. A sensitivity is reported under a factor exactly when it was requested and the instrument depends on that factor.",
     ["configurations", "histories"], "every set of requested calculations, bump sizes and grids over portfolios of instruments with overlapping and disjoint dependencies",
     "tests request everything at once on one portfolio and check values loosely; leakage of one factor's bump or result into another is not observable there",
     [QL + "pricing_engines/engine.rs", QL + "pricing_engines/calculation_result.rs", QL + "pricing_engines/calculation_configuration.rs"],
     [("bump, price, restore per factor", QL + "pricing_engines/engine.rs set_*"), ("dependency sets per factor", QL + "pricing_engines/engine.rs instruments_using_*")],
     None, ["CalculationResult maps", "get_npvs and a second calculate after calculate"],
     "TLA+ engine specification giving each sensitivity as an integer combination of values under named bumps; TLC enumerates flags, sizes, grids and dependencies; real engines replayed and compared with independent repricing of each instrument in a fresh market",
     "Each flag alone, all flags, drawn subsets; three sets of bump sizes and grids; both stickyness types; 25 priceable instruments. Values are those of the crate's pricers (see C31 for the formulas).")
prop("C20", "Coupon schedules tile the life of the instrument",
     "A generated schedule consists of consecutive periods: the first starts at the effective date, each begins where the previous ends, and the last ends and pays exactly at maturity. Inner dates are whole tenor steps counted from the effective date (forward) or from maturity (backward), so that the odd period lies last or first, moved to an open day by the convention. Fixings lie the given days before the start, moved back to an open day, and payments the given days after the end, moved by the convention. An instrument without life has no period, and a negative lag or an empty period is an error.",
     ["inputs"], "every effective date, maturity, tenor, direction, calendar, convention and fixing/payment lag",
     "two fixed schedules are checked",
     [QL + "instruments/schedule.rs", QL + "utils/string_arithmetic.rs"], [("build_schedule", QL + "instruments/schedule.rs")], None, ["Schedule iteration"],
     "TLA+ schedule specification on a day-number calendar; TLC-generated cases replayed; recorded random schedules validated by TLC",
     "TLC: chosen effective dates around month ends and holidays, lives up to some years, every frequency; random dates 2010-2035 in traces.")
prop("C21", "Business-day adjustment lands on the right open day",
     "Adjusting a date by a convention yields an open day: the next (following), the previous (preceding), or the next unless it leaves the month and then the previous (modified following, and mirrored for modified preceding); an open day and the unadjusted convention are returned unchanged; the time of day is kept. A joint calendar is closed exactly when one of its members is closed, each member judging the day of its own time zone.",
     ["inputs", "configurations"], "every instant, every calendar and joint calendar, every convention, after any added or removed holidays",
     "tests adjust a few dates on one calendar",
     [QL + "time/calendar_trait.rs", QL + "time/jointcalendar.rs", QL + "time/conventions.rs"], [("search for the next/previous open day", QL + "time/calendar_trait.rs adjust"), ("any-member rule", QL + "time/jointcalendar.rs")],
     None, ["adjust, is_business_day, next_business_day, previous_business_day"],
     "TLA+ calendar specification; TLC-generated adjustments replayed into the real calendars; recorded random adjustments validated by TLC",
     "Exhaustive windows around month ends, year ends and holiday runs for lists of up to two calendars; other dates sampled.")
prop("C22", "Holiday calendars follow their published rules",
     "A United States calendar closes exactly on weekends and the holidays its rules give for that year (with the weekend observance and special closings of each market), and a Korean calendar exactly on weekends, the fixed holidays (Labour Day among them), the lunar holidays, the listed substitute days of 2023 and 2024 and, for the exchange, the last weekday of the year. A day added by hand is closed and a removed one is open unless it is a weekend; removal wins over addition.",
     ["inputs", "histories"], "every day of 1951-2199 (Korea: to 2050) for every market, and every sequence of added and removed days",
     "tests check a few dozen dates",
     [QL + "time/calendars/unitedstates.rs", QL + "time/calendars/southkorea.rs", QL + "time/calendars/nullcalendar.rs", QL + "time/holiday.rs"], [("rule functions and tables", QL + "time/calendars/*.rs")],
     None, ["is_holiday for every day"],
     "TLA+ transcription of the published rules; TLC checks the real calendar's recorded answer for every day",
     "United States rules, Easter and Korean solar rules are computed in the specification; Korean lunar dates come from a table in the specification made from an independent lunar calendar. Quick: 1997-2034; thorough: 1951-2199.")
prop("C23", "Day counts follow their conventions",
     "The year fraction between two instants follows its convention: whole days between them over the basis for the actual conventions, the share of each calendar year for actual/actual, and the 30/360 variants with their month-end rules. It is zero over an empty interval, additive over adjacent intervals, and an error when the end lies before the start. The exact time between two instants counts seconds, is antisymmetric and additive.",
     ["inputs"], "every pair of instants and every convention, including month ends, leap days and both orders",
     "tests evaluate a few pairs; month-end pairs are missing",
     [QL + "time/calendar_trait.rs", QL + "time/conventions.rs"], [("year_fraction", QL + "time/calendar_trait.rs")], None, ["year_fraction"],
     "TLA+ day-count specification on day numbers; TLC-generated pairs replayed; recorded evaluations validated by TLC",
     "All month-end/leap-day pairs of a few years exhaustively, other pairs sampled; f32 tolerance.")
prop("C24", "Tenor arithmetic follows the calendar",
     "Adding a tenor of years, months, weeks and days (and hours, minutes, seconds) moves the calendar date by exactly that many, month ends clamped to the target month's last day and the time of day kept; subtracting a tenor moves back in the same way across any number of year ends. Moving by a composite tenor equals moving by its parts in the written order.",
     ["inputs"], "every date and every tenor string of up to three parts, up to 60 years",
     "tests use a few tenors; subtraction of more than a year of months is asserted wrongly in one of them",
     [QL + "utils/string_arithmetic.rs", QL + "evaluation_date.rs"], [("add_period/sub_period", QL + "utils/string_arithmetic.rs")], None, ["add_period, sub_period, add_period_date, sub_period_date"],
     "TLA+ tenor specification on civil dates; TLC-generated cases replayed and recorded cases validated by TLC",
     "Month-end classes times tenors up to 60 months exhaustively; others sampled. Known finding: sub_period_date over two year ends.")
prop("C25", "Looking up a pillar and interpolating respect the grid",
     "Index search returns the interval that contains the value for every sorted grid and clamps outside it, and the batch search agrees with the single one. Linear and bilinear interpolation pass through every pillar, the last one included, and are exact in between; stepwise interpolation holds the value of the last pillar not after the query. Outside the grid the result is the end value or the given extrapolation value if extrapolation was allowed, otherwise an error. Batch evaluation agrees with single evaluation.",
     ["inputs"], "every sorted grid with up to eight pillars and every query, on, between, before and after pillars, single and batch",
     "tests query a few interior points of one grid",
     [QL + "utils/find_index.rs", QL + "utils/find_index_ndarray.rs", QL + "math/interpolators/linear_interpolator.rs", QL + "math/interpolators/stepwise_interpolatior.rs", QL + "math/interpolators/bilinear_interpolator.rs"],
     [("binary search", QL + "utils/find_index.rs"), ("slopes per interval", QL + "math/interpolators/linear_interpolator.rs")], None, ["interpolate / vectorized_interpolate_for_sorted_* results"],
     "TLA+ grid specification over integers; TLC enumerates grids and queries; every case replayed",
     "All grids over 0..5 with up to 3 pillars (thorough: 0..7, 5 pillars), surfaces up to 3 by 3; larger sampled.")
prop("C26", "Distributing a value over dates conserves it",
     "Spreading an amount over a sorted grid of times gives all of it to the neighbouring pillars in inverse proportion to distance (or to the end pillar when outside), so the parts always add up to the whole and the weighted time is kept inside the grid.",
     ["inputs"], "every sorted grid and every list of amounts and times, on, between and outside pillars",
     "one literal example",
     [QL + "utils/distribute_value.rs"], [("two-neighbour split", QL + "utils/distribute_value.rs")], None, ["returned vector"],
     "TLA+ distribution specification in exact integers; TLC cases replayed",
     "Grids over 0..6 with up to 4 pillars (thorough: 0..7, 6 pillars); larger sampled.")
prop("C27", "A swap's cash flows do not depend on the day they are asked for",
     "The cash flows a swap reports for a pricing date are exactly its contractual flows due on or after that day (coupons of both legs, initial and final exchanges), each with the amount fixed by notional, rate and accrual; apart from coupons not yet fixed they do not depend on the day asked. Legs and exchanges decide what kind of swap it is, and inconsistent combinations are refused. The value is the sum of the flows after the day, each discounted on its leg's curve and converted, and the expected coupons count every flow of the same instant exactly once.",
     ["inputs", "histories"], "every swap type, schedule and pricing date from before the effective date to after maturity",
     "tests price swaps on one date before the effective date",
     [QL + "instruments/plain_swap.rs", QL + "pricing_engines/plain_swap_pricer.rs", QL + "pricing_engines/npv_result.rs"], [("get_fixed_cashflows/get_floating_cashflows", QL + "instruments/plain_swap.rs"), ("expected coupon aggregation", QL + "pricing_engines/npv_result.rs")],
     None, ["cashflow maps", "get_expected_coupon_amount", "npv, fx_exposure"],
     "TLA+ cash-flow specification; TLC walks the life of generated swaps and every answer is replayed; recorded flows of random swaps validated by TLC",
     "Swaps of up to two years over all pricing days of interest, all 512 swap-kind combinations; random swaps 2000-2033 in traces.")
prop("C28", "A bond's cash flows do not depend on the day they are asked for",
     "The cash flows a fixed, floating or stripped bond reports for a pricing date are exactly the coupons due on or after that day plus the redemption at maturity (none for a strip), with coupon amounts fixed by rate and accrual or given by the schedule, independent of the pricing date apart from coupons not yet fixed. The value is the sum of the flows after the day, discounted to it, and the expected coupons of the result are these flows.",
     ["inputs"], "every bond type, frequency and pricing date from issue to maturity",
     "tests look at one pricing date per bond",
     [QL + "instruments/bond.rs", QL + "instruments/schedule.rs"], [("get_coupon_cashflow", QL + "instruments/bond.rs")], None, ["get_cashflows", "npv, expected coupons"],
     "TLA+ cash-flow specification; TLC walks the life of generated bonds and every answer is replayed; recorded flows of random bonds validated by TLC",
     "Bonds of up to two years over all pricing days of interest; random bonds 2000-2033 in traces.")
prop("C29", "A floating coupon uses fixings for the past and forwards for the future",
     "A floating coupon uses the published fixing for every fixing before the pricing date and the curve's forward over the index tenor for later ones. A term coupon is one rate plus spread over the period; a running overnight coupon compounds every step of the period exactly once, each at the fixing of the open day the fixing lag before it, and one wholly in the future uses the average of its first and last forward. When a needed past fixing is missing the curve's rate from the evaluation date (term) or over one step from the pricing date (overnight) stands in, never a fixing of another day.",
     ["inputs"], "every coupon period, pricing date and fixing history, for term and overnight indices",
     "tests price one period with a full history",
     [QL + "parameters/rate_index.rs", QL + "data/daily_value_data.rs", QL + "parameters/past_price.rs"], [("get_coupon_amount", QL + "parameters/rate_index.rs")], None, ["get_coupon_amount result"],
     "TLA+ coupon specification giving each coupon as an expression over fixings and forwards; TLC-generated expressions evaluated and compared with the real coupon; recorded impulse responses (one fixing at 100%, all others zero) validated by TLC", "Seven index types over the life of bonds and swaps; random schedules, calendars and indices in traces.")
prop("C30", "Curve matching and portfolio selections follow the instruments",
     "Every instrument is discounted, projected, collateralised, converted and borrowed on exactly the curve its tables name for its issuer, type, rating and currency, its rate index, its underlyings or its leg currencies; what it does not need is the placeholder, and what is missing is the placeholder (bonds) or an error, never another instrument's curve. The curves of a portfolio are exactly those its instruments use, the instruments using a curve exactly those with it in some role, and selections by underlying, currency, type or maturity contain exactly the instruments that fit.",
     ["inputs", "configurations"], "every instrument type, every portfolio and every partially filled matching table",
     "tests look at three instruments under one filled table",
     [QL + "pricing_engines/match_parameter.rs", QL + "instrument.rs", QL + "instruments/cash.rs"], [("lookup by instrument attributes", QL + "pricing_engines/match_parameter.rs"), ("selections", QL + "instrument.rs Instruments")], None,
     ["get_*_curve_name", "instruments_using_curve, get_all_curve_names, instruments_with_*, get_all_*"],
     "TLA+ matching specification; TLC enumerates portfolios and tables with missing or shared entries, every answer replayed; recorded random portfolios validated by TLC",
     "Portfolios of up to two (thorough: three) of 25 instruments under three naming schemes with up to one (two) missing entries; random portfolios of eight.")
prop("C31", "Futures, options and bonds of a yield are worth what their formulas say",
     "A futures is worth the forward of its underlying (spot carried at collateral rate less borrowing cost and dividends), an FX futures the covered-parity forward, a European option the Black formula on that forward with the surface's volatility at its strike and expiry, a quanto option on the forward adjusted for the equity-FX covariance; calls and puts obey parity. A KRX bond is its remaining flows discounted at the yield by the exchange's convention, the standard coupon bond and the treasury-bond futures by theirs, and the yield found for a price gives that price back. Values follow market moves, date moves and undone moves with the same pricer.",
     ["inputs", "histories"], "every strike, expiry, volatility, correlation, dividend, yield, bond and pricing date, and every sequence of market moves between two pricings",
     "tests price one contract under one market",
     [QL + "pricing_engines/futures_pricer.rs", QL + "pricing_engines/fx_futures_pricer.rs", QL + "pricing_engines/krx_yield_pricer.rs", QL + "pricing_engines/ktbf_pricer.rs", QL + "pricing_engines/option_analytic_pricer.rs", QL + "parameters/quanto.rs"],
     [("forward, volatility, discount", "pricers under " + QL + "pricing_engines")], None, ["npv, find_bond_yield"],
     "TLA+ pricing specification: each value an expression tree whose identities (parity, par bond, zero yield) TLC checks exactly modulo a prime; TLC-generated trees evaluated over market readings and compared with the real pricers",
     "Options over 2-6 strikes, expiries, surfaces and correlations; bonds of up to two years over all pricing days of interest; market move lists of up to three steps; float tolerance.")

prop("C32", "What is written as JSON text reads back as the same object",
     "Everything the libraries write as JSON text - calendars with the days edited by hand, joint calendars, evaluation dates, currencies and pairs of currencies, market data, curves' and volatilities' data, schedules, every kind of instrument, matching tables, configurations, calculation results, instrument ids, orders, levels, trade histories, date generators, weights, interface decoders - reads back as an object that answers every question as the original did when it was written. Writing changes nothing, and the copy then lives its own life. Equal instrument ids stay one id.",
     ["inputs", "histories"], "every object of every type after every history of edits, and every question asked of the copy",
     "tests write and read back one default object of some types and compare a field",
     [QL + "currency.rs", QL + "instrument.rs", QL + "time/jointcalendar.rs", QL + "pricing_engines/calculation_result.rs", TE + "types/id/mod.rs"],
     [("serde implementations", QL + "currency.rs Currency, FxCode"), ("serde attributes", QL + "instruments, parameters, time, pricing_engines"), ("Deserialize for InstId", TE + "types/id/mod.rs")],
     None, ["every observation of the other properties, made on the copy"],
     "TLA+ storage specification over the calendar and result-sheet specifications: TLC enumerates histories of editing, writing and reading and every object is compared; the TLC behaviours of the other specifications are replayed with every object written and read back in between",
     "Up to four (thorough: five) operations on up to two (three) copies; the quick configurations of fourteen (twenty) other specifications; objects with keys that JSON has no form for are left out.")
prop("C33", "A result sheet keeps what was put in it and converts completely",
     "What is put on the result sheet of an instrument under a name and a code is what is read from it, and nothing else changes: the value is the value per unit times the instrument's unit, refused when there is none; the expected coupons of a day add up every flow of that day times its probability. Shown in another currency every amount of money is multiplied by the rate exactly once - value, theta, every sensitivity, structure and exposure - while the value per unit, the flows and the number of days stay; into the currency it is already shown in nothing changes.",
     ["histories"], "every history of figures put in, overwritten and converted",
     "tests set one figure and read it back",
     [QL + "pricing_engines/calculation_result.rs", QL + "pricing_engines/npv_result.rs", QL + "instruments/instrument_info.rs"],
     [("representation_currency_conversion", QL + "pricing_engines/calculation_result.rs"), ("set_single_*", QL + "pricing_engines/calculation_result.rs"), ("get_expected_coupon_amount", QL + "pricing_engines/npv_result.rs")],
     None, ["get_* of CalculationResult, NpvResult and InstrumentInfo"],
     "TLA+ result-sheet specification (conversion laws checked by TLC); every TLC history replayed into a real result, everything readable compared exactly",
     "Two codes, nine figures, three values, three currencies, up to two (thorough: three) operations after an empty or a full sheet.")
prop("C34", "A daily value asked for at a moment is that of the right market day",
     "A series of daily values holds one value per day, listed in order of days; a price series made from it is a copy that later changes do not touch. Asked at a moment, it answers with the value of the market's day when the moment is not after the market's close, and with that of the next day the market is open otherwise, whatever offset the moment is told in; a day without a value has no answer.",
     ["inputs", "histories"], "every moment, offset, close time and calendar, after every history of insertions and changes",
     "the test lists three values in order",
     [QL + "parameters/past_price.rs", QL + "data/daily_value_data.rs"], [("get_at_datetime", QL + "parameters/past_price.rs"), ("get_ordered_data_by_date", QL + "data/daily_value_data.rs")], None,
     ["get, get_at_datetime, get_ordered_data_by_*"],
     "TLA+ series specification over the calendar specification (laws checked by TLC); every TLC history replayed and questions around closes and closed days compared",
     "Four (thorough: eight) markets, two (four) windows, up to three (four) operations, forty moments each.")

prop("C35", "A correlation matrix is factored exactly, or refused",
     "A symmetric matrix with a positive definite form is factored into the one lower triangular matrix with a positive diagonal whose product with its transpose is the matrix again, with zeros above the diagonal. A matrix that is not square or not positive definite is refused, never factored into something else.",
     ["inputs"], "every matrix, square or not, definite or not",
     "the test factors one three by three matrix",
     [QL + "math/cholescky_factorization.rs"], [("column by column elimination", QL + "math/cholescky_factorization.rs cholesky_decomposition")], None, ["the factor, or its refusal"],
     "TLA+ specification of elimination over exact fractions (TLC checks that the factor multiplies back); every TLC matrix replayed, and factors of recorded random matrices validated by TLC",
     "All matrices of up to three rows over small integers, built from factors up to four rows; random matrices up to eight rows in traces.")
prop("C36", "Figures, spans of time and periods read as the text says",
     "A figure is shown as the nearest whole number (or tenth) in groups of three digits with its sign; a span of time as minutes and seconds; a day as its digits; the flows of a result line by line in order of their numbers, each with its day and amount. A period told as text stands for its length in years, a frequency for its count a year and its step, and what is no period is refused. The earlier of two moments is the earlier whatever offsets they are told in; a list is in order exactly when no entry is below the one before.",
     ["inputs"], "every figure, span, day, period and result",
     "tests print figures or compare two of them",
     [QL + "utils/number_format.rs", QL + "util.rs", QL + "pricing_engines/npv_result.rs", QL + "utils/string_arithmetic.rs", QL + "time/conventions.rs"],
     [("grouping and rounding", QL + "utils/number_format.rs"), ("format_duration, min_offsetdatetime, is_ndarray_sorted", QL + "util.rs"), ("from_period_string_to_float", QL + "utils/string_arithmetic.rs"), ("to_string_with_multiple", QL + "time/conventions.rs")],
     None, ["the texts", "the numbers read from texts"],
     "TLA+ specification of the texts of exact binary figures (laws checked by TLC); every TLC figure replayed, and texts of recorded random figures validated by TLC",
     "Figures around every change of the number of digits and groups up to 10^38; all small periods; random figures in traces.")
prop("C37", "Parts that do not fit together are refused",
     "Market data, curves, surfaces, interpolators, configurations, bonds, schedules and calendars are only made of parts that fit: as many values as pillars, pillars in order and not before the market's day, at least one of them, sides and options that do not contradict each other. Everything that fits is accepted and keeps its parts; everything else is refused with an error - not accepted, reordered or repaired silently, and without a panic.",
     ["inputs", "configurations"], "every combination of parts",
     "tests build each object once from parts that fit",
     [QL + "data/vector_data.rs", QL + "data/surface_data.rs", QL + "math/interpolators", QL + "parameters", QL + "instruments/bond.rs", QL + "pricing_engines/calculation_configuration.rs", QL + "time/jointcalendar.rs"],
     [("length and order checks", QL + "data/vector_data.rs VectorData::new"), ("grid checks", QL + "math/interpolators"), ("rate or index", QL + "instruments/bond.rs")], None,
     ["the object, or its refusal"],
     "TLA+ specification of what fits (laws checked by TLC); TLC enumerates combinations of parts, every one replayed into the constructors",
     "Up to three pillars or entries per part, thirteen kinds of objects.")
prop("C38", "An instrument answers for what it has and refuses the rest",
     "Asked for a term - maturity, strike, underlying, coupon, rate, index, schedule, currency, leg, type, rank, conversion - an instrument answers with the term it was made with when its kind has such a term, whatever enum or wrapper it is asked through, and with an error (or, where that is what the kind means, its stated default) when it has not; it never answers with another term and never panics.",
     ["inputs"], "every kind of instrument and every question of the instrument interface",
     "tests ask two kinds for their types",
     [QL + "instrument.rs", QL + "instruments"], [("default answers", QL + "instrument.rs InstrumentTrait"), ("answers of a kind", QL + "instruments/*.rs")], None, ["every get_* and is_* of InstrumentTrait"],
     "TLA+ table of kinds and their terms; every TLC combination of kind, terms and question replayed, also on copies read back from JSON",
     "All kinds with public constructors, all questions of the interface.")
prop("C39", "The desk's tables, balances, trades, texts and letters keep what they are given",
     "The instrument table answers with the type and currency last entered for exactly that instrument; a balance holds its side, amount and bounds as set, and nothing moves but what an operation names; a record of trades lists them in order, with the last one and the average price weighted by quantity; a lazy text is written at its first reading and never again, also with several readers; made-up order numbers follow each other; a letter sent to a mailbox arrives once and unchanged. Codes of the feeds stand for the sides, types and currencies they name, all other codes are refused.",
     ["histories", "inputs"], "every history of entries, trades, readings and letters, and every code",
     "tests read one lazy text and send one letter",
     [TE + "types/inst_info.rs", TE + "conductor/oms/account.rs", TE + "types/base.rs", TE + "utils/lazy_string.rs", TE + "communication/udp_client.rs", TE + "types/enums.rs", TE + "types/venue.rs"],
     [("insert/get", TE + "types/inst_info.rs"), ("bounds", TE + "conductor/oms/account.rs"), ("average_trade_price", TE + "types/base.rs TradeHistory"), ("get_or_init", TE + "utils/lazy_string.rs"), ("send/receive", TE + "communication/udp_client.rs")],
     None, ["every getter after every step", "letters received"],
     "TLA+ desk specification (laws checked by TLC); every TLC history replayed and the whole state compared after every step",
     "Three (thorough: four) operations on each part; three mailboxes; all 256 codes.")
prop("C40", "A number in a field is the number its digits spell",
     "In a field of any layout - signed or not, with unused characters, with a point and decimals or without, decimals read or dropped - the number read is the one its digits spell, by every way of reading, and as a real number or a feature it is that number over the power of ten of its layout. A layout that does not add up, or that holds more digits than 64 bits, is refused. The exchange's layouts are those published for each message. The distance of two stamps in any unit is exact to the last digit of a float. A stamp's day and time are those of its nanoseconds, the day of today is the clock's, and the bytes of a code are told apart as spaces and letters as they are.",
     ["inputs"], "every layout, every digit at every place, every pair of stamps",
     "tests read a few numbers in five layouts",
     [TE + "utils/numeric_converter.rs", TE + "data/krx/krx_converter.rs", TE + "types/timestamp.rs"],
     [("digit folding by masks", TE + "utils/numeric_converter.rs"), ("layouts", TE + "data/krx/krx_converter.rs"), ("diff_in_*", TE + "types/timestamp.rs")], None,
     ["to_i64/to_u64 and unchecked variants", "to_f64_from_*, normalized_real_from_*", "diff_in_*"],
     "TLA+ specification of fields and the digit sequences they spell; TLC enumerates layouts and digits, every field replayed into every converter, also after a JSON round trip",
     "All layouts of up to eighteen digits with up to two (thorough: five) unused characters, each place tried alone and all together.")
