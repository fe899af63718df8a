# The quantlib properties (exec'd by meta.py).
PE = QL+'pricing_engines/'
PA = QL+'parameters/'
prop('Q01', 'A portfolio is calculated completely and alike however it is split over threads',
     'Every instrument goes into the group of the first category it fits; if one fits none, distribution fails with an error naming it, and the same generator works once a fitting category is there. A calculation that succeeds has exactly one result for every instrument and for nothing else, and each result is, up to rounding, what one engine gives for that group and, except for theta where the group has an instrument maturing within the theta horizon, what an engine gives for the instrument alone: whatever the categories, the number of threads, how they are scheduled and what else is calculated next to it. A generator given new data, dates or instruments, also after a failed calculation, gives the results of a new one.',
     ['schedules', 'configurations', 'histories', 'fault_sequences'], 'any portfolio of stocks, cash, futures, FX futures, vanilla options, bonds, interest-rate, currency and FX swaps; any list of categories; any set of measures; one to six threads under every schedule; any sequence of days, including days on which data are missing',
     'The unit tests and examples calculate one fixed portfolio with one category list in whatever order the machine schedules it, and print the result.',
     [PE+'engine_generator.rs', PE+'engine.rs', QL+'instrument.rs'], [('EngineGenerator::distribute_instruments / calculate', PE+'engine_generator.rs'), ('Engine::calculate', PE+'engine.rs')],
     ['EngineGenerator::{distribute_instruments, calculate, get_calculation_results}'],
     'the real generator, engines and thread pool under a simulated scheduler; results compared with single-threaded engines')
prop('Q02', 'Missing market data is reported, never priced around',
     'If anything an instrument of the portfolio needs is absent (its underlying\'s price, volatility or curves, a currency rate, the volatility or correlation of a quanto, the fixing series of a floating rate, or the entry naming the curve to use), or the instrument has already matured, the calculation returns an error: it does not panic, hang or report a price. Dividends are optional: without them the calculation succeeds and prices as if there were none, and data no instrument needs may be absent.',
     ['fault_sequences', 'configurations', 'schedules'], 'any portfolio and market, any one input withheld, any measures, categories and threads',
     'No test removes an input.',
     [PE+'engine_generator.rs', PE+'engine.rs', PE+'match_parameter.rs', PE+'pricer_factory.rs'], [('Engine::with_parameter_data / initialize_pricers', PE+'engine.rs'), ('MatchParameter', PE+'match_parameter.rs')],
     ['results and errors of EngineGenerator'],
     'market data withheld as injected faults, under a simulated scheduler')
prop('Q03', 'Risk measures are what revaluation on moved inputs gives',
     'Each reported delta, gamma, vega, rho, dividend delta and theta, and each bucket of the rho and dividend structures, is the (suitably scaled) difference between revaluations of the instrument with that input, and that input alone, moved by the configured amount; the buckets of the vega structure and matrix add up to the vega of that bump, and buckets away from the maturity are zero. A measure is reported for exactly the inputs the instrument depends on. Measuring changes nothing else: asking for more or fewer measures does not change the others, and an engine asked again gives the same results. A configuration with an amount to move by that is not positive is refused.',
     ['histories', 'configurations'], 'any portfolio and market, any bump sizes, tenors, moneyness grid, subset of measures, evaluation date; in one engine or spread over threads',
     'The tests print measures of one portfolio or compare one with a recorded number; a bump that leaks into the next measure, or is put back wrongly, needs particular combinations of instruments and measures.',
     [PE+'engine.rs', PA+'zero_curve.rs', PA+'volatility.rs', PA+'discrete_ratio_dividend.rs'], [('set_delta_gamma, set_vega, set_rho, set_div_delta, set_theta', PE+'engine.rs'), ('set_vega_structure, set_vega_matrix, set_rho_structure, set_div_structure', PE+'engine.rs')],
     ['CalculationResult of every instrument'],
     'seeded markets and portfolios; every bump and put-back of the real engine compared with an independent double-precision revaluation')
prop('Q04', 'Prices and dividends follow the evaluation date forth and back',
     'When the evaluation date moves, by whatever route, every registered price and dividend stream moves with it: a price falls by each dividend that goes ex in between and regains it when the date moves back, dates and dividends at the very boundary counted on one side only, and the deduction ratio to any date contains exactly the dividends still to come. Any sequence of moves that returns to a date restores the prices and ratios of that date up to rounding.',
     ['histories'], 'any history of forward and backward moves, to, before and after ex-dates and times of day, any number of prices sharing or lacking dividends, observers added in any order, dividend revisions and new quotations in between',
     'The tests make one or two moves with one dividend; double counting and boundary errors need moves that start or end on ex-dates and histories that go back.',
     [QL+'evaluation_date.rs', PA+'market_price.rs', PA+'discrete_ratio_dividend.rs'], [('EvaluationDate::notify_observers', QL+'evaluation_date.rs'), ('MarketPrice::update_evaluation_date', PA+'market_price.rs'), ('DiscreteRatioDividend::update_evaluation_date', PA+'discrete_ratio_dividend.rs')],
     ['MarketPrice::get_value, get_dividend_deduction_ratio, DiscreteRatioDividend::get_deduction_ratio'],
     'a simulated clock of evaluation dates moved forth and back over the real observers; compared with a model computed from scratch')
prop('Q05', 'Curves and volatilities remember exactly the moves applied to them',
     'After any history of bumps, put-backs, refused bumps, rebuilds and date changes, every discount factor and forward rate of a zero curve, and every volatility, total variance and deviation, is that of the quotes with the sum of the applied moves and nothing else; a move over an interval changes the knots inside it and no others, moving there and back restores the original, and refused requests (reversed intervals, dates before the evaluation date) change nothing and return an error. So does a move a surface refuses, and rates over a vanishing period are finite, those of the moment.',
     ['histories'], 'any history of moves over any intervals, including knot boundaries and one-sided or empty ones, on any curve, constant volatility or quoted surface',
     'The tests bump a curve once.',
     [PA+'zero_curve.rs', PA+'volatility.rs', PA+'volatilities/constant_volatility.rs', PA+'volatilities/local_volatility_surface.rs'], [('ZeroCurve::bump_time_interval / bump_date_interval', PA+'zero_curve.rs'), ('bump_volatility, build', PA+'volatilities/local_volatility_surface.rs')],
     ['ZeroCurve::{get_discount_factor.., get_forward_rate..}, Volatility::{get_value, total_variance, total_deviation}'],
     'random histories with refusals and rebuilds over the real objects, compared with a model after every step')
prop('Q06', 'Every instrument is priced from its own market data',
     'In a calculation of many instruments on many threads, each instrument\'s price is the value its own underlying, curves, volatility, dividends, fixings and currency rates give it, as the match parameters assign them; its value is price times notional; its cash flows are exactly the payments it makes from the day of valuation on, in its own currency; and its exposure is its value split by the currencies it depends on.',
     ['configurations', 'schedules'], 'any portfolio and market with constant volatilities, shared or separate curves, any quotation of currency pairs, any categories, threads and schedules',
     'The tests price one instrument at a time with hand-made parameters.',
     [PE+'engine.rs', PE+'engine_generator.rs', PE+'pricer_factory.rs', PE+'match_parameter.rs'], [('initialize_pricers', PE+'engine.rs'), ('PricerFactory', PE+'pricer_factory.rs')],
     ['CalculationResult::{get_npv_result, get_value, get_cashflows, get_fx_exposure}'],
     'the real calculation under a simulated scheduler, compared with an independent double-precision valuation')
prop('Q07', 'Inputs, instruments and results survive being saved and read back',
     'What a calculation starts from can be written as JSON, every kind of it: instruments one by one, prices, rates, curves, dividends, volatilities and surfaces, past fixings, the match parameter, the configuration, the evaluation date and the categories. A process that has only what was written reads it back as it was and its calculation gives, up to rounding, the results of the one that wrote it; a written result reads back equal, but for its cash flows, which are not part of it. Every currency and currency pair has its own text. A document cut short is refused with an error, never read as another one.',
     ['crash_points', 'histories', 'configurations'], 'any portfolio of every instrument kind, any market, fixings, configuration and grouping; written compactly or indented, read from a string, in pieces or as a parsed tree, whole or cut at any byte',
     'The tests write and read back a few types, never those keyed by dates or pairs, and never calculate from what was read.',
     [QL+'instrument.rs', QL+'instruments/plain_swap.rs', QL+'data/daily_value_data.rs', QL+'data/surface_data.rs', QL+'currency.rs', PE+'match_parameter.rs', PE+'calculation_result.rs', PE+'calculation_configuration.rs'],
     [('Serialize and Deserialize of the inputs and the results', QL+'instrument.rs'), ('map_as_pairs', QL+'utils/map_as_pairs.rs')],
     ['serde_json of the inputs; results of EngineGenerator before and after'],
     'a simulated process calculates, saves and ends; a second one, with nothing but the documents (some torn, some read in pieces), calculates again')
prop('X02', 'A restarted trading process picks up from its saved state',
     'Everything of the trading engine that can be written as JSON (orders and decomposed orders, price levels, trade histories, order-id counters, the date generator, time stamps, identifiers and instrument lists, instruments, balances, weights, number converters, the stock quote parsers, lazy texts, the enumerations) reads back equal and goes on as the original would have: no order id is given out twice, numbers are read alike, messages after midnight get the right day. A feed handler that crashes anywhere and starts again from its last complete checkpoint stamps and decodes every further message as one that never stopped, its books hold the same levels, and the orders it journalled, replayed on the checkpoint up to the last whole line, give the levels of that message. What was cut short is refused with an error.',
     ['crash_points', 'histories', 'schedules', 'fault_sequences'], 'any tape of messages across midnights, any crash point of any number of incarnations, any checkpoint and sync pattern, process kill or power loss; any value of every kind of document, written and read in any way, whole or cut at any byte, read by several threads',
     'The tests write and read back one value of a few types; none restarts anything.',
     [TE+'types/timestamp.rs', TE+'types/base.rs', TE+'types/id/mod.rs', TE+'types/inst_info.rs', TE+'data/order.rs', TE+'utils/numeric_converter.rs', TE+'data/krx/stock_quote.rs', TE+'orderbook/mod.rs', TE+'conductor/oms/account.rs', TE+'instruments/mock_instrument.rs'],
     [('DateUnixNanoGenerator', TE+'types/timestamp.rs'), ('decomposed_orders_with_update', TE+'orderbook/mod.rs'), ('IntegerConverter serialisation', TE+'utils/numeric_converter.rs')],
     ['serde_json of the types; time stamps and levels after the restart; the journal'],
     'crash injection at random points of a feed handler with checkpoints and a journal on the simulated disk; random documents of every kind')
PURE = 'Deterministic simulation cannot decide it: a pure function of its arguments, with no schedule, clock, I/O, fault or history for a simulator to control; sampling inputs would be plain property testing. '
def na(id, title, statement, over, qtext, why, files, mech, reason): NA.append((id, title, statement, over, qtext, why, files, mech, reason))
na('P01', 'Calendars and schedules', 'Business days, holidays, month ends, tenor arithmetic and coupon schedules are those of the named calendars and conventions for every date.',
   ['inputs'], 'every date, calendar, convention and tenor', 'Tests look at a few dates of a few years.', [QL+'time/calendar_trait.rs', QL+'instruments/schedule.rs', QL+'utils/string_arithmetic.rs'],
   [('CalendarTrait', QL+'time/calendar_trait.rs'), ('build_schedule', QL+'instruments/schedule.rs')], PURE + 'Where schedules feed a calculation they run as real code under Q01, Q02, Q03 and Q06.')
na('P02', 'Interpolation and pricing formulae', 'Interpolators reproduce their knots and stay within their neighbours, and closed-form prices satisfy parity and their bounds for every argument.',
   ['inputs'], 'every knot set and argument, every option and forward', 'Tests compare a few numbers.', [QL+'math/interpolators/linear_interpolator.rs', PE+'option_analytic_pricer.rs'],
   [('LinearInterpolator1D', QL+'math/interpolators/linear_interpolator.rs'), ('OptionAnalyticPricer::npv', PE+'option_analytic_pricer.rs')], PURE + 'Q05 and Q06 exercise the linear interpolators and the closed forms as part of stateful calculations.')
na('P03', 'Tick sizes, number formats and linear algebra helpers', 'Price unit tables, currency and number formatting, index search, value distribution and Cholesky factors return the right value for every input.',
   ['inputs'], 'every input', 'Tests compare a few numbers.', [QL+'utils/number_format.rs', QL+'utils/find_index.rs', QL+'math/cholescky_factorization.rs', TE+'types/base.rs'], [('find_index, number formatting', QL+'utils/find_index.rs'), ('cholesky', QL+'math/cholescky_factorization.rs')], PURE + 'What the feed and the calculation need of them runs as real code under the F, B and Q properties.')
