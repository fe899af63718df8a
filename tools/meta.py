#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), note=note))
TE = 'trading-engine/src/'
QL = 'quantlib/src/'
prop('S01', 'Broadcast queue: every worker sees every publication exactly once',
     'Every worker of the broadcast spin queue is handed every publication exactly once, in publication order, complete and unchanged while it reads, with everything the producer wrote visible to it. The producer is handed the data only while no worker is using it and every worker has finished the previous publication, and it is always let in again once they have. The payload is dropped exactly once, whatever way the queue was built; unusable worker sets are refused, and a worker the queue was not built for is never handed anything and changes nothing.',
     ['schedules', 'configurations'], 'every set of 1 to 16 distinct workers, every number of publications, every interleaving of producer and workers, and every stale value the memory orderings used permit',
     'The one unit test runs one real interleaving on x86, where weak orderings do not show; it is not even reliable. Overlap, lost wake-ups and ordering mistakes depend on which thread runs between two particular atomic steps.',
     [TE+'spinqueue.rs'], [('notify_all_workers / get / work_done flags', TE+'spinqueue.rs'), ('get_mut and ready_to_update', TE+'spinqueue.rs'), ('Drop', TE+'spinqueue.rs')],
     ['DataSpinQueue::{new, default, get, get_mut, notify_all_workers, work_done, ready_to_work, ready_to_update}'],
     'seeded random schedules under a C11-style weak-memory simulation of the atomics with happens-before race detection')
prop('S02', 'Concurrent counters give every caller its own number',
     'Numbers drawn concurrently from one shared counter are pairwise distinct, no gaps and no repeats over everything drawn, and increase in the order the calls happened. A bounded counter hands out exactly the numbers of its range to exactly that many callers, and tells every further caller that it is exhausted, for ever.',
     ['schedules', 'configurations'], 'every interleaving of any number of threads over every counter type and range, up to and including the largest number of the type',
     'The tests draw from one thread, or from a few in whatever order the machine runs them; a read-modify-write split in two passes them.',
     [TE+'utils/counter.rs'], [('atomic next', TE+'utils/counter.rs')], ['the public counters of utils::counter'],
     'seeded random schedules over the real counters, histories checked against a sequential counter')
prop('S03', 'Instrument identifiers mean the same thing in every thread',
     'Two instrument identifiers are equal exactly when symbol and venue are equal, whichever threads created them, in whatever order and by whatever way (constructed, read from JSON, default), and equal ones hash alike. Looking one up always gives the symbol and venue it was made from, in any thread, and one written as JSON reads back as the same identifier. Codes differ as soon as their texts differ in any character; an instrument has the code it was made with. What is no code (an ISIN not of twelve visible ASCII characters, a ticker too long or not valid text) is refused with an error.',
     ['schedules', 'histories'], 'every interleaving of threads creating, comparing and storing identifiers, any symbols and venues',
     'Tests create a handful of identifiers on one thread; the shared symbol table only matters when threads race to create the same one.',
     [TE+'types/id/mod.rs', TE+'types/id/isin_code.rs', TE+'types/id/ticker.rs'], [('InstId construction, comparison and hashing', TE+'types/id/mod.rs')], ['InstId, Symbol, Venue, hash maps keyed by InstId'],
     'seeded random schedules of threads creating and comparing identifiers, against a plain value model')
prop('S04', 'A lazily formatted string is computed once and is the same for all readers',
     'However many threads read a lazily computed string at once, its computation runs only when first asked for and succeeds at most once, and every reader gets the complete, same text, which is what that computation returned. A computation that panics fails only the reader that ran it; a later reader computes it again. Written as JSON and read back it is the same text.',
     ['schedules', 'fault_sequences'], 'every interleaving of readers, clones and drops, including a computation that stalls or panics',
     'The tests read it from one thread.',
     [TE+'utils/lazy_string.rs'], [('LazyString evaluation', TE+'utils/lazy_string.rs')], ['LazyString reads, Display, Serialize'],
     'seeded random schedules with stalls and panics injected into the computation')
LOGF = [TE+'logger.rs', TE+'utils/timer.rs', TE+'topics.rs']
prop('L01', 'Every accepted log record is in the log exactly once, in order, at shutdown',
     'When the logger has been shut down, the log files hold, on disk, every record logged before the shutdown whose level the threshold in force let through: exactly once, whole and with the content given, in each caller\'s order, and nothing else; records below the threshold never appear. This holds across file rotations, threshold and time-zone changes, and interrupted or short writes. Logging never panics or blocks for ever in the caller, not even during or after shutdown, and nothing is written once shutdown has returned. A value of a record that cannot be written as JSON shows an error in its place; a record whose content panics when it is worked out costs only itself, and one whose content logs further records when it is worked out costs none.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of logging threads, configuration calls and shutdown; all log forms and levels; any record sizes and contents, also values that cannot be written or that panic; every pattern of interrupted, short and slow writes',
     'The tests log a few lines and look at them by eye; which records are queued, buffered or in flight when rotation or shutdown happens depends on the schedule.',
     LOGF, [('channel to the logger thread', TE+'logger.rs'), ('Logger::initialize / launch loop', TE+'logger.rs'), ('LoggerGuard drop', TE+'logger.rs'), ('level check in the macros', TE+'logger.rs')],
     ['log macros, Logger builder, LoggerGuard, the log files'],
     'simulated threads, clock and disk under the real logger; log files compared with the journal of calls')
prop('L02', 'Disk and console failures cost at most the affected records, never the logger',
     'When opening, writing or syncing a log file, creating its directory, or writing to the console fails, no thread of the program panics or hangs and no record is duplicated, altered or invented. Once the disk works again and a file is attached, every record logged from then on is delivered as if nothing had happened. A failure to make a directory, to open or sync a file, or of the console costs no record: what waits goes to the file attached before or next. Failing to give the logger a core of its own changes nothing; failing to start its thread costs the log, but neither panics nor blocks anyone.',
     ['fault_sequences', 'schedules'], 'every placement of I/O errors, full disks, short and torn writes and console errors in the life of the logger, with any interleaving of callers',
     'No test injects a failing write, sync, open or console.',
     LOGF, [('set_file and write paths of the logger thread', TE+'logger.rs')], ['Logger::with_file, the log files, panics of any thread'],
     'fault-injecting simulated disk and console under the real logger')
prop('L03', 'A crash leaves a log that is a clean prefix; flushing records leave the process',
     'Whenever the process dies or the machine loses power, the log holds for every thread a gap-free beginning of what that thread logged, in order, without duplicates, and every record is whole except possibly an unfinished last one in the file being written. A record logged in the flushing form, and every record the same thread logged before it, has left the process shortly after, without waiting for shutdown or for more records.',
     ['crash_points', 'schedules', 'fault_sequences'], 'every point of the execution as crash point, process kill or power loss, with any interleaving, rotation history and write pattern',
     'No test kills the process while it logs, and flushing cannot be told from buffering when the test ends in an orderly shutdown.',
     LOGF, [('BufWriter and flushing messages', TE+'logger.rs'), ('rotation', TE+'logger.rs')], ['the log files as a restarted process finds them'],
     'crash injection at random steps, durable-state model of the disk, log compared with the journal of calls')
prop('L04', 'Log time stamps are the moment of the log call in the configured zone',
     'The date, time and offset written in a record name the moment at which the caller logged it, to the nanosecond resolution shown and within the time the logger took to initialise, in a time zone that was configured. They are well-formed calendar dates and times on every day of the calendar, and a wall clock that is stepped afterwards changes nothing.',
     ['schedules', 'histories', 'configurations'], 'any start time (leap days, year ends, midnight in either zone), any time zone, any queueing delay, any clock steps',
     'Tests format one or two instants; the effect of queueing, delays, midnight and stepped clocks needs a controlled clock.',
     LOGF, [('time stamp taken in the macros', TE+'logger.rs'), ('convert_unix_nano_to_date_and_time', TE+'utils/timer.rs')], ['date, time and offset fields of log records'],
     'simulated clocks with jumps and stalls under the real logger; every stamp bounded by the call that made it')
prop('T01', 'The engine clock never goes back, keeps pace, and ignores clock steps',
     'Readings of the engine clock never decrease: a reading that starts after another one finished, in any thread, is at least as large, and two readings differ by the time that passed between them. After its first use the clock stays within the duration of that first use of the wall clock it started from, whatever happens to the wall clock later; the same holds for each thread\'s own clock. The UTC date derived from it is the midnight at or before the reading; dates, times of day and printed forms of a stamp name that instant, and the time elapsed between two stamps is their difference in every unit.',
     ['schedules', 'histories', 'fault_sequences'], 'any interleaving of first uses and readings over any number of threads, any pauses, counter frequencies and wall-clock steps',
     'The one test asserts that a reading is positive.',
     [TE+'utils/timer.rs', TE+'types/timestamp.rs'], [('get_unix_nano and its anchors', TE+'utils/timer.rs'), ('get_thread_local_unix_nano', TE+'utils/timer.rs'), ('set_today / from_today', TE+'types/timestamp.rs')], ['get_unix_nano, get_thread_local_unix_nano, TimeStamp::utc_now, DateUnixNanoGenerator'],
     'simulated clocks and scheduler; reading histories checked for order, rate and anchor')
prop('T02', 'Time-weighted averages decay by the time between samples',
     'An exponentially time-weighted average or sum fed with samples stamped by the engine clock equals, after every sample, the value defined by its recurrence with the weight raised to the time since the previous sample in the configured unit. This holds for any gaps, stalls and clock steps; a sample stamped earlier than one already applied is taken as simultaneous with it and never panics.',
     ['histories', 'schedules', 'inputs'], 'any sequence of samples, gaps from nanoseconds to days, any weight and unit, and samples reordered between being stamped and being applied',
     'Only one weight over one interval is tested; the state carried from sample to sample is not.',
     [TE+'feature/weighted_valuation.rs', TE+'feature/weight.rs', TE+'types/timestamp.rs'], [('EWMA::update, EWMS::update', TE+'feature/weighted_valuation.rs'), ('interval weight', TE+'feature/weight.rs')], ['EWMA and EWMS values after each update'],
     'several simulated feeds stamped by the simulated clock; every value compared with the recurrence')
prop('N01', 'UDP messages arrive unaltered or not at all',
     'Whatever the network does (loss, duplication, reordering, delay, partition, full socket buffers, interrupted calls), a client only ever receives texts that were sent to its address, unaltered up to the length of its receive buffer. A send that reports success puts its message on the network, so without loss it arrives; a send or receive that fails reports the error and neither panics, nor loses nor delivers anything. Two clients never share an address.',
     ['fault_sequences', 'schedules', 'inputs'], 'any network behaviour, any interleaving of clients, any text including empty, multi-byte and longer than the buffer',
     'The test exchanges one greeting over the loopback interface.',
     [TE+'communication/udp_client.rs'], [('send_message', TE+'communication/udp_client.rs'), ('receive_response', TE+'communication/udp_client.rs')], ['UdpClient results, datagrams on the simulated wire'],
     'simulated sockets and network with seeded faults under the real std::net client')
KRX = [TE+'data/krx/derivative_quote.rs', TE+'data/krx/derivative_trade.rs', TE+'data/krx/stock_quote.rs']
prop('F01', 'Damaged exchange messages are refused without harm',
     'An exchange message that is truncated, too long, lacks its end mark, or whose instrument code holds a blank, a tab or a non-ASCII byte is refused with an error, and so is a message for a buffer with too few levels: whatever bytes it holds, no panic, and the buffer, the date and every later message are as if it had never come. Damage confined to other fields cannot be told from data, but never panics either, and decoding afresh and into a buffer agree on whether to accept. Decoding reads no byte outside the message.',
     ['inputs', 'fault_sequences', 'histories'], 'any message of the seven interfaces, any truncation, padding and corruption, at any point of a feed that loses, repeats and reorders messages',
     'The tests decode a handful of good messages; none is damaged, and what a refused message leaves behind in a long-lived buffer is never looked at.',
     KRX + [TE+'data/checker.rs', TE+'types/id/isin_code.rs'], [('payload and buffer checks', TE+'data/checker.rs'), ('IsinCode::new', TE+'types/id/isin_code.rs'), ('to_*_buffer', TE+'data/krx/derivative_trade.rs')],
     ['results of to_quote_snapshot(_buffer), to_trade_quote_snapshot(_buffer), to_trade_data(_buffer); buffers and DateUnixNanoGenerator afterwards'],
     'simulated exchange and network damaging messages in flight; state before and after compared')
prop('F02', 'Every intact exchange message decodes to what the exchange sent',
     'Instrument, venue, prices with sign, quantities, order counts, liquidity-provider quantities, trade side and cumulative quantity decode to exactly what the exchange sent, for as many levels as asked for and no more (all of them where nothing is said; more than the message has is refused), with the converter of the instrument\'s price scale, and the receive stamp lies within the call. A long-lived buffer holds after each message exactly what a fresh decode of that message gives, whatever it held before and however messages of different interfaces, instruments and depths are mixed.',
     ['inputs', 'histories'], 'any field values, message kinds, decoder settings and buffer sizes; any history of messages through the same buffers',
     'The tests decode a few recorded messages, almost all afresh; a field left over from an earlier message or truncated by a wrong offset needs particular values or histories to show.',
     KRX + [TE+'data/krx/krx_converter.rs', TE+'data/krx/interface_map.rs', TE+'utils/numeric_converter.rs'], [('to_*_snapshot and to_*_snapshot_buffer', TE+'data/krx/derivative_trade.rs'), ('level unrolling', TE+'data/krx/unroll_macro.rs'), ('get_krx_derivative_converter', TE+'data/krx/krx_converter.rs'), ('IntegerConverter', TE+'utils/numeric_converter.rs')],
     ['QuoteSnapshot, TradeQuoteSnapshot, TradeData, KRX_TR_CODE_MAP'],
     'simulated exchange encoding random messages through reused buffers; every field compared with what was sent')
prop('F03', 'Exchange times are stamped on the right day across midnights',
     'Every message of a feed is stamped with the time of day the exchange put in it, on the right calendar day (plus the fixed zone offset the converter adds), however many midnights the feed runs across, as long as no silence exceeds nine hours, except before a message for which the application has set the date itself, and messages are not reordered across midnight. The date moves on exactly once per midnight, which is recorded with the receive stamp of the message that showed it; losses, repeats and damaged messages do not disturb it.',
     ['histories', 'schedules', 'fault_sequences'], 'any times of day to the microsecond, any gaps up to nine hours, any starting date, loss, repetition and reordering within a day',
     'The tests cover a few jumps within one and two days; the day shown depends on the whole history of messages received.',
     [TE+'utils/numeric_converter.rs', TE+'types/timestamp.rs'], [('parse_hhmmssuuuuuu', TE+'utils/numeric_converter.rs'), ('DateUnixNanoGenerator::increment', TE+'types/timestamp.rs')],
     ['timestamp of decoded messages, DateUnixNanoGenerator'],
     'simulated exchange, network and clocks over several days; stamps compared with the exchange\'s true time')
prop('F04', 'Quote features always show the last snapshot applied',
     'A quote view built from a snapshot, or updated in place by one, shows exactly that snapshot\'s effective levels (as many as the view has), prices and quantities in natural units, and both time stamps, whatever it showed before; a snapshot with too few levels is refused and changes nothing. Best prices, mid price and volume-weighted price are those of the levels that hold quantity. The order-flow imbalance between two views follows the price moves and quantity changes of the level asked for (in the logarithmic form a side without quantity counts as no flow), is always a finite number, and is refused for levels either view lacks.',
     ['histories', 'inputs'], 'any history of snapshots of any instruments and depths, ladders with thin, empty and moving sides, any level',
     'The tests compute one imbalance between two recorded snapshots; what a view keeps from an earlier snapshot, and the empty levels of a thin market, need particular histories.',
     [TE+'feature/tick.rs', TE+'feature/ofi.rs'], [('SimpleQuotes::update_quote_snapshot / update_trade_quote_snapshot', TE+'feature/tick.rs'), ('get_*_orderflow_imbalance', TE+'feature/tick.rs'), ('best / mid / vwap', TE+'feature/tick.rs')],
     ['SimpleQuotes: levels, stamps, prices and imbalances'],
     'simulated exchange and network feeding views in place; compared with the ladder the exchange sent')
prop('B01', 'A book kept from snapshots is the last snapshot',
     'After any history of snapshots and of trades against the displayed quantities, an order book holds exactly the effective levels of the snapshot applied last that have quantity: prices, quantities, totals, best prices, level snapshots and printed views. Levels the snapshot does not declare valid and levels without quantity are not in the book. A snapshot of another instrument is refused and changes nothing, and two books compare as equal exactly when their levels are.',
     ['histories', 'inputs'], 'any history of snapshots over several instruments, decoder depths and reused buffers, sides that thin out, empty and cross former prices, with losses, repeats and reordering; every price at most once per side of a snapshot, and no own orders resting in the book',
     'One test applies a single snapshot to an empty book and prints it; stale levels, totals and best prices come from what the book held before.',
     [TE+'orderbook/mod.rs', TE+'orderbook/half_book.rs', TE+'orderbook/level.rs'], [('HalfBook::update_l2_snapshot', TE+'orderbook/half_book.rs'), ('OrderBook::update_from_*_snapshot', TE+'orderbook/mod.rs'), ('eq_level', TE+'orderbook/half_book.rs')],
     ['OrderBook levels, best prices, totals, level snapshots, printed views, eq_level'],
     'simulated exchange, network and feed handlers; each book compared with the ladder sent, after every message')
prop('B02', 'Decomposed orders carry the change between two snapshots',
     'Decomposing a snapshot against a book gives one order for each price whose quantity changed, for exactly the difference, and nothing else: quantity added as a limit order with an id never used before, quantity gone as a removal. The book is then the snapshot. A second book that applies these orders, from the beginning or from any intermediate copy of the levels, equals the first one after every batch.',
     ['histories', 'crash_points'], 'any history of snapshots, and any point at which a follower loses its state and starts again from the levels of that moment; orders delivered in order',
     'The tests decompose one pair of recorded snapshots.',
     [TE+'orderbook/half_book.rs', TE+'orderbook/mod.rs', TE+'data/order.rs'], [('decomposed_orders_with_update', TE+'orderbook/half_book.rs'), ('RemoveAnyOrder', TE+'orderbook/half_book.rs')],
     ['the DecomposedOrder stream, levels of the primary and of the followers'],
     'simulated primary and followers exchanging orders, followers crashing and resuming; compared with the ladder after every batch')
prop('B03', 'The order book matches by price, then time, and keeps its accounts',
     'Limit and market orders trade against the other side best price first and, within a price, earliest first, never beyond their limit, and trades plus remainder equal the order; a limit order\'s remainder rests. Cancelling, modifying, resizing, moving and removing do what they say to the named order only; an unknown order changes nothing, and an order cut to zero is gone. After every request the levels, their quantities and order counts, the totals, best prices, each live order\'s price and quantity and the printed views are those of the live orders, and finished orders are unknown. Clearing or replacing a side, or a level, leaves nothing of it behind.',
     ['histories', 'schedules', 'fault_sequences'], 'any sequence of requests of any number of clients with unique ids and positive quantities for new orders, in any arrival order, with losses and duplicates',
     'The tests walk through one short script per operation; accounts that drift apart (level, total, cache, best price) need combinations of operations to show.',
     [TE+'orderbook/mod.rs', TE+'orderbook/half_book.rs', TE+'orderbook/level.rs', TE+'data/order.rs'], [('process_limit_order / process_market_order', TE+'orderbook/mod.rs'), ('modify / cancel / change_quantity / change_price / remove_order', TE+'orderbook/half_book.rs'), ('Level::trade', TE+'orderbook/level.rs')],
     ['results of every OrderBook and HalfBook request, all queries, printed views'],
     'simulated clients, network and matching engine; every result and the whole book compared with a reference list of orders')
prop('X01', 'From the wire to the strategies: every received message once, in order, right',
     'With a feed handler decoding datagrams straight into the broadcast queue\'s buffer and strategies keeping books from it, every strategy processes every received message exactly once and in the order received, sees its fields as the exchange sent them, and its books are the last snapshots, however slow strategies are and whatever the network does. The pipeline never stalls and shuts down when told to.',
     ['schedules', 'fault_sequences', 'histories'], 'any number of strategies at any speed, any network behaviour, any message mix, any interleaving and stale value the memory orderings permit',
     'No test connects the parts; a message overwritten while a strategy still reads it shows only under particular interleavings.',
     [TE+'spinqueue.rs', TE+'data/krx/derivative_quote.rs', TE+'data/krx/derivative_trade.rs', TE+'orderbook/mod.rs'], [('get_mut / notify_all_workers / get / work_done', TE+'spinqueue.rs'), ('to_*_buffer', TE+'data/krx/derivative_quote.rs'), ('update_from_*_snapshot', TE+'orderbook/mod.rs')],
     ['what each strategy sees, and its books'],
     'the whole feed pipeline under simulated network, scheduler and weak memory')
NA = []
exec(open('tools/meta_more.py').read()) if os.path.exists('tools/meta_more.py') else None

with open('properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}, ensure_ascii=False) + '\n')
for id, title, statement, over, qtext, why, files, mech, reason in NA: pass
with open('properties.jsonl', 'a') as f:
    for id, title, statement, over, qtext, why, files, mech, reason in NA:
        f.write(json.dumps(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
m = dict(version=1, setup_cmd='./setup.sh',
         checks=[dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique='deterministic simulation with fault injection: ' + p['note'],
                      level='exploration', level_note='Seeded search over schedules, histories and faults: a clean batch is evidence within the runs, seeds and bounds the evidence file reports, not proof.') for p in P],
         not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA],
         notes='No hooks in /repo: the trading engine is compiled unmodified with std and the clock and channel crates replaced, and system calls are simulated (see DESIGN.md).')
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), s)
print(len(P), 'claimed,', len(NA), 'not applicable')
