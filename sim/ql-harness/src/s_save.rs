//! Q07: what a calculation starts from, and what it found, survive a restart.
use crate::require;
use crate::s_engine::{differ_on, err, guarded, keys_exact, late, pool, tag, Tol};
use crate::docs::Disk;
use crate::util::*;
use crate::world::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{daily_value_data::DailyValueData, surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::{bond::Bond, cash::Cash, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, stock::Stock, vanilla_option::VanillaOption};
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::{calculation_configuration::CalculationConfiguration, calculation_result::CalculationResult, match_parameter::MatchParameter};
use simos::runner::{Prop, Scenario};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

fn save_inst(d: &mut Disk, n: usize, i: &Instrument) {
    let name = format!("instrument {} {}", n, i.get_type_name());
    match i {
        Instrument::Stock(x) => d.save(&name, x), Instrument::Cash(x) => d.save(&name, x), Instrument::Futures(x) => d.save(&name, x), Instrument::VanillaOption(x) => d.save(&name, x),
        Instrument::Bond(x) => d.save(&name, x), Instrument::FxFutures(x) => d.save(&name, x), Instrument::PlainSwap(x) => d.save(&name, x), _ => harness_error("an instrument of another kind"),
    }
}
fn load_inst(d: &Disk, n: usize, i: &Instrument) -> Instrument {
    let name = format!("instrument {} {}", n, i.get_type_name());
    match i {
        Instrument::Stock(_) => Instrument::Stock(d.load::<Stock>(&name)), Instrument::Cash(_) => Instrument::Cash(d.load::<Cash>(&name)), Instrument::Futures(_) => Instrument::Futures(d.load::<Futures>(&name)),
        Instrument::VanillaOption(_) => Instrument::VanillaOption(d.load::<VanillaOption>(&name)), Instrument::Bond(_) => Instrument::Bond(d.load::<Bond>(&name)),
        Instrument::FxFutures(_) => Instrument::FxFutures(d.load::<FxFutures>(&name)), Instrument::PlainSwap(_) => Instrument::PlainSwap(d.load::<PlainSwap>(&name)), _ => harness_error("an instrument of another kind"),
    }
}
const CURRENCIES: [Currency; 47] = {
    use Currency::*;
    [NIL, KRW, USD, EUR, JPY, CNY, CNH, GBP, AUD, CAD, CHF, NZD, SEK, NOK, MXN, ZAR, BRL, INR, RUB, TRY, HKD, SGD, TWD, THB, IDR, MYR, PHP, VND, PKR, LKR, BDT, NPR, KZT, UZS, KGS, TJS, MNT, AED, SAR, QAR, OMR, KWD, BHD, JOD, ILS, EGP, ZMW]
};
/// Every currency and pair of currencies means the same however it is written and read.
fn currencies(d: &mut Disk) {
    let any = || CURRENCIES[w(CURRENCIES.len() as u64) as usize];
    let (a, b) = (any(), any());
    let pair = FxCode::new(a, b);
    d.save("currency", &a);
    d.save("currency pair", &pair);
    d.save("currency pairs", &HashMap::from([(pair, b)]));
    let (x, y, z): (Currency, FxCode, HashMap<FxCode, Currency>) = (d.load("currency"), d.load("currency pair"), d.load("currency pairs"));
    require!(x == a && y == pair && z.len() == 1 && z.get(&pair) == Some(&b), "changed", "the currencies {:?} and {:?} and their pair read back as {:?}, {:?}, {:?}", a, b, x, y, z);
    let (code, name) = (pair.to_string(), a.to_string());
    require!(FxCode::from(code.as_str()) == pair && Currency::from(name.as_str()) == a && name == a.as_str() && name == format!("{:?}", a), "changed", "the currencies {:?} and {:?} are written {} and {}, and read back as {:?} and {:?}", a, b, name, code, Currency::from(name.as_str()), FxCode::from(code.as_str()));
    let back = pair.reciprocal();
    require!(back.get_currency1() == &b && back.get_currency2() == &a && pair.get_currency1() == &a && pair.get_currency2() == &b && (back == pair) == (a == b) && (x == b) == (name == b.as_str()), "changed", "the pair {} the other way round is {}", pair, back);
}
/// A calculation is saved and the process ends; another one reads the documents and calculates.
fn restart() {
    let mask = if w(3) == 0 { w(512) as u32 } else { M_ALL };
    let wd = World::random(Opt { insts: 1 + w(5), surfaces: true, midnight: true }, mask);
    pool(1 + w(4) as usize);
    let (cats, data) = (wd.random_categories(true), wd.data());
    let before = guarded("calculate", || wd.generate(cats.clone(), &wd.cfg, data.clone())).unwrap_or_else(|e| violate("refused", err(&e)));
    let mut d = Disk::default();
    for (n, i) in wd.insts.iter().enumerate() { save_inst(&mut d, n, i) }
    d.save("fx rates", &data.fx);
    d.save("stock prices", &data.stock);
    d.save("curves", &data.curve);
    d.save("dividends", &data.div);
    d.save("volatilities", &data.cvol);
    d.save("volatility surfaces", &data.surf);
    d.save("fx volatilities", &data.fxvol);
    d.save("quanto correlations", &data.qcorr.iter().collect::<Vec<_>>());
    d.save("past fixings", &data.past);
    d.save("configuration", &wd.cfg.build());
    d.save("match parameter", &wd.mp());
    d.save("evaluation date", &EvaluationDate::new(wd.dt));
    d.save("categories", &cats);
    let results: BTreeMap<_, _> = before.iter().collect();
    for (c, r) in &results { d.save(&format!("result {}", c), r) }
    currencies(&mut d);
    point("restart", 1);
    fault("restart");
    // ---- only the documents are left
    let date: EvaluationDate = d.load("evaluation date");
    require!(*date.get_date() == wd.dt, "changed", "the evaluation date {:?} reads back as {:?}", wd.dt, date.get_date());
    let cfg: CalculationConfiguration = d.load("configuration");
    require!(cfg == wd.cfg.build(), "changed", "the configuration reads back as {:?}", cfg);
    let after = guarded("calculate after the restart", || {
        let mut g = EngineGenerator::builder();
        g.with_instrument_categories(d.load::<Vec<InstrumentCategory>>("categories"))?;
        g.with_configuration(cfg, date.get_date_clone(), d.load::<MatchParameter>("match parameter"))?;
        g.with_instruments(Instruments::new(wd.insts.iter().enumerate().map(|(n, i)| Rc::new(load_inst(&d, n, i))).collect()))?;
        g.with_data(d.load::<HashMap<FxCode, ValueData>>("fx rates"), d.load("stock prices"), d.load("curves"), d.load::<HashMap<String, VectorData>>("dividends"), d.load("volatilities"), d.load::<HashMap<String, SurfaceData>>("volatility surfaces"),
            d.load("fx volatilities"), d.load::<Vec<((String, FxCode), ValueData)>>("quanto correlations").into_iter().collect(), d.load::<HashMap<String, DailyValueData>>("past fixings"))?;
        g.distribute_instruments()?;
        g.calculate()?;
        Ok(g.get_calculation_results().clone())
    }).unwrap_or_else(|e| violate("refused", format!("after the restart: {}", err(&e))));
    keys_exact(&after, &wd, "calculation after the restart");
    for i in &wd.insts {
        let (a, b) = (&before[i.get_code()], &after[i.get_code()]);
        let t = Tol::new(&wd, i, &wd.cfg, 24.0);
        if let Some(x) = differ_on(a, b, &t, if late(i, &wd) { M_ALL } else { M_ALL & !M_THETA }) { violate("differs", format!("{} before and after the restart: {}", tag(i), x)) }
        let mut r: CalculationResult = d.load(&format!("result {}", i.get_code()));
        // expected cash flows are not part of a saved result
        if let (None, Some(c)) = (r.get_cashflows(), a.get_cashflows()) { r.set_cashflows(c.clone()) }
        require!(r == *a, "changed", "the result of {} reads back as {:?}, saved {:?}", tag(i), r, a);
    }
    nontrivial();
    note(format!("{} instruments, {} documents, {} bytes", wd.insts.len(), d.0.len(), d.0.values().map(|s| s.len()).sum::<usize>()));
}
pub const Q07: Prop = Prop {
    id: "Q07", quick: 12_000, thorough: 600_000,
    scenarios: &[Scenario { name: "restart", weight: 1, body: restart, max_steps: 2_000_000, cpu_s: 20 }],
    real: "the whole of quantlib with rayon's thread pool and serde, compiled unmodified; JSON by serde_json", stub: "thread scheduler, clock; the disk is a set of named documents held by the harness",
    rule: "one seed = one run: random portfolio, market, configuration, grouping and thread count, calculated, saved, read back and calculated again; every run restarts",
    assumptions: &["inputs are saved as JSON, instruments one by one; a document is whole or cut (a bit flipped inside a number is not detectable)"],
    expect: &["restart", "torn_save", "short_read"],
};
