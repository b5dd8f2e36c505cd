#[path = "../../../conform/src/scen.rs"]
mod conform;
mod interpose;
mod scen;
mod util;
mod wire;

use mccore::explore::{explore, run_plan, verdict, Case, Limits, Stats};
use mccore::Plan;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};
use util::Tier;

struct Args {
    cmd: String,
    id: String,
    tier: Tier,
    opts: BTreeMap<String, String>,
}

fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut id = String::new();
    let mut opts = BTreeMap::new();
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            opts.insert(k.to_string(), it.next().unwrap_or_default());
        } else {
            id = a;
        }
    }
    let tier = match opts.get("tier").map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    Args { cmd, id, tier, opts }
}

struct KnownFinding {
    property: String,
    case: String,
    message: String,
}

/// Lines `finding: property=<id> case=<name> message=<prefix>`; lines starting with
/// `fixed:` are a record only.
fn known_findings(path: Option<&String>) -> Vec<KnownFinding> {
    let Some(p) = path else { return vec![] };
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let field = |k: &str, end: &str| -> Option<String> {
            let a = l.find(k)? + k.len();
            let r = &l[a..];
            Some(if end.is_empty() { r.to_string() } else { r.split(end).next()?.to_string() })
        };
        if let (Some(property), Some(case), Some(message)) =
            (field("property=", " "), field("case=", " message="), field("message=", ""))
        {
            v.push(KnownFinding { property, case, message });
        }
    }
    v
}

fn json_str(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

fn write_replay(dir: &str, id: &str, tier: Tier, case: &str, plan: &Plan, msg: &str, trace: &[String]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{id}.replay.json");
    let plan_s: Vec<String> = plan.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
    let tr: Vec<String> = trace.iter().map(|t| json_str(t)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"case\":{},\"message\":{},\"plan\":[{}],\n\"trace\":[\n{}\n]}}\n",
        json_str(id),
        json_str(tier.name()),
        json_str(case),
        json_str(msg),
        plan_s.join(","),
        tr.join(",\n")
    );
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("cannot write {path}: {e}");
    }
    path
}

fn main() {
    mccore::install_panic_hook();
    let a = args();
    let code = match a.cmd.as_str() {
        "list" => {
            for (id, ..) in scen::all() {
                println!("{id}");
            }
            0
        }
        "check" => check(&a),
        "replay" => replay(&a),
        "run" => run_one(&a),
        "conform" => conform_models(&a),
        _ => {
            eprintln!("usage: mc list | check ID [--tier T] [--evidence F] [--known F] [--replays D] [--case SUBSTR] | replay FILE | run ID --case NAME [--plan i:a,i:a]");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn find(id: &str) -> Option<scen::Property> {
    scen::all().into_iter().find(|(i, ..)| *i == id).map(|(_, p)| p)
}

fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

fn check(a: &Args) -> i32 {
    let Some(prop) = find(&a.id) else {
        eprintln!("no such property {}", a.id);
        return 2;
    };
    let t0 = Instant::now();
    let mut cases = (prop.cases)(a.tier);
    if let Some(f) = a.opts.get("case") {
        cases.retain(|c| c.name.contains(f.as_str()));
    }
    {
        let mut names = std::collections::HashSet::new();
        for c in &cases {
            assert!(names.insert(c.name.clone()), "duplicate case {}", c.name);
        }
    }
    let default_wall = if a.tier == Tier::Thorough { 3000 } else { 240 };
    let wall = a.opts.get("wall").and_then(|w| w.parse().ok()).unwrap_or(default_wall);
    let known: Vec<KnownFinding> = known_findings(a.opts.get("known"))
        .into_iter()
        .filter(|k| k.property == a.id)
        .collect();
    let known: Vec<(String, String, String)> = known
        .into_iter()
        .map(|k| (format!("{} {}", k.case, k.message), k.case, k.message))
        .collect();
    let id = a.id.clone();
    let replays = a.opts.get("replays").cloned().unwrap_or_else(|| "/verif/out".into());
    let (id2, replays2, tier) = (id.clone(), replays.clone(), a.tier);
    let lim = Limits {
        wall: Duration::from_secs(wall),
        workers: a.opts.get("workers").and_then(|w| w.parse().ok()).unwrap_or_else(workers),
        known: Box::new(move |case, msg| {
            known
                .iter()
                .find(|(_, c, m)| c == case && msg.starts_with(m.as_str()))
                .map(|k| k.0.clone())
        }),
        exec_wall: Duration::from_secs(60),
        on_stuck: Box::new(move |case, plan| {
            let p = write_replay(&replays2, &id2, tier, case, plan, "does not terminate", &[]);
            println!("case {case} plan {plan:?}: an execution does not terminate (endless loop between two scheduling points)");
            println!("VIOLATION property={id2} replay={p}");
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }),
    };
    let st = explore(&cases, &lim);
    report(a, &prop, &cases, &st, &replays, t0)
}

fn report(a: &Args, prop: &scen::Property, cases: &[Case], st: &Stats, replays: &str, t0: Instant) -> i32 {
    let id = &a.id;
    let secs = t0.elapsed().as_secs_f64();
    let outcomes: usize = st.cases.iter().map(|c| c.outcomes.len()).sum();
    println!(
        "{id}: {} cases, {} executions (by deviations {:?}), {} decisions, {} steps, {} distinct scheduler states, {} distinct outcomes, completed level {:?}, complete {}, {:.1}s",
        cases.len(), st.executions, st.by_level, st.decisions, st.steps, st.states.len(), outcomes,
        st.completed_level, st.complete, secs
    );
    if a.opts.contains_key("verbose") {
        for (c, s) in cases.iter().zip(&st.cases) {
            println!("  {:50} {:8} executions, max {} decisions, {:?}", c.name, s.executions, s.max_decisions, s.by_level);
            for (o, n) in s.outcomes.iter().take(6) {
                println!("      {n:8} x {o}");
            }
        }
    }
    if let Some(path) = a.opts.get("evidence") {
        let e = evidence(a, prop, cases, st, secs);
        if let Some(d) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(path, e) {
            eprintln!("cannot write {path}: {e}");
            return 2;
        }
    }
    for (k, n) in &st.known {
        println!("KNOWN-FINDING: property={id} {k} ({n} executions)");
    }
    if let Some(v) = st.violations.first() {
        let p = write_replay(replays, id, a.tier, &v.case, &v.plan, &v.message, &v.trace);
        println!("case {} plan {:?}: {}", v.case, v.plan, v.message);
        println!("VIOLATION property={id} replay={p}");
        return 1;
    }
    if let Some(m) = &st.machinery_error {
        println!("machinery error: {m}");
        return 2;
    }
    if !st.complete {
        println!("note: time limit reached; complete up to {:?} deviations", st.completed_level);
        // nothing explored completely would be no answer
        if st.completed_level.is_none() {
            println!("machinery error: not even the default executions were completed");
            return 2;
        }
    }
    0
}

fn evidence(a: &Args, prop: &scen::Property, cases: &[Case], st: &Stats, secs: f64) -> String {
    use serde_json::{json, Value};
    let outcomes: usize = st.cases.iter().map(|c| c.outcomes.len()).sum();
    let mut samples: Vec<Value> = vec![];
    let step = (cases.len() / 6).max(1);
    for (c, s) in cases.iter().zip(&st.cases).step_by(step).take(8) {
        samples.push(json!({
            "case": c.name, "executions": s.executions, "max_decisions": s.max_decisions,
            "executions_by_deviations": s.by_level,
            "outcomes": s.outcomes.iter().take(3).map(|(o, n)| json!([o, n])).collect::<Vec<_>>(),
        }));
    }
    let mut cov = serde_json::Map::new();
    match prop.level {
        "model_checking" => {
            cov.insert("states".into(), json!(st.states.len()));
            cov.insert("transitions".into(), json!(st.steps));
            cov.insert("traces_validated_against_impl".into(), json!(st.executions));
        }
        _ => {
            cov.insert("evaluations".into(), json!(st.executions));
            cov.insert("distinct_nontrivial".into(), json!(outcomes));
            cov.insert("transitions".into(), json!(st.steps));
        }
    }
    cov.insert("rule".into(), json!(prop.rule));
    cov.insert("cases".into(), json!(cases.len()));
    cov.insert("decisions".into(), json!(st.decisions));
    cov.insert("executions_by_deviations".into(), json!(st.by_level));
    cov.insert("distinct_outcomes".into(), json!(outcomes));
    cov.insert("deviation_bound_completed".into(), json!(st.completed_level));
    cov.insert("exhaustive".into(), json!(st.complete));
    cov.insert("samples".into(), Value::Array(samples));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let v = json!({
        "property": a.id, "tier": a.tier.name(), "seed": seed, "level": prop.level,
        "coverage": Value::Object(cov),
        "assumptions": [
            "tasks, network and time are the models of mc/tokio and mc/core (sequentially consistent memory, preemption only at intercepted operations)",
            "bounded: the number of deviations from the default schedule, and the scenarios' sizes",
        ],
        "wall_s": secs, "violations": st.violations.len(),
    });
    serde_json::to_string_pretty(&v).unwrap() + "\n"
}

fn replay(a: &Args) -> i32 {
    let s = std::fs::read_to_string(&a.id).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
    let id = v["property"].as_str().unwrap().to_string();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let plan: Plan = v["plan"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| (p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap() as u16))
        .collect();
    show(&id, tier, v["case"].as_str().unwrap(), &plan)
}

/// The sequences of conform/src/scen.rs on the models.
fn conform_models(a: &Args) -> i32 {
    let depth = a.id.parse().unwrap_or(4);
    let mut stacks = vec![];
    for s in conform::all(depth) {
        let q = s.clone();
        let c = util::case(s.name(), mccore::explore::Bounds::none(), move || {
            let q = q.clone();
            async move { Ok(q.run().await) }
        });
        let e = run_plan(&c, &vec![], false, &mut stacks);
        println!("{} => {}", s.name(), e.outcome.unwrap_or_else(|e| e));
    }
    0
}

fn run_one(a: &Args) -> i32 {
    let plan: Plan = a
        .opts
        .get("plan")
        .map(|p| {
            p.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (i, j) = x.split_once(':').unwrap();
                    (i.parse().unwrap(), j.parse().unwrap())
                })
                .collect()
        })
        .unwrap_or_default();
    show(&a.id, a.tier, a.opts.get("case").map(|s| s.as_str()).unwrap_or(""), &plan)
}

struct TraceLog;
impl log::Log for TraceLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        mccore::tracing()
    }
    fn log(&self, r: &log::Record) {
        mccore::log(|| format!("    {}: {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}

fn show(id: &str, tier: Tier, case: &str, plan: &Plan) -> i32 {
    let _ = log::set_logger(&TraceLog);
    log::set_max_level(log::LevelFilter::Debug);
    let prop = find(id).expect("property");
    let cases = (prop.cases)(tier);
    let Some(c) = cases.iter().find(|c| c.name == case) else {
        eprintln!("no case {case}; there are:");
        for c in &cases {
            eprintln!("  {}", c.name);
        }
        return 2;
    };
    let e = run_plan(c, plan, true, &mut vec![]);
    for l in &e.log {
        println!("{l}");
    }
    println!("outcome {:?}", e.outcome);
    println!("panics {:?}", e.panics);
    if let Some(d) = &e.diverged {
        println!("diverged: {d}");
    }
    println!("{} decisions, {} steps, {} polls, {} tasks, virtual time {} ms", e.decisions.len(), e.steps, e.polls, e.tasks, e.now / 1_000_000);
    match verdict(c, &e) {
        Some(m) => {
            println!("VIOLATED: {m}");
            1
        }
        None => 0,
    }
}
