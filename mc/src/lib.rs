pub mod core;
pub mod explore;
pub mod fam;
pub mod util;
pub mod view;

use util::*;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(),
}

/// Entry point of every checker binary.
pub fn main(props: impl Fn() -> Vec<Prop> + Copy) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mc run <property> quick|thorough | mc replay <file> | mc list");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            std::process::exit(0)
        }
        Some("run") => {
            let (id, tier) = match (args.get(2), args.get(3)) {
                (Some(a), Some(b)) if b == "quick" || b == "thorough" => (a.clone(), b.clone()),
                _ => usage(),
            };
            go(props, &id, &tier, None)
        }
        Some("replay") => {
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            let text = std::fs::read_to_string(&f).unwrap_or_else(|e| {
                eprintln!("{}: {}", f, e);
                std::process::exit(2)
            });
            let field = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string())).unwrap_or_default()
            };
            let only = if field("engine") == "explore" {
                let md = field("mode");
                let mut w = md.split_whitespace().map(|x| x.parse().unwrap_or(0));
                explore::set_replay(explore::ReplaySpec {
                    cfg: field("cfg"),
                    profile: field("profile"),
                    mode: (w.next().unwrap_or(0), w.next().unwrap_or(0)),
                    strict: field("strict") == "true",
                    init: field("init"),
                    ops: text.lines().filter_map(|l| l.strip_prefix("op: ")).filter_map(core::Op::parse).collect(),
                });
                "\u{1}none".to_string()
            } else {
                field("case")
            };
            let tier = field("tier");
            go(props, &field("property"), if tier == "thorough" { "thorough" } else { "quick" }, Some(only))
        }
        _ => usage(),
    }
}

fn go(props: impl Fn() -> Vec<Prop>, id: &str, tier: &str, only: Option<String>) -> ! {
    let p = match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    let replaying = only.is_some();
    init_run(id, tier, only);
    set_meta(Meta { level: p.level, rule: p.rule, assumptions: p.assumptions });
    install_panic_hook();
    tid();
    install_signals();
    start_watchdog();
    // the checker's own deep work runs on a thread with a large stack
    let f = p.run;
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        tid();
        guard(f)
    });
    match h.map(|h| h.join()) {
        Ok(Ok(Ok(()))) => {}
        Ok(Ok(Err(m))) => fail_machinery(&format!("the engine itself panicked: {}", m)),
        _ => fail_machinery("the engine thread failed"),
    }
    if replaying && !run().only_hit.load(std::sync::atomic::Ordering::SeqCst) {
        fail_machinery("the recorded case is not part of this check's enumeration");
    }
    finish();
}
