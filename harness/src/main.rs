mod api;
mod engine;
mod glue;
mod jsongen;
mod mutate;
mod props;
mod schema;
mod tape;
mod types;
mod wiregen;

#[cfg(feature = "v2024_11_05")]
pub use rust_mcp_schema::mcp_2024_11_05 as m;
#[cfg(feature = "v2025_03_26")]
pub use rust_mcp_schema::mcp_2025_03_26 as m;
#[cfg(feature = "v2025_06_18")]
pub use rust_mcp_schema::mcp_2025_06_18 as m;
#[cfg(feature = "v2025_11_25")]
pub use rust_mcp_schema::mcp_2025_11_25 as m;
#[cfg(feature = "v2026_07_28")]
pub use rust_mcp_schema::mcp_2026_07_28 as m;
#[cfg(feature = "vdraft")]
pub use rust_mcp_schema::mcp_draft as m;
pub use m::schema_utils as u;

pub const VERSION: &str = if cfg!(feature = "v2024_11_05") {
    "2024_11_05"
} else if cfg!(feature = "v2025_03_26") {
    "2025_03_26"
} else if cfg!(feature = "v2025_06_18") {
    "2025_06_18"
} else if cfg!(feature = "v2025_11_25") {
    "2025_11_25"
} else if cfg!(feature = "v2026_07_28") {
    "2026_07_28"
} else {
    "draft"
};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn body() -> i32 {
    engine::install_panic_hook();
    let subs = props::all();
    let mode = std::env::args().nth(1).unwrap_or_default();
    match mode.as_str() {
        "run" => {
            if let Some(p) = arg("--dict") {
                let text = std::fs::read_to_string(p).expect("read dictionary");
                jsongen::set_dict(&serde_json::from_str(&text).expect("dictionary json"));
            }
            let o = engine::Opts {
                prop: arg("--prop").expect("--prop"),
                version: VERSION,
                seed: arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: arg("--tier").as_deref() == Some("thorough"),
                scale_pct: arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
                known: arg("--known").map(|p| engine::load_known(&p)).unwrap_or_default(),
                replay_dir: arg("--replay-dir").unwrap_or_else(|| "/tmp".into()),
                progress: arg("--progress"),
                only_sub: arg("--sub"),
            };
            let out = engine::run(&subs, &o);
            match arg("--out") {
                Some(p) => std::fs::write(p, out.to_string()).expect("write result"),
                None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
            }
            0
        }
        "replay" => {
            let text = std::fs::read_to_string(arg("--file").expect("--file")).expect("read replay file");
            let rep: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            jsongen::set_dict(&rep["dict"]);
            match engine::replay(&subs, &rep) {
                Ok(()) => {
                    println!("the recorded case passes now");
                    0
                }
                Err(f) => {
                    println!("still fails: {}\n{}", f.sig, f.msg);
                    1
                }
            }
        }
        "ask" => {
            let text = std::fs::read_to_string(arg("--dict").expect("--dict")).expect("read dictionary");
            jsongen::set_dict(&serde_json::from_str(&text).expect("dictionary json"));
            let text = std::fs::read_to_string(arg("--question").expect("--question")).expect("read question");
            println!("answer: {}", props::history::alone(&serde_json::from_str(&text).expect("question")));
            0
        }
        "list" => {
            for s in &subs {
                println!("{} {} quick={} thorough={}", s.prop, s.name, s.quick, s.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: run --prop ID [--tier quick|thorough] [--seed N] | replay --file F | list");
            2
        }
    }
}

fn main() {
    // deep values: run on a large stack
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}
