mod adapter;
mod alloc;
#[cfg_attr(feature = "hook", allow(dead_code))]
mod dbg;
use vcore::engine::{self, Opts};
use vcore::types::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    adapter::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let num = |k: &str, d: u64| get(k, "").parse::<u64>().unwrap_or(d);
    let label: &'static str = Box::leak(get("--label", "?").into_boxed_str());
    let sut = adapter::Lib { label };
    let o = Opts {
        prop: get("--prop", ""),
        seed: num("--seed", 1),
        cases: num("--cases", 1000),
        max_secs: num("--max-secs", 600),
        out: get("--out", "/tmp/harness.out"),
        dict: get("--dict", ""),
        thorough: a.iter().any(|x| x == "--thorough"),
        shrink_secs: num("--shrink-secs", 20),
        strict: a.iter().any(|x| x == "--strict"),
    };
    let code = match a.get(1).map(|s| &s[..]) {
        Some("run") => engine::run(&sut, &o),
        Some("replay") if get("--history", "") != "" => engine::replay_history(&sut, &o, num("--history", 0) as usize, num("--case", 0)),
        Some("replay") => {
            let t = std::fs::read_to_string(get("--tape", "")).expect("tape");
            let tape = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            engine::replay(&sut, &o, tape)
        }
        Some("show") => {
            engine::show(&sut, &o, num("--from", 0), num("--n", 5));
            0
        }
        Some("exec") => {
            let d = std::fs::read(get("--file", "/dev/stdin")).expect("file");
            let mut au = Audit::default();
            println!("message: {:#?}", sut.message(&d, &mut au));
            println!("model: {:#?}", vcore::model::message(&d, sut.feats()));
            println!("email: {:#?}", sut.email(&d, 9, &mut au));
            println!("model: {:#?}", vcore::model::email(&d, sut.feats(), 9));
            0
        }
        _ => {
            eprintln!("usage: harness run|replay|show|exec --prop ID --seed N --cases N --max-secs N --out F --dict F");
            2
        }
    };
    std::process::exit(code);
}
