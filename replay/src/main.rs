mod util;
mod lex;
mod model;
mod values;
mod html;
mod code;
mod funcs;
mod modules;
mod tags;
mod decl;
mod patterns;
mod natives;
mod exports;
mod exprs;
use util::*;

type Oracle = fn(&mut Run);
fn oracles() -> Vec<(&'static str, Oracle)> {
    vec![
        ("C01", lex::c01 as Oracle), ("C02", lex::c02), ("C03", lex::c03), ("C04", modules::c04),
        ("C05", html::c05), ("C06", html::c06), ("C07", html::c07), ("C08", html::c08), ("C09", html::c09),
        ("C10", values::c10), ("C11", values::c11), ("C12", values::c12), ("C13", values::c13), ("C14", values::c14), ("C15", modules::c15), ("C16", modules::c16), ("C17", funcs::c17), ("C18", funcs::c18), ("C19", funcs::c19), ("C20", modules::c20), ("C21", code::c21), ("C22", funcs::c22), ("C23", lex::c23), ("C24", values::c24), ("C27", lex::c27), ("C28", tags::c28), ("C29", decl::c29), ("C30", natives::c30), ("C31", patterns::c31), ("C32", exprs::c32), ("C33", exports::c33),
    ]
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"", '\\' => out += "\\\\", '\n' => out += "\\n",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

fn print_report(run: &Run, hang: Option<String>) {
    let mut vs: Vec<String> = run.violations.iter().map(|v| format!(
        "{{\"key\":{},\"case\":{},\"expected\":{},\"got\":{}}}",
        json_str(&v.key), json_str(&v.case), json_str(&v.expected), json_str(&v.got))).collect();
    if let Some(h) = hang {
        vs.push(format!("{{\"key\":\"hang\",\"case\":{},\"expected\":\"termination\",\"got\":\"no result after 60 s\"}}", json_str(&h)));
    }
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"hook\":{},\"samples\":[{}],\"violations\":[{}]}}",
        run.evaluations, run.distinct_count(), json_str(&run.rules.join("; ")), cfg!(papyri_verif),
        run.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","), vs.join(","));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("usage: papyri-replay ID [quick|thorough] [SEED]").clone();
    let thorough = args.get(2).map_or(false, |s| s == "thorough");
    let seed: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(&(_, f)) = oracles().iter().find(|(k, _)| *k == id).or(None) else {
        eprintln!("no oracle for {id}"); std::process::exit(3);
    };
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let cur = CURRENT.lock().unwrap();
        if let Some(t) = cur.1 {
            if t.elapsed().as_secs() >= 60 {
                print_report(&Run::new(1, false), Some(cur.0.clone()));
                std::process::exit(0);
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let mut run = Run::new(seed, thorough);
        f(&mut run);
        print_report(&run, None);
    }).unwrap();
    if h.join().is_err() { std::process::exit(4); }
}
