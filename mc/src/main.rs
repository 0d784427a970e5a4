mod checks;
mod cont;
mod fw;
mod lzw;
mod parts;
mod spec;
mod sys;

use fw::{Ctx, Tier};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = a
        .iter()
        .position(|x| x == "--only")
        .and_then(|i| a.get(i + 1).cloned());
    fw::install_quiet_panic_hook();
    let stack = std::thread::Builder::new().stack_size(256 << 20);
    let code = stack
        .spawn(move || {
            let Some((level, f)) = checks::lookup(&prop) else {
                eprintln!("unknown property {prop}");
                return 2;
            };
            let ctx = Ctx::new(&prop, tier, only);
            // the preparation of the explored tables runs the library too
            if let Err(e) = fw::guard(|| {
                f(&ctx);
                Ok(())
            }) {
                ctx.violation("preparation", &e, serde_json::Value::Null);
            }
            ctx.finish(level)
        })
        .unwrap()
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}
