mod abs;
mod alloc;
mod class;
mod gen;
mod mk;
mod text;
mod util;
mod vals;

fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).unwrap_or_else(|| panic!("argument {i} missing")).as_str();
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    let run = || match arg(1) {
        "replay-buf" => text::replay_buf(arg(2)),
        "replay-validate" => text::replay_validate(arg(2)),
        "replay-mutf8" => text::replay_mutf8(arg(2)),
        "sweep-wtf8" => text::sweep(arg(2), num(3) as usize, num(4)),
        "run-bytes" => { if arg(4) != "any" { class::in_pieces(); } class::run_bytes(arg(2), arg(3), arg(4)); 0 }
        "run-deep" => { class::run_deep(arg(2), arg(3)); 0 }
        "run-limits" => { class::run_limits(arg(2), arg(3)); 0 }
        "run-values" => { class::in_pieces(); class::run_values(arg(2), arg(3)); 0 }
        "record-values" => { class::in_pieces(); gen::record(num(2), num(3) as usize, arg(4), arg(5)); 0 }
        "record-corrupt" => { gen::record_corrupt(num(2), num(3) as usize, num(4) as usize, arg(5), arg(6)); 0 }
        "corrupt-file" => { gen::corrupt_file(arg(2), arg(3), num(4), num(5) as usize); 0 }
        "run-cases" => { vals::run_cases(arg(2), arg(3)); 0 }
        "record-cases" => { vals::record(num(2), num(3) as usize, arg(4), arg(5)); 0 }
        "record-buf" => { text::record_buf(num(2), num(3) as usize, arg(4)); 0 }
        "record-text" => { text::record_text(num(2), num(3) as usize, arg(4)); 0 }
        c => { eprintln!("unknown command {c}"); 64 }
    };
    match util::guard(run) {
        Ok(code) => std::process::exit(code),
        Err(m) => {
            eprintln!("ended by a panic: {}", m.chars().take(3000).collect::<String>());
            std::process::exit(101);
        }
    }
}
