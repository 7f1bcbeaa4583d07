mod dbg;
mod props;
mod refs;
mod ship;
mod tasks;

use symcore::{ctx, env, runner, symf};

fn all_tasks(prop: &str, quick: bool) -> Vec<tasks::Task> {
    match prop {
        "C01" => props::c01::tasks(quick),
        "C02" => props::c02::tasks2(),
        "C04" => props::c02::tasks1(),
        "C14" => props::c14::tasks(quick),
        "C15" => props::c15::tasks(quick),
        "C16" => props::c16::tasks(quick),
        "C17" => props::c17::tasks(quick),
        "C18" => props::c18::tasks(),
        "C03" => props::c03::tasks(quick),
        "C05" => props::c05::tasks(quick),
        "C06" => props::c06::tasks(quick),
        "C07" => props::c07::tasks(quick),
        "C08" => props::c08::tasks(quick),
        "C11" => props::c11::tasks(quick),
        "C12" => props::c12::tasks(quick),
        _ => panic!("unknown property {prop}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&all_tasks, &a[2..]),
        Some("probe") => {
            println!("{}", props::c14::probe());
            0
        }
        Some("dump-golden") => {
            ship::dump(&a[2]);
            0
        }
        Some("replay") => runner::replay(&all_tasks, &a[2]),
        _ => {
            eprintln!("usage: symx check <property> <quick|thorough> <out.json> [filter] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

