mod base1d;
mod history;
mod lanes;
mod spaces;
mod util;
use util::*;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let (mut thorough, mut seed, mut hints, mut cur, mut search) = (false, 1u64, vec![], None, 0u64);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--thorough" => thorough = true,
            "--seed" => seed = args.next().unwrap().parse().unwrap_or(1),
            "--hints" => {
                hints = args.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect();
            }
            "--search" => search = args.next().unwrap().parse().unwrap_or(60),
            "--cur" => cur = args.next(),
            "--alone" => {
                std::panic::set_hook(Box::new(|_| {}));
                return history::alone(&prop, args.next().unwrap().parse().unwrap());
            }
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, thorough, hints, cur);
    if search > 0 {
        c.start_search(search, match prop.as_str() {
            "C02" | "C07" | "C09" | "C13" => 140_000,
            "C03" => 1700,
            "C04" => 700,
            "C05" | "C06" => 3000,
            "C20" | "C21" => 700,
            _ => 5000,
        });
    }
    if matches!(prop.as_str(), "C01" | "C02" | "C07" | "C08" | "C09" | "C10" | "C12" | "C13") && search == 0 {
        base1d::single(&mut c, &prop);
    }
    if search == 0 || prop == "C26" {
        history::run(&mut c, &prop);
    }
    match prop.as_str() {
        "C01" => base1d::c01(&mut c),
        "C02" => base1d::c02(&mut c),
        "C03" => base1d::c03(&mut c),
        "C04" => base1d::c04(&mut c),
        "C05" => base1d::c05(&mut c),
        "C06" => base1d::c06(&mut c),
        "C07" => base1d::c07(&mut c),
        "C08" => base1d::c08(&mut c),
        "C09" => base1d::c09(&mut c),
        "C10" => base1d::c10(&mut c),
        "C11" => base1d::c11(&mut c),
        "C12" => base1d::c12(&mut c),
        "C13" => base1d::c13(&mut c),
        "C14" => lanes::run(&mut c, "C14"),
        "C15" => {
            lanes::run(&mut c, "C15");
            spaces::run(&mut c, "C15");
        }
        "C16" => lanes::run(&mut c, "C16"),
        "C17" | "C18" | "C19" => spaces::run(&mut c, &prop),
        "C26" => (),
        "C20" => base1d::c20(&mut c),
        "C21" => base1d::c21(&mut c),
        _ => {
            println!("{{\"error\":\"unknown property\"}}");
            std::process::exit(3);
        }
    }
    c.report(&prop);
}
