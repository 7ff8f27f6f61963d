mod check;
mod exec;
mod gen;
mod genesis;
mod model;
mod model2;
mod natives;
mod ops;
mod prng;
mod run;
mod state;
mod sv;
mod world;

fn opt(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num<T: std::str::FromStr>(a: &[String], k: &str, d: T) -> T {
    opt(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn main() {
    if std::env::var("SIM_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().cloned().unwrap_or_default();
    let code = match cmd.as_str() {
        "run" => run::batch(&run::Args {
            prop: opt(&a, "--prop").expect("--prop"),
            tier: opt(&a, "--tier").unwrap_or("quick".into()),
            master: num(&a, "--seed", 1),
            secs: num(&a, "--secs", 20.0),
            max: num(&a, "--max", u64::MAX),
            threads: num(&a, "--threads", 8),
            evidence: opt(&a, "--evidence"),
            replays: opt(&a, "--replays").unwrap_or("/verif/work/replays".into()),
            known: opt(&a, "--known"),
        }),
        "mkknown" => {
            let (k, p, f, n) = (a[1].clone(), a[2].clone(), a[3].clone(), num(&a, "--n", 200));
            std::thread::Builder::new()
                .stack_size(run::STACK)
                .spawn(move || run::mkknown(&k, &p, &f, n))
                .unwrap()
                .join()
                .unwrap_or(2)
        }
        "replay" => run::replay(&a[1], a.iter().any(|x| x == "--verify")),
        "calib" => {
            run::calib(num(&a, "--n", 400), num(&a, "--from", 0), num(&a, "--secs", 1e9), num(&a, "--threads", 8));
            0
        }
        "trace" => {
            let (p, i, n) = (a[1].clone(), a[2].parse().unwrap(), num(&a, "--last", 40));
            let m = num(&a, "--seed", 1);
            std::thread::Builder::new()
                .stack_size(run::STACK)
                .spawn(move || run::trace(&p, m, i, n))
                .unwrap()
                .join()
                .ok();
            0
        }
        _ => {
            eprintln!("usage: blendsim run|replay|calib|trace");
            2
        }
    };
    std::process::exit(code);
}
