//! Replays inputs against the real tokenizer and parser of /repo and judges
//! them by the observable statement of a property.  Used (a) to turn a failed
//! obligation into a concrete failing input, (b) as a bounded stand-in where a
//! function could not be brought within the verifier's reach, and (c) by
//! `replay`.  It never decides a property whose obligations were all discharged.
mod fuzz;
mod oracle;
mod reflex;
use std::fs;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("dump") => {
            let sql = a[2].clone();
            big_stack(move || oracle::dump(&sql));
        }
        Some("replay") => {
            let prop = a[2].clone();
            let text = fs::read_to_string(&a[3]).expect("replay file");
            let input = fuzz::input_of_replay(&text);
            quiet_panics();
            fuzz::watchdog(20);
            let input2 = input.clone();
            let prop2 = prop.clone();
            fuzz::start_case(&input);
            let r = big_stack(move || oracle::judge(&prop2, &input2, 1));
            match r {
                Some(m) => {
                    println!("BROKEN {} {}", prop, m);
                    std::process::exit(1);
                }
                None => println!("HELD {}", prop),
            }
        }
        Some("fuzz") => {
            let args = a[2..].to_vec();
            quiet_panics();
            let rc = big_stack(move || fuzz::main(&args));
            std::process::exit(rc);
        }
        _ => {
            eprintln!("usage: bqh dump SQL | replay PROP FILE | fuzz PROP --seed N --secs N ...");
            std::process::exit(2);
        }
    }
}
