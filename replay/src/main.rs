//! Runs one harness entry as ordinary compiled Rust on recorded input values.
//! usage: replay FILE…   each file: first line the entry name (and `thorough`), then one decimal value per line.

use std::panic;

use harness::sx::imp::{Dropped, S};

fn main() {
    panic::set_hook(Box::new(|i| println!("PANIC {}", i.to_string().replace('\n', " "))));
    for file in std::env::args().skip(1) {
        let txt = std::fs::read_to_string(&file).expect("input file");
        let mut it = txt.lines();
        let mut head = it.next().expect("entry").split(' ');
        let entry = head.next().expect("entry");
        let tier = (head.next() == Some("thorough")) as u64;
        let inputs = it.filter(|l| !l.is_empty()).map(|l| l.parse::<u128>().expect("value")).collect();
        let f = harness::entries().into_iter().find(|(n, _)| *n == entry).expect("unknown entry").1;
        println!("RUN {file} {entry}");
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                S.with(|s| {
                    let mut s = s.borrow_mut();
                    s.inputs = inputs;
                    s.tier = tier;
                });
                let r = panic::catch_unwind(f);
                S.with(|s| {
                    let s = s.borrow();
                    for n in &s.notes {
                        println!("NOTE {n}");
                    }
                    for c in &s.covers {
                        println!("COVER {c}");
                    }
                    for (l, k) in &s.fails {
                        println!("FAIL {l} KNOWN={k}");
                    }
                    if s.starved {
                        println!("STARVED");
                    }
                    if !s.inputs.is_empty() {
                        println!("UNUSED {}", s.inputs.len());
                    }
                    match r {
                        Ok(()) => println!("END ok"),
                        Err(e) if e.is::<Dropped>() => println!("END {}", if s.fails.is_empty() { "dropped" } else { "fail" }),
                        Err(_) => {
                            if s.allow_panic {
                                println!("END allowed-panic")
                            } else {
                                let k = match &s.known_panic {
                                    Some((id, true)) => id.clone(),
                                    _ => String::new(),
                                };
                                println!("END panic KNOWN={k}")
                            }
                        }
                    }
                });
            })
            .unwrap()
            .join();
        if r.is_err() {
            println!("END thread-error");
        }
    }
}
