//! `probe`: answers the questions on its command line or, without any, on
//! standard input, one a line: `d SPACE A B STEP` for a digest, `e SPACE X` for
//! an item in full.

fn answer(line: &str) -> String {
    let p: Vec<&str> = line.split_whitespace().collect();
    let n = |i: usize| p[i].parse::<u64>().unwrap();
    match p[0] {
        "d" => format!("{:016x}", pf::digest(n(1) as usize, n(2), n(3), n(4))),
        _ => pf::explain(n(1) as usize, n(2)),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    println!("ready {} {}", usize::BITS, cfg!(target_endian = "big"));
    if a.is_empty() {
        for l in std::io::stdin().lines() {
            println!("{}", answer(&l.unwrap()));
        }
    }
    for l in a {
        println!("{}", answer(&l));
    }
}
