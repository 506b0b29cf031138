//! A bounded comparison of the real crate with a reference implementation.
//!
//!     oracle search PROPERTY SEED MILLIS OUT.json
//!     oracle replay PROPERTY FILE.json
mod cases;
mod fault;
mod gen;
mod machine;
mod model;
mod tables;

use std::collections::HashSet;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use cases::Case;

fn quote(text: &str) -> String {
    let mut out = String::from("\"");
    for c in text.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            c if (c as u32) < 32 => out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

fn cut(text: &str, limit: usize) -> String {
    if text.chars().count() > limit {
        text.chars().take(limit).collect::<String>() + "..."
    } else {
        text.to_string()
    }
}

/// The first difference, for long results.
fn difference(expected: &str, actual: &str) -> (String, String) {
    if expected.len() < 600 && actual.len() < 600 {
        return (expected.into(), actual.into());
    }
    let at = expected.chars().zip(actual.chars()).take_while(|(a, b)| a == b).count();
    let from = at.saturating_sub(40);
    let part = |text: &str| cut(&text.chars().skip(from).collect::<String>(), 300);
    (format!("... {}", part(expected)), format!("... {}", part(actual)))
}

struct Failure {
    case: Case,
    expected: String,
    actual: String,
}

#[derive(Default)]
struct Tally {
    evaluations: usize,
    enumerated: usize,
    seen: HashSet<u64>,
    samples: Vec<String>,
}

fn report(property: &str, seed: u64, tally: &Tally, failure: Option<&Failure>, out: &str) {
    let samples: Vec<String> = tally.samples.iter().map(|s| quote(s)).collect();
    let failure_text = match failure {
        Some(f) => {
            let (expected, actual) = difference(&f.expected, &f.actual);
            format!(
                ",\n \"failure\": {{\"case\": {}, \"expected\": {}, \"actual\": {}}}",
                quote(&f.case.text()),
                quote(&expected),
                quote(&actual)
            )
        }
        None => String::new(),
    };
    let text = format!(
        "{{\"status\": {}, \"property\": {}, \"seed\": {seed}, \"evaluations\": {}, \"enumerated\": {}, \"distinct\": {}, \"rule\": {}, \"samples\": [{}]{failure_text}}}\n",
        quote(if failure.is_some() { "violation" } else { "ok" }),
        quote(property),
        tally.evaluations,
        tally.enumerated,
        tally.seen.len(),
        quote(gen::rule(property)),
        samples.join(", "),
    );
    std::fs::write(out, text).unwrap();
}

fn hash(text: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut hasher);
    hasher.finish()
}

fn case_at(property: &str, seed: u64, list: &[Case], index: usize) -> Case {
    match list.get(index) {
        Some(case) => case.clone(),
        None => {
            let mut rng = gen::Rng::new(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (index as u64) << 20);
            gen::random(property, &mut rng)
        }
    }
}

fn differs(case: &Case) -> Option<(String, String)> {
    cases::evaluate(case).filter(|(expected, actual)| expected != actual)
}

/// Leave out what is not needed for the two to differ.
fn shrink(failure: Failure) -> Failure {
    let mut best = failure;
    if matches!(best.case.kind.as_str(), "shifted" | "font" | "safe" | "safe_part" | "fault" | "run") || best.case.m != 0 {
        return best;
    }
    let start = Instant::now();
    let mut step = best.case.data.len() / 2;
    while step > 0 && start.elapsed() < Duration::from_secs(2) {
        let mut at = 0;
        while at + step <= best.case.data.len() && start.elapsed() < Duration::from_secs(2) {
            let mut case = best.case.clone();
            case.data.drain(at..at + step);
            match differs(&case) {
                Some((expected, actual)) => best = Failure { case, expected, actual },
                None => at += step,
            }
        }
        step /= 2;
    }
    best
}

/// Runs in a process of its own, as the crate may take the process down.
fn work(property: &str, seed: u64, millis: u64, state: &str, out: &str, skip: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let list = gen::enumerated(property);
    let mut tally = Tally { enumerated: list.len(), ..Default::default() };
    let mut index = if skip { list.len() } else { 0 };
    use std::os::unix::fs::FileExt;
    let file = std::fs::File::create(state).unwrap();
    // Another process has found something.
    let stop = std::env::var_os("ORACLE_STOP").map(std::path::PathBuf::from);
    let mut failure = None;
    while index < list.len() || start.elapsed() < Duration::from_millis(millis) {
        if index % 64 == 0 && stop.as_ref().is_some_and(|path| path.exists()) {
            break;
        }
        file.write_at(&(index as u64).to_be_bytes(), 0).unwrap();
        let case = case_at(property, seed, &list, index);
        index += 1;
        let Some((expected, actual)) = cases::evaluate(&case) else { continue };
        tally.evaluations += 1;
        if expected != "Err" {
            tally.seen.insert(hash(&case.text()));
            if tally.samples.len() < 5 && index % 97 == 1 {
                tally.samples.push(cut(&format!("{} => {}", cut(&case.text(), 200), expected), 400));
            }
        }
        if expected != actual {
            if let Some(path) = &stop {
                let _ = std::fs::write(path, "");
            }
            failure = Some(shrink(Failure { case, expected, actual }));
            break;
        }
        // Enumerations come first, and are long at most.
        if index < list.len() && start.elapsed() > Duration::from_secs(60) {
            break;
        }
    }
    report(property, seed, &tally, failure.as_ref(), out);
}

const PATIENCE: Duration = Duration::from_secs(20);

fn search(property: &str, seed: u64, millis: u64, out: &str, skip: bool) {
    let state = format!("{out}.state");
    let _ = std::fs::remove_file(out);
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 16000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(["work", property, &seed.to_string(), &millis.to_string(), &state, out])
        .args(skip.then_some("random"))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let read = || -> u64 {
        std::fs::read(&state).ok().filter(|d| d.len() == 8).map(|d| u64::from_be_bytes(d.try_into().unwrap())).unwrap_or(0)
    };
    let mut last = (u64::MAX, Instant::now());
    let why = loop {
        if let Some(status) = child.try_wait().unwrap() {
            if status.success() {
                break None;
            }
            break Some(format!("the process ended with {status}"));
        }
        let now = read();
        if now != last.0 {
            last = (now, Instant::now());
        } else if last.1.elapsed() > PATIENCE && std::path::Path::new(&state).exists() {
            let _ = child.kill();
            let _ = child.wait();
            break Some(format!("no result within {} s", PATIENCE.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if let Some(why) = why {
        let list = gen::enumerated(property);
        let index = read() as usize;
        let case = case_at(property, seed, &list, index);
        let failure = Failure { case, expected: "a result".into(), actual: why };
        let tally = Tally { evaluations: index + 1, enumerated: list.len(), ..Default::default() };
        report(property, seed, &tally, Some(&failure), out);
    }
    let _ = std::fs::remove_file(&state);
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    let Some((_, rest)) = text.split_once("\"case\": \"") else {
        println!("no case in {file}");
        return 2;
    };
    let case = Case::parse(rest.split('"').next().unwrap()).expect("a case");
    println!("case: {}", cut(&case.text(), 2000));
    match cases::evaluate(&case) {
        Some((expected, actual)) => {
            println!("expected: {expected}\nactual:   {actual}");
            (expected != actual) as i32
        }
        None => 0,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "search" => search(arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5), arg(6) == "random"),
        "work" => work(arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5), arg(6), arg(7) == "random"),
        "replay" => std::process::exit(replay(arg(3))),
        _ => {
            eprintln!("oracle search PROPERTY SEED MILLIS OUT | oracle replay PROPERTY FILE");
            std::process::exit(2);
        }
    }
}
