//! The two commands as processes.
use crate::pipe;
use crate::selfhost::own;
use crate::streams::{self, mixed, printed};
use harn::{guard, note, Run, Stats};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use vref::elab::elab;
use vref::gen;
use vref::syntax::{self, Layout};

#[derive(Debug, Clone, PartialEq)]
pub struct Ran {
    pub status: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

pub enum To {
    Pipe,
    /// a device that accepts nothing
    Full,
    /// closed at the other end
    Gone,
}

pub fn command(var: &str, input: &[u8], to: To) -> Result<Ran, String> {
    let exe = std::env::var(var).map_err(|_| format!("{} is not set", var))?;
    let mut c = Command::new("sh");
    // a runaway process ends itself
    c.args(["-c", "ulimit -t 60; ulimit -c 0; ulimit -s 2000000 2>/dev/null || ulimit -s unlimited; exec \"$0\"", &exe]).env_remove("RUST_BACKTRACE").stdin(Stdio::piped()).stderr(Stdio::piped());
    match to {
        To::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?),
        _ => c.stdout(Stdio::piped()),
    };
    // One at a time: another child, between its fork and its exec, would hold this one's pipes
    // open, and a pipe meant to be closed would still have a reader.
    static SPAWN: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let mut p = {
        let _one = SPAWN.lock().unwrap_or_else(|e| e.into_inner());
        let mut p = c.spawn().map_err(|e| e.to_string())?;
        if let To::Gone = to {
            drop(p.stdout.take());
        }
        p
    };
    let mut i = p.stdin.take().unwrap();
    let data = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let mut e = p.stderr.take().unwrap();
    let r = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    if let Some(mut o) = p.stdout.take() {
        let _ = o.read_to_end(&mut out);
    }
    let st = p.wait().map_err(|e| e.to_string())?;
    let _ = w.join();
    let err = r.join().unwrap_or_default();
    Ok(Ran { status: st.code(), signal: st.signal(), out, err })
}

/// What the library makes of a text: code or a message.
fn chomp_says(text: &str) -> Result<Result<String, String>, String> {
    pipe::reset_spans();
    guard(|| match pipe::parse(text) {
        Err(e) => Err(e.to_string()),
        Ok(s) => {
            let f = pipe::full(s, true);
            match f.diag() {
                Some(d) => Err(d.msg.clone()),
                None => Ok(format!("{:#}", f.code.as_ref().unwrap())),
            }
        }
    })
}
/// What the command writes for a text, and whether it is content with it.
pub fn written(text: &str) -> Result<(String, bool), String> {
    command("VERIF_CHOMP", text.as_bytes(), To::Pipe).map(|r| (String::from_utf8_lossy(&r.out).into_owned(), r.status == Some(0)))
}
/// Whether the command writes something else than the library generates (a hint, not a verdict).
pub fn unlike_library(text: &str) -> bool {
    match (chomp_says(text), command("VERIF_CHOMP", text.as_bytes(), To::Pipe)) {
        (Ok(Ok(code)), Ok(ran)) => ran.status != Some(0) || String::from_utf8_lossy(&ran.out).trim_end() != code.trim_end(),
        _ => false,
    }
}
fn autonibble_says(text: &str) -> Result<Result<String, String>, String> {
    pipe::reset_spans();
    guard(|| {
        own(text)
            .and_then(|e| pipe::reduce(e).map_err(|d| d.msg))
            .and_then(|e| pipe::infer(e).map_err(|d| d.msg))
            .map(|t| format!("{:#}", pipe::codegen(t)))
    })
}

fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).chars().take(1500).collect()
}

fn contract(who: &str, text: &str, said: &Result<String, String>, ran: &Ran, st: &mut Stats) {
    let fail = |what: String, st: &mut Stats| {
        st.violation(
            format!("{}: {}", who, what),
            format!("standard input:\n{}\n\nlibrary: {:?}\n\nstatus {:?} signal {:?}\nstdout: {}\nstderr: {}", text, said, ran.status, ran.signal, lossy(&ran.out), lossy(&ran.err)),
        )
    };
    match said {
        Ok(code) => {
            st.hit(&format!("{}: accepted", who));
            if ran.status != Some(0) {
                return fail(format!("exits {:?} on an accepted program", ran.status), st);
            }
            if !ran.err.is_empty() {
                return fail("writes to standard error on an accepted program".into(), st);
            }
            if String::from_utf8_lossy(&ran.out).trim_end() != code.trim_end() {
                return fail("standard output is not the code the library generates".into(), st);
            }
        }
        Err(m) => {
            st.hit(&format!("{}: rejected", who));
            if ran.status != Some(1) {
                return fail(format!("exits {:?} on a rejected program", ran.status), st);
            }
            if !ran.out.is_empty() {
                return fail("writes to standard output on a rejected program".into(), st);
            }
            let e = String::from_utf8_lossy(&ran.err);
            if e.trim_end() != m.trim_end() || m.trim().is_empty() {
                return fail(format!("standard error is {:?}, the library says {:?}", lossy(&ran.err), m), st);
            }
        }
    }
}

pub fn c18(run: Run) -> ! {
    run.par("command runs", run.scale(900, 60), |i, r, st| {
        let c = match i % 8 {
            0 => {
                let t = streams::CORPUS[(i / 8) % streams::CORPUS.len()];
                streams::Case { text: t.into(), prog: syntax::parse(t).ok(), tag: "corpus", comments: true }
            }
            1 | 2 => {
                // both commands read it
                let p = if r.chance(1, 2) { streams::well(r, true) } else { streams::damaged(r, true) };
                let lay = Layout::random(r, true);
                printed(p, r, lay, "shared")
            }
            3 => {
                let p = gen::wild_prog(r, true);
                printed(p, r, Layout::plain(), "wild")
            }
            4 => {
                let text: String = match r.below(6) {
                    0 => String::new(),
                    1 => " \n\t ".into(),
                    2 => "match".into(),
                    3 => "\u{FEFF}match \"a\";".into(),
                    4 => "match \"a\";\u{0}".into(),
                    _ => streams::scramble("let x = \"a\" | \"b\"; match x . x;", r),
                };
                streams::Case { prog: syntax::parse(&text).ok(), text, tag: "odd", comments: false }
            }
            _ => mixed(r, false),
        };
        let finite = c.prog.as_ref().map_or(false, |p| elab(p, 6_000).is_ok());
        let unparsed = c.prog.is_none();
        if !finite && !unparsed {
            st.hit("skipped: expansion too large");
            return;
        }
        note(&c.text);
        for (who, var) in [("chomp", "VERIF_CHOMP"), ("autonibble", "VERIF_AUTONIBBLE")] {
            // texts the reference parser does not read are only run when the front end rejects them
            if unparsed && (who == "chomp" && pipe::parse(&c.text).is_ok() || who == "autonibble" && !matches!(guard(|| own(&c.text)), Ok(Err(_)))) {
                st.hit("skipped: not modelled");
                continue;
            }
            let said = match if who == "chomp" { chomp_says(&c.text) } else { autonibble_says(&c.text) } {
                Ok(s) => s,
                Err(_) => {
                    st.hit("library panics (judged by C08 and C16)");
                    continue;
                }
            };
            let ran = match command(var, c.text.as_bytes(), To::Pipe) {
                Ok(r) => r,
                Err(e) => {
                    st.errors.push(e);
                    return;
                }
            };
            st.case(&format!("{} {}: {}", who, c.tag, c.text), c.text.len() > 8);
            contract(who, &c.text, &said, &ran, st);
            if i % 16 < 2 {
                if let Ok(_) = said {
                    st.hit("runs with unwritable output");
                    for (to, how) in [(To::Full, "a full device"), (To::Gone, "a closed pipe")] {
                        match command(var, c.text.as_bytes(), to) {
                            Err(e) => st.errors.push(e),
                            Ok(ran) => {
                                if ran.status != Some(1) || ran.err.is_empty() {
                                    st.violation(
                                        format!("{}: exits {:?} although its output could not be written to {}", who, ran.status, how),
                                        format!("standard input:\n{}\n\nstderr: {}", c.text, lossy(&ran.err)),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // sizes around those of buffers; the deep stack is needed for the recursion of the parsers
    let deep = Command::new("sh").args(["-c", "ulimit -s 2000000 || ulimit -s unlimited"]).stderr(Stdio::null()).status().map_or(false, |s| s.success());
    run.par("long input", if deep { run.scale(32, 10) } else { 0 }, |i, r, st| {
        let who = if i % 4 == 3 { ("autonibble", "VERIF_AUTONIBBLE") } else { ("chomp", "VERIF_CHOMP") };
        let auto = who.0 == "autonibble";
        let size = *r.pick(&[4_095usize, 4_097, 8_191, 8_193, 16_385, 65_535, 65_536, 65_537, 131_073, 300_000]);
        let size = if auto { size.min(20_000) } else { size };
        let p = if r.chance(1, 2) { streams::well(r, true) } else { streams::damaged(r, true) };
        let body = printed(p, r, Layout::plain(), "").text;
        let fill = |n: usize, r: &mut vref::rng::Rng| -> String {
            match r.below(4) {
                0 if !auto => format!("//{}\n", "x".repeat(n)),
                1 if !auto => format!("/* {} */", "é".repeat(n / 2)),
                2 => "  \n".repeat(n / 3 + 1),
                _ => " ".repeat(n),
            }
        };
        let text = match r.below(6) {
            0 => format!("{}{}", fill(size, r), body),
            1 => format!("{}{}", body, fill(size, r)),
            // something after the program, far away
            2 => format!("{}{}{}", body, fill(size, r), r.pick(&["x", "match \"a\";", ";", "\"", "let y = \"a\";"])),
            3 => {
                let at = body.find(' ').map_or(0, |k| k + 1);
                format!("{}{}{}", &body[..at], fill(size, r), &body[at..])
            }
            4 => {
                let mut v = vec![];
                let mut n = 0;
                while n < size {
                    let t = format!("let d{} = \"{}\";\n", v.len(), "ab".repeat(r.range(1, 60)));
                    n += t.len();
                    v.push(t);
                }
                let k = v.len();
                format!("{}match d{} . d{};", v.concat(), r.below(k), k - 1 + r.below(8) / 7)
            }
            _ => format!("match \"{}\" . \"b\";", "é".repeat(size / 2 - 4)),
        };
        let prog = match syntax::parse(&text) {
            Ok(p) => Some(p),
            Err(_) if !auto && pipe::parse(&text).is_err() || auto && matches!(guard(|| own(&text)), Ok(Err(_))) => None,
            Err(_) => {
                st.hit("skipped: not modelled");
                return;
            }
        };
        if prog.map_or(false, |p| elab(&p, 6_000).is_err()) {
            return;
        }
        note(&text);
        let said = match if auto { autonibble_says(&text) } else { chomp_says(&text) } {
            Ok(s) => s,
            Err(_) => return,
        };
        match command(who.1, text.as_bytes(), To::Pipe) {
            Err(e) => st.errors.push(e),
            Ok(ran) if ran.signal.is_some() => st.hit("stack exhausted on long input"),
            Ok(ran) => {
                st.case(&format!("{} long: {} bytes, {}", who.0, text.len(), body), true);
                st.hit(&format!("{}: long input {}", who.0, if said.is_ok() { "accepted" } else { "rejected" }));
                contract(who.0, &text, &said, &ran, st);
            }
        }
    });
    // characters that some programs take for the end of a text, for a mark or for nothing
    run.par("odd characters", run.scale(300, 20), |i, r, st| {
        let auto = i % 2 == 1;
        let p = if r.chance(1, 2) { streams::well(r, true) } else { gen::wild_prog(r, true) };
        let body = printed(p, r, Layout::plain(), "").text;
        if body.len() > 3_000 {
            return;
        }
        let odd: char = match r.below(4) {
            0 => *r.pick(&['\u{0}', '\u{4}', '\u{1a}', '\u{1b}', '\u{7f}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\r', '\u{c}', '\u{b}', '\u{85}', '\u{a0}', '\u{200b}', '\u{202e}', '\u{2028}', '\u{3000}']),
            1 => char::from_u32(r.below(0x20) as u32).unwrap(),
            2 => char::from_u32(0x7f + r.below(0x22) as u32).unwrap(),
            _ => char::from_u32(0x2000 + r.below(0x70) as u32).unwrap(),
        };
        let at: Vec<usize> = body.char_indices().map(|x| x.0).collect();
        let k = *r.pick(&at);
        let tail = *r.pick(&["", "x", " match \"a\";", "let", "\n", "}"]);
        let text = match r.below(6) {
            0 => format!("{}{}", odd, body),
            1 | 2 => format!("{}{}{}", body, odd, tail),
            3 => format!("{}{}{}", &body[..k], odd, &body[k..]),
            4 => format!("{}{}{}", &body[..k], odd, tail),
            _ => body.replacen('"', &format!("\"{}", odd), 1),
        };
        let small = syntax::parse(&text).map_or(false, |p| elab(&p, 6_000).is_ok());
        let refused = if auto { matches!(guard(|| own(&text)), Ok(Err(_))) } else { pipe::parse(&text).is_err() };
        if !small && !refused {
            st.hit("skipped: not modelled");
            return;
        }
        note(&text);
        let (who, var) = if auto { ("autonibble", "VERIF_AUTONIBBLE") } else { ("chomp", "VERIF_CHOMP") };
        if let Ok(said) = if auto { autonibble_says(&text) } else { chomp_says(&text) } {
            match command(var, text.as_bytes(), To::Pipe) {
                Err(e) => st.errors.push(e),
                Ok(ran) => {
                    st.case(&format!("{} odd: {}", who, text), true);
                    contract(who, &text, &said, &ran, st);
                }
            }
        }
    });
    run.par("undecodable input", run.scale(24, 4), |_, r, st| {
        let mut b = b"match \"a\";".to_vec();
        let at = r.below(b.len() + 1);
        let bad: &[&[u8]] = &[&[0xff], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0xaf], &[0x80]];
        let x: &[u8] = *r.pick(bad);
        b.splice(at..at, x.iter().copied());
        if std::str::from_utf8(&b).is_ok() {
            return;
        }
        for (who, var) in [("chomp", "VERIF_CHOMP"), ("autonibble", "VERIF_AUTONIBBLE")] {
            match command(var, &b, To::Pipe) {
                Err(e) => st.errors.push(e),
                Ok(ran) => {
                    st.case(&format!("{} {:?}", who, b), true);
                    if ran.status != Some(1) || !ran.out.is_empty() || ran.err.is_empty() || lossy(&ran.err).trim_end().lines().count() != 1 {
                        st.violation(format!("{}: {:?} on input that is not UTF-8", who, ran.status), format!("input bytes: {:?}\n{:?}", b, ran));
                    }
                }
            }
        }
    });
    run.finish(
        "runs of the two commands as processes: status, standard output and standard error against what the library says of the same text, on accepted, rejected, damaged, empty and undecodable input, with output to a pipe, a full device and a closed pipe; non-trivial: more than eight characters of input",
        &["the commands are built from the repository's main.rs files with overflow checks on", "texts the reference parser cannot read are run only when the front end rejects them"],
    )
}

/// Separate processes give the same code.
pub fn c10_processes(run: &Run) {
    run.par("separate processes", run.scale(60, 20), |i, r, st| {
        let text = if i < streams::CORPUS.len() { streams::CORPUS[i].to_string() } else if i % 4 == 1 { streams::spelled(r).text } else { printed(crate::checks::dense(r), r, Layout::plain(), "").text };
        if !syntax::parse(&text).map_or(false, |p| elab(&p, 6_000).is_ok()) {
            return;
        }
        note(&text);
        let v: Vec<_> = (0..3).map(|_| command("VERIF_CHOMP", text.as_bytes(), To::Pipe)).collect();
        for x in &v {
            match x {
                Err(e) => {
                    st.errors.push(e.clone());
                    return;
                }
                Ok(x) => {
                    if *x != *v[0].as_ref().unwrap() {
                        st.violation("two runs of the command on the same text differ", format!("program:\n{}\n\n{:?}\n\n{:?}", text, v[0], x));
                        return;
                    }
                }
            }
        }
        st.add("processes compared", 3);
        st.case(&text, true);
    });
}

