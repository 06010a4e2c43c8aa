//! Replays behaviours of the TLA+ specification into nom-sparql and records the parser's behaviour.
//!
//! stdin, one request per line, tab separated:
//!     entry  kind  text  rest  tree
//! entry  Q (sparql_query_stmt), U (update, through the guarded hook), S (sparql_query), A (ask_query),
//!        C (construct_query), B (sub_construct), T (sub_triples), D (describe_query), H (a helper
//!        function), or E and V (compare the results of two queries or updates)
//! kind   ok   accepted, with this tree, and with this remainder (modulo leading layout)
//!        err  refused
//!        not  not accepted whole
//!        any  returns at all
//! text, rest and tree are escaped (\n \r \t \\), the tree is joined by U+001F.
//!
//! For every request, whatever its kind, the harness also checks that the parser returns, that a
//! second call answers the same, that the remainder is a suffix of the input, and that parsing
//! just the consumed part answers the same with nothing left over.
//!
//! stdout: one JSON object per failure, and a final {"done":..}.  With `--sessions N --rounds R`, one
//! JSON object per N requests instead: the history of the calls made with them, for validation by TLC.
//! A request that does not return within `--limit` seconds ends the process with {"hang":line}.
mod helpers;
mod tree;

use nom_sparql::parser::{sparql_query, sparql_query_stmt};
use nom_sparql::prologue::Prologue;
use nom_sparql::query::ask::ask_query;
use nom_sparql::query::construct::{construct_query, sub_construct, sub_triples};
use nom_sparql::query::describe::describe_query;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const STACK: usize = 1 << 30;

fn unescape(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn json(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Skips white space and comments, as the specification defines them.
fn skip_layout(mut s: &str) -> &str {
    loop {
        s = s.trim_start_matches(|c| c == ' ' || c == '\t' || c == '\r' || c == '\n');
        if !s.starts_with('#') {
            return s;
        }
        s = match s.find(|c| c == '\n' || c == '\r') {
            Some(n) => &s[n..],
            None => "",
        }
    }
}

/// What one call of a parser did.
#[derive(Clone, PartialEq, Debug)]
enum Seen {
    /// remainder, its offset in the input (None: not a part of it), tree
    Ok(String, Option<usize>, Vec<String>),
    /// where in the input (None: not in it)
    Refused(Option<usize>),
    Incomplete,
    Panic(String),
}

fn offset(whole: &str, part: &str) -> Option<usize> {
    let (w, p) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    if part.is_empty() && !(w..=w + whole.len()).contains(&p) {
        return Some(whole.len());
    }
    let o = p.checked_sub(w)?;
    if o + part.len() == whole.len() {
        Some(o)
    } else {
        None
    }
}

/// Where a part of the input starts.
fn place(whole: &str, part: &str) -> Option<usize> {
    let (w, p) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    match p.checked_sub(w) {
        Some(o) if o + part.len() <= whole.len() => Some(o),
        _ if part.is_empty() => Some(whole.len()),
        _ => None,
    }
}

fn see<T>(text: &str, r: Result<nom::IResult<&str, T>, String>, f: impl FnOnce(&mut tree::Out, &T)) -> Seen {
    match r {
        Ok(Ok((rest, x))) => {
            let mut o = tree::Out::default();
            f(&mut o, &x);
            Seen::Ok(rest.to_string(), offset(text, rest), o.0)
        }
        Ok(Err(nom::Err::Incomplete(_))) => Seen::Incomplete,
        Ok(Err(nom::Err::Error((at, _)))) | Ok(Err(nom::Err::Failure((at, _)))) => Seen::Refused(place(text, at)),
        Err(p) => Seen::Panic(p),
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Applies a macro to an entry, its parser and its projection.
macro_rules! each_entry {
    ($entry:expr, $m:ident) => {
        match $entry {
            "U" => $m!(nom_sparql::verif_hooks::update, update),
            "S" => $m!(sparql_query, query),
            "A" => $m!(ask_query, ask),
            "C" => $m!(construct_query, construct),
            "B" => $m!(sub_construct, construct_long),
            "T" => $m!(sub_triples, construct_short),
            "D" => $m!(describe_query, describe),
            _ => $m!(sparql_query_stmt, query_statement),
        }
    };
}

fn call(entry: &str, text: &str) -> Seen {
    macro_rules! go {
        ($f:path, $p:ident) => {
            see(text, guarded(|| $f(text)), |o, x| o.$p(x))
        };
    }
    each_entry!(entry, go)
}

/// The second call, compared by the crate's own equality and by its debug form; so is a copy.
fn same_again(entry: &str, text: &str) -> bool {
    macro_rules! go {
        ($f:path, $p:ident) => {{
            let (a, b) = ($f(text), $f(text));
            let c = a.clone();
            a == b && c == a && !(a != b) && {
                let d = format!("{:?}", a);
                d == format!("{:?}", b) && d == format!("{:?}", c)
            }
        }};
    }
    each_entry!(entry, go)
}

/// Do the results of two texts compare equal?  Both ways round, by the crate's equality; None: not both accepted.
fn compare(entry: &str, one: &str, two: &str) -> Option<[bool; 4]> {
    macro_rules! go {
        ($f:path, $p:ident) => {
            match ($f(one), $f(two)) {
                (Ok((_, a)), Ok((_, b))) => Some([a == b, b == a, !(a != b), format!("{:?}", a) == format!("{:?}", b)]),
                _ => None,
            }
        };
    }
    each_entry!(if entry == "V" { "U" } else { "Q" }, go)
}

/// Results kept to be compared with all that follow.
struct Pool<T> {
    kept: Vec<(String, u64, T, u64)>,
}

impl<T: PartialEq> Pool<T> {
    /// Adds a result; the line of an earlier one that does not compare with it as their trees do.
    fn add(&mut self, tree: &str, debug: String, x: T, line: u64) -> Option<(u64, bool)> {
        let d = debug.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let odd = self.kept.iter().find(|(t, e, y, _)| {
            let same = t == tree;
            (x == *y) != same || (*e == d) != same || ((same || (d ^ e) % 16 == 0) && ((*y == x) != same || (x != *y) == same))
        });
        let found = odd.map(|(t, _, _, l)| (*l, t == tree));
        self.kept.push((tree.to_string(), d, x, line));
        found
    }
}

/// What the query says of itself through the public entry without prologue and VALUES.
fn inner_agrees(text: &str) -> Result<(), String> {
    let (_, stmt) = match sparql_query_stmt(text) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let empty: bool = {
        let Prologue { .. } = &stmt.prologue;
        let mut o = tree::Out::default();
        o.prologue_of(&stmt);
        o.0.len() == 2
    };
    if !empty {
        return Ok(());
    }
    match sparql_query(skip_layout(text)) {
        Ok((_, q)) if q == stmt.query => Ok(()),
        Ok(_) => Err("sparql_query returns another query".into()),
        Err(_) => Err("sparql_query refuses the query".into()),
    }
}

struct Verdict {
    why: String,
    got: Seen,
}

fn judge(entry: &str, kind: &str, text: &str, rest: &str, tree: &str) -> Result<Seen, Verdict> {
    if entry == "H" {
        let got = match guarded(|| helpers::call(text)) {
            Ok(t) => Seen::Ok(String::new(), Some(text.len()), t),
            Err(p) => Seen::Panic(p),
        };
        return match &got {
            Seen::Ok(_, _, t) if t.join("\u{1f}") == tree => Ok(got),
            _ => Err(Verdict { why: "another answer".into(), got }),
        };
    }
    if entry == "E" || entry == "V" {
        let got = match guarded(|| compare(entry, text, rest)) {
            Ok(Some(v)) => Seen::Ok(String::new(), Some(text.len()), v.iter().map(|b| if *b { "same" } else { "other" }.to_string()).collect()),
            Ok(None) => Seen::Refused(Some(0)),
            Err(p) => Seen::Panic(p),
        };
        return match &got {
            Seen::Ok(_, _, t) if t.iter().all(|x| x == tree) => Ok(got),
            Seen::Ok(..) => Err(Verdict { why: format!("the results should compare as {}", tree), got }),
            _ => Err(Verdict { why: "refused".into(), got }),
        };
    }
    let got = call(entry, text);
    let fail = |why: String| Err(Verdict { why, got: got.clone() });
    match &got {
        Seen::Panic(p) => return fail(format!("panic: {}", p)),
        Seen::Incomplete => return fail("asks for more input instead of answering".into()),
        _ => {}
    }
    // the generic obligations
    if !same_again(entry, text) {
        return fail("a second call answers differently".into());
    }
    if let Seen::Ok(r, at, t) = &got {
        match at {
            None => return fail("the remainder is not a suffix of the input".into()),
            Some(at) => {
                if *at < text.len() {
                    match call(entry, &text[..*at]) {
                        Seen::Ok(r2, _, t2) if r2.is_empty() && t2 == *t => {}
                        x => return fail(format!("parsing just the consumed part answers {:?}", x)),
                    }
                }
            }
        }
        let _ = r;
    }
    if let Seen::Refused(None) = got {
        return fail("the place of the refusal is not in the text".into());
    }
    // the outcome the specification gives
    match (kind, &got) {
        ("ok", Seen::Ok(r, _, t)) => {
            if t.join("\u{1f}") != tree {
                return fail("another result".into());
            }
            if skip_layout(r) != skip_layout(rest) {
                return fail("another remainder".into());
            }
            if entry == "Q" {
                if let Err(e) = inner_agrees(text) {
                    return fail(e);
                }
            }
        }
        ("ok", _) => return fail("refused".into()),
        ("err", Seen::Ok(..)) => return fail("accepted".into()),
        ("not", Seen::Ok(r, _, _)) if skip_layout(r).is_empty() => {
            return fail("accepted whole".into())
        }
        _ => {}
    }
    Ok(got)
}

fn describe(s: &Seen) -> String {
    match s {
        Seen::Ok(r, at, t) => format!(
            "{{\"kind\":\"ok\",\"rest\":{},\"at\":{},\"tree\":{}}}",
            json(r),
            at.map(|n| n as i64).unwrap_or(-1),
            json(&t.join(" "))
        ),
        Seen::Refused(at) => format!("{{\"kind\":\"err\",\"at\":{}}}", at.map(|n| n as i64).unwrap_or(-1)),
        Seen::Incomplete => "{\"kind\":\"incomplete\"}".into(),
        Seen::Panic(p) => format!("{{\"kind\":\"panic\",\"msg\":{}}}", json(p)),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |name: &str, default: u64| -> u64 {
        let at = args.iter().position(|a| a == name);
        at.and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(default)
    };
    let record = arg("--sessions", 0) as usize;
    let rounds = arg("--rounds", 0) as usize;
    let limit = Duration::from_secs(arg("--limit", 30));
    std::panic::set_hook(Box::new(|_| {}));
    let now = Arc::new(AtomicU64::new(0));
    let seen = now.clone();
    let worker = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let stdin = std::io::stdin();
            let mut out = std::io::BufWriter::new(std::io::stdout());
            let (mut n, mut bad, mut accepted) = (0u64, 0u64, 0u64);
            let mut batch: Vec<(String, String, u64)> = Vec::new();
            let mut histories: Vec<History> = Vec::new();
            let (mut queries, mut updates) = (Pool { kept: Vec::new() }, Pool { kept: Vec::new() });
            for line in stdin.lock().lines() {
                let line = line.expect("utf-8 input");
                n += 1;
                now.store(n, Ordering::SeqCst);
                let f: Vec<&str> = line.split('\t').collect();
                let (entry, kind) = (f[0], f[1]);
                let text = unescape(f[2]);
                let rest = unescape(f.get(3).copied().unwrap_or(""));
                let tree = unescape(f.get(4).copied().unwrap_or(""));
                if record > 0 {
                    now.store(0, Ordering::SeqCst);
                    batch.push((entry.to_string(), text, n));
                    if batch.len() == record {
                        histories.push(session(std::mem::take(&mut batch), &now));
                        let _ = writeln!(out, "{}", histories[histories.len() - 1].print());
                        let _ = out.flush();
                    }
                    continue;
                }
                if entry == "X" || entry == "Y" {
                    let found = guarded(|| {
                        if entry == "X" {
                            let (_, x) = sparql_query_stmt(&text).ok()?;
                            Some(queries.add(&tree, format!("{:?}", x), x, n))
                        } else {
                            let (_, x) = nom_sparql::verif_hooks::update(&text).ok()?;
                            Some(updates.add(&tree, format!("{:?}", x), x, n))
                        }
                    });
                    match found {
                        Ok(Some(None)) => accepted += 1,
                        Ok(Some(Some((other, same)))) => {
                            bad += 1;
                            let _ = writeln!(out, "{{\"line\":{},\"other\":{},\"same\":{},\"why\":\"compared wrongly\",\"got\":{{\"kind\":\"ok\"}}}}", n, other, same);
                        }
                        _ => {
                            bad += 1;
                            let _ = writeln!(out, "{{\"line\":{},\"why\":\"refused\",\"got\":{{\"kind\":\"err\"}}}}", n);
                        }
                    }
                    now.store(0, Ordering::SeqCst);
                    continue;
                }
                match judge(entry, kind, &text, &rest, &tree) {
                    Ok(Seen::Ok(..)) => accepted += 1,
                    Ok(_) => {}
                    Err(v) => {
                        bad += 1;
                        let _ = writeln!(
                            out,
                            "{{\"line\":{},\"why\":{},\"got\":{}}}",
                            n,
                            json(&v.why),
                            describe(&v.got)
                        );
                        let _ = out.flush();
                    }
                }
                now.store(0, Ordering::SeqCst);
            }
            if !batch.is_empty() {
                histories.push(session(batch, &now));
                let _ = writeln!(out, "{}", histories[histories.len() - 1].print());
                let _ = out.flush();
            }
            if rounds > 0 {
                soak(&mut histories, rounds, &now);
                for h in &histories {
                    let _ = writeln!(out, "{}", h.print());
                }
            }
            let _ = writeln!(out, "{{\"done\":{},\"bad\":{},\"accepted\":{}}}", n, bad, accepted);
            let _ = out.flush();
        })
        .expect("thread");
    // watchdog
    let (mut last, mut since) = (0, Instant::now());
    while !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(2));
        let cur = seen.load(Ordering::SeqCst);
        if cur != last || cur == 0 {
            last = cur;
            since = Instant::now();
        } else if since.elapsed() > limit {
            println!("{{\"hang\":{}}}", cur);
            std::process::exit(3);
        }
    }
    if worker.join().is_err() {
        std::process::exit(4);
    }
}


fn hash(t: &[String]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in t.join("\u{1f}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

const ENTRIES: [&str; 8] = ["Q", "U", "S", "A", "C", "B", "T", "D"];

/// The parser of the form that a text seems to have.
fn form_of(text: &str) -> &'static str {
    let w: String = text.chars().take(9).collect::<String>().to_ascii_lowercase();
    match () {
        _ if w.starts_with("construct") => "C",
        _ if w.starts_with("describe") => "D",
        _ if w.starts_with("ask") => "A",
        _ if text.starts_with('{') => "B",
        _ => ["A", "B", "C", "D", "T"][text.len() % 5],
    }
}

/// One event of a history: what a call answered.
fn event(op: &str, entry: &str, id: usize, s: &Seen) -> String {
    let (kind, rest, at, tree) = match s {
        Seen::Ok(r, at, t) => ("ok", r.as_str(), at.map(|n| n as i64).unwrap_or(-1), hash(t)),
        Seen::Refused(at) => ("err", "", at.map(|n| n as i64).unwrap_or(-1), String::new()),
        Seen::Incomplete => ("incomplete", "", 0, String::new()),
        Seen::Panic(_) => ("panic", "", 0, String::new()),
    };
    format!(
        "{{\"op\":\"{}\",\"e\":\"{}\",\"id\":{},\"kind\":\"{}\",\"rest\":{},\"at\":{},\"tree\":\"{}\"}}",
        op,
        entry,
        id + 1,
        kind,
        json(rest),
        at,
        tree
    )
}

/// The parser called with a text at an address where other texts have been before.
fn call_in(buf: &mut String, entry: &str, text: &str) -> Seen {
    buf.clear();
    buf.push_str(text);
    call(entry, buf)
}

/// One history: its texts (with their line numbers), the events so far, the first answers.
struct History {
    batch: Vec<(String, String, u64)>,
    calls: Vec<(usize, &'static str)>,
    events: Vec<String>,
    first: Vec<(Seen, Duration)>,
}

impl History {
    fn print(&self) -> String {
        let texts: Vec<String> = self.batch.iter().map(|(_, t, _)| json(t)).collect();
        format!("{{\"texts\":[{}],\"events\":[{}]}}", texts.join(","), self.events.join(","))
    }
}

/// Runs a history of calls and notes what happened: every text in order, then every text again in
/// reverse order, shared between two threads, then the consumed part of every accepted text.
fn session(batch: Vec<(String, String, u64)>, now: &AtomicU64) -> History {
    let mut events: Vec<String> = Vec::new();
    let mut calls: Vec<(usize, &'static str)> = Vec::new();
    for (id, (entry, _, _)) in batch.iter().enumerate() {
        let entry = *ENTRIES.iter().find(|e| *e == entry).unwrap_or(&"Q");
        calls.push((id, entry));
        if entry == "Q" {
            calls.push((id, "S"));
            calls.push((id, form_of(&batch[id].1)));
        }
    }
    let mut parts: Vec<(usize, &str, usize)> = Vec::new();
    let mut first = Vec::new();
    for (id, entry) in &calls {
        let text = &batch[*id].1;
        now.store(batch[*id].2, Ordering::SeqCst);
        let t0 = Instant::now();
        let s = call(entry, text);
        let took = t0.elapsed();
        if let Seen::Ok(r, _, _) = &s {
            if let Some(n) = text.len().checked_sub(r.len()) {
                if text.is_char_boundary(n) {
                    parts.push((*id, entry, n));
                }
            }
        }
        events.push(event("parse", entry, *id, &s));
        first.push((s, took));
        now.store(0, Ordering::SeqCst);
    }
    // the threads report no line: a text that returned once but does not now hangs the history as a whole
    now.store(batch[0].2, Ordering::SeqCst);
    let run = |odd: usize| -> Vec<String> {
        let mut buf = String::new();
        calls
            .iter()
            .rev()
            .skip(odd)
            .step_by(2)
            .map(|(id, entry)| event("parse", entry, *id, &call_in(&mut buf, entry, &batch[*id].1)))
            .collect()
    };
    let again: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..2)
            .map(|odd| {
                let run = &run;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || run(odd))
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("caught inside")).collect()
    });
    events.extend(again.into_iter().flatten());
    for (id, entry, n) in parts {
        now.store(batch[id].2, Ordering::SeqCst);
        events.push(event("prefix", entry, id, &call(entry, &batch[id].1[..n])));
    }
    now.store(0, Ordering::SeqCst);
    History { batch, calls, events, first }
}

/// Asks every text many times more, in this one thread and in one buffer, texts of like length next to
/// each other.  Leaves one more history per history: the first answer of each call, then the first that
/// differs from it, or else the same.
fn soak(histories: &mut Vec<History>, rounds: usize, now: &AtomicU64) {
    let mut all: Vec<(usize, usize)> = Vec::new();
    for (h, x) in histories.iter().enumerate() {
        for c in 0..x.calls.len() {
            // big texts are left out: they would take all the time
            if x.first[c].1 < Duration::from_micros(400) && x.batch[x.calls[c].0].1.len() < 2000 {
                all.push((h, c));
            }
        }
    }
    all.sort_by_key(|(h, c)| histories[*h].batch[histories[*h].calls[*c].0].1.len());
    let mut differ: std::collections::HashMap<(usize, usize), Seen> = std::collections::HashMap::new();
    let mut buf = String::with_capacity(4096);
    for round in 0..rounds {
        for (h, c) in &all {
            let x = &histories[*h];
            let (id, entry) = x.calls[*c];
            now.store(x.batch[id].2, Ordering::SeqCst);
            let s = if round % 2 == 0 { call_in(&mut buf, entry, &x.batch[id].1) } else { call(entry, &x.batch[id].1) };
            if s != x.first[*c].0 {
                differ.entry((*h, *c)).or_insert(s);
            }
            now.store(0, Ordering::SeqCst);
        }
    }
    for h in histories.iter_mut() {
        h.events.clear();
        for ((id, entry), (s, _)) in h.calls.iter().zip(&h.first) {
            h.events.push(event("parse", entry, *id, s));
        }
    }
    for (h, c) in all {
        let (id, entry) = histories[h].calls[c];
        let e = event("parse", entry, id, differ.get(&(h, c)).unwrap_or(&histories[h].first[c].0));
        histories[h].events.push(e);
    }
}
