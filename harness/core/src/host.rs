//! Process-side plumbing shared by the monitor programs: arguments, journal, watchdog, output.

use crate::engine::BEAT;
use crate::report::esc;
use std::collections::HashMap;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;
use std::time::Instant;

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn parse() -> Args {
        let v: Vec<String> = std::env::args().skip(1).collect();
        let mut m = HashMap::new();
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = v[i].strip_prefix("--") {
                if let Some((k, x)) = k.split_once('=') {
                    m.insert(k.to_string(), x.to_string());
                } else {
                    m.insert(k.to_string(), v.get(i + 1).cloned().unwrap_or_default());
                    i += 1;
                }
            }
            i += 1;
        }
        Args(m)
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|s| s.parse().expect(k)).unwrap_or(d)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
}

/// What is being run right now, kept in a file so that a crash can be attributed.
pub struct Journal {
    f: Option<std::fs::File>,
    last: Mutex<String>,
}
impl Journal {
    pub fn new(path: &str) -> Journal {
        if cfg!(miri) && !path.is_empty() {
            if let Ok(f) = std::fs::File::create(format!("{path}.beat")) {
                let _ = crate::engine::BEAT_FILE.set(f);
            }
        }
        Journal { f: if path.is_empty() { None } else { std::fs::File::create(path).ok() }, last: Mutex::new(String::new()) }
    }
    pub fn set(&self, s: String) {
        if let Some(mut f) = self.f.as_ref() {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{s}\n#end\n").as_bytes());
        }
        *self.last.lock().unwrap() = s;
    }
    pub fn get(&self) -> String {
        self.last.lock().unwrap().clone()
    }
}

/// CPU time of this process in seconds (user + system), from /proc.
pub fn cpu_s() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
/// Peak resident set in MB
pub fn peak_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines()
        .find(|l| l.starts_with("VmHWM"))
        .and_then(|l| l.split_whitespace().nth(1))
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(0)
        / 1024
}

/// Exit code when one call into the crate burnt `limit` CPU seconds without returning.
pub const HUNG: i32 = 77;
pub fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let (mut seen, mut since) = (BEAT.load(Relaxed), cpu_s());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Relaxed);
            let c = cpu_s();
            if b != seen {
                (seen, since) = (b, c);
            } else if c - since > limit {
                eprintln!("HUNG: one operation has used {:.0} s of CPU time", c - since);
                std::process::exit(HUNG);
            }
        }
    });
}

#[derive(Clone)]
pub struct Violation {
    pub what: String,
    pub replay: String,
}
pub struct Output {
    pub violations: Vec<Violation>,
    pub counters: Vec<(String, f64)>,
    pub distinct: Vec<u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    t0: Instant,
}
impl Default for Output {
    fn default() -> Self {
        Output { violations: vec![], counters: vec![], distinct: vec![], samples: vec![], notes: vec![], t0: Instant::now() }
    }
}
impl Output {
    pub fn count(&mut self, k: &str, v: u64) {
        if let Some(c) = self.counters.iter_mut().find(|c| c.0 == k) {
            c.1 += v as f64;
        } else {
            self.counters.push((k.to_string(), v as f64));
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let k = format!("max_{k}");
        if let Some(c) = self.counters.iter_mut().find(|c| c.0 == k) {
            c.1 = c.1.max(v as f64);
        } else {
            self.counters.push((k, v as f64));
        }
    }
    /// CPU seconds used so far; capped runs also stop after ten times that much wall time.
    pub fn cpu(&self) -> f64 {
        cpu_s().max(self.elapsed() / 10.0)
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    /// Output file: JSON, plus the distinct hashes in binary next to it.
    pub fn write(&self, path: &str) {
        let viol: Vec<String> = self
            .violations
            .iter()
            .map(|v| format!("{{\"what\":{},\"replay\":{}}}", esc(&v.what), esc(&v.replay)))
            .collect();
        let cnt: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), *v as u64)).collect();
        let s = format!(
            "{{\"violations\":[{}],\"counters\":{{{}}},\"samples\":[{}],\"notes\":[{}],\"wall\":{:.2},\"cpu\":{:.2},\"peak_mb\":{}}}",
            viol.join(","),
            cnt.join(","),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.elapsed(),
            cpu_s(),
            peak_mb()
        );
        if path.is_empty() {
            println!("{s}");
            return;
        }
        let mut b = Vec::with_capacity(self.distinct.len() * 8);
        for d in &self.distinct {
            b.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(format!("{path}.distinct"), b).expect("distinct");
        std::fs::write(path, s).expect("output");
    }
}
