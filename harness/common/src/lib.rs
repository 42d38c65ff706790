//! Shared by all harness crates: trace output, seeded randomness, script input, panic capture.
use std::{
    fs::File,
    io::{BufRead, BufReader, BufWriter, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Mutex,
};

pub use serde_json::{Value, json};

/// Command line: `<bin> <driver> --out FILE [--script FILE] [--key value]...`
pub struct Args {
    pub driver: String,
    kv: Vec<(String, String)>,
}

impl Args {
    pub fn parse() -> Self {
        let mut it = std::env::args().skip(1);
        let driver = it.next().expect("driver name");
        let mut kv = vec![];
        while let Some(k) = it.next() {
            let k = k.strip_prefix("--").expect("--key").to_string();
            kv.push((k, it.next().expect("value")));
        }
        Args { driver, kv }
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.kv.iter().rev().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.get(k).map_or(default, |v| v.parse().expect("number"))
    }
    pub fn out(&self) -> Tracer {
        Tracer::new(self.get("out").expect("--out"))
    }
    /// Scripts: one JSON array of inputs per line.
    pub fn scripts(&self) -> Vec<Vec<Value>> {
        let Some(path) = self.get("script") else { return vec![] };
        BufReader::new(File::open(path).expect("script file"))
            .lines()
            .map(|l| l.unwrap())
            .filter(|l| !l.trim().is_empty())
            .map(|l| serde_json::from_str::<Vec<Value>>(&l).expect("script line"))
            .collect()
    }
}

pub struct Tracer {
    w: BufWriter<File>,
    pub episodes: u64,
    pub events: u64,
}

impl Tracer {
    pub fn new(path: &str) -> Self {
        Tracer {
            w: BufWriter::with_capacity(1 << 16, File::create(path).expect("trace file")),
            episodes: 0,
            events: 0,
        }
    }
    pub fn ev(&mut self, v: Value) {
        if v["ev"] == "Reset" {
            self.episodes += 1;
        }
        self.events += 1;
        writeln!(self.w, "{v}").expect("trace write");
    }
    pub fn flush(&mut self) {
        self.w.flush().expect("flush");
    }
}

impl Drop for Tracer {
    fn drop(&mut self) {
        self.flush();
    }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Panics of the code under test are data, not noise on stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANICS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if std::env::var_os("VP_SHOW_PANICS").is_some() {
            eprintln!("PANIC {s}");
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = s;
        }
    }));
}

/// Number of panics so far, on any thread.
pub fn panic_count() -> u64 {
    PANICS.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
