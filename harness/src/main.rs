//! Runtime monitors of the zarr crate: `zv <property> [options]`.

// The plain and the restricted builds leave parts of the helpers unused.
// Variadic arguments are passed like fixed ones here.
#![allow(invalid_runtime_symbol_definitions)]
#![cfg_attr(any(feature = "plain", not(feature = "native")), allow(dead_code))]

#[macro_use]
mod types;

mod arena;
mod gen;
mod lz4ref;
mod mem;
mod props;
mod report;
mod rng;
mod tree;
mod world;
#[cfg(not(feature = "plain"))]
mod sched;
#[cfg(not(feature = "plain"))]
mod sys;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use serde_json::json;
use std::io::Write;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// Options and context of the running case.
/// The system's allocator, and how much is allocated with it.
struct Counting;

static ALLOCATED: AtomicUsize = AtomicUsize::new(0);
static MOST_ALLOCATED: AtomicUsize = AtomicUsize::new(0);

fn allocated(more: usize, less: usize) {
    let before = if more >= less {
        ALLOCATED.fetch_add(more - less, Relaxed)
    } else {
        ALLOCATED.fetch_sub(less - more, Relaxed)
    };
    let now = before.wrapping_add(more).wrapping_sub(less);
    if now > MOST_ALLOCATED.load(Relaxed) {
        MOST_ALLOCATED.fetch_max(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        allocated(l.size(), 0);
        System.alloc(l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        allocated(l.size(), 0);
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        allocated(0, l.size());
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Both can be there while the value is moved.
        allocated(n, l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// The most that was allocated at one time more than before.
pub fn most_allocated<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = ALLOCATED.load(Relaxed);
    MOST_ALLOCATED.store(before, Relaxed);
    let t = f();
    (t, MOST_ALLOCATED.load(Relaxed).saturating_sub(before))
}

pub struct Cx {
    pub thorough: bool,
    pub seed: u64,
    pub index: u64,
    pub scratch: PathBuf,
    case_dir: Option<PathBuf>,
    pub only: Option<u64>,
    pub verbose: bool,
    /// Files exchanged with another build.
    pub exchange: Option<PathBuf>,
    /// The part of a check of several stages.
    pub stage: u64,
    pub py: Option<props::c02::Python>,
}

impl Cx {
    /// A new directory for this case, removed after it.
    pub fn dir(&mut self) -> PathBuf {
        if self.case_dir.is_none() {
            let d = self.scratch.join(format!("c{}", self.index));
            std::fs::create_dir_all(&d).expect("HARNESS: scratch directory");
            self.case_dir = Some(d);
        }
        self.case_dir.clone().unwrap()
    }

    /// A new directory name (not created) below the case's directory.
    pub fn sub(&mut self, name: &str) -> PathBuf {
        self.dir().join(name)
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).cloned().unwrap_or_default();
    if name == "--list" {
        props::PROPS.iter().for_each(|p| println!("{}", p.id));
        return;
    }
    let prop = match props::PROPS.iter().find(|p| p.id == name) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", name);
            std::process::exit(2);
        }
    };
    let num = |n: &str, d: u64| arg(&args, n).map_or(d, |v| v.parse().expect("number"));
    let thorough = arg(&args, "--tier").map_or(false, |t| t == "thorough");
    let seed = num("--seed", 1);
    let shard = num("--shard", 0);
    let shards = num("--shards", 1);
    let scratch = PathBuf::from(arg(&args, "--scratch").expect("--scratch"));
    let only = arg(&args, "--only").map(|v| v.parse().expect("number"));
    let count = num("--count", if thorough { u64::MAX } else { prop.quick });
    let secs = num("--secs", if thorough { 120 } else { 60 });
    let progress = scratch.join("progress");
    std::fs::create_dir_all(&scratch).expect("scratch");
    let scratch = scratch.canonicalize().expect("scratch");

    types::install_panic_hook();
    #[cfg(not(feature = "plain"))]
    match arg(&args, "--stage").and(arg(&args, "--exchange")) {
        // Stages share hierarchies.
        Some(e) => sys::set_guard(PathBuf::from(e).canonicalize().expect("exchange").parent().expect("exchange")),
        None => sys::set_guard(&scratch),
    }

    let mut rep = report::Report::default();
    let mut cx = Cx {
        thorough,
        seed,
        index: 0,
        scratch: scratch.clone(),
        case_dir: None,
        only,
        verbose: args.iter().any(|a| a == "-v"),
        exchange: arg(&args, "--exchange").map(PathBuf::from),
        stage: num("--stage", 0),
        py: None,
    };
    let start = Instant::now();
    let mut index = shard;
    let mut done = 0;
    let name_hash = rng::hash_bytes(prop.id.as_bytes());
    while index < count || only.is_some() {
        if let Some(o) = only {
            index = o;
        }
        // Directed cases come first, and the time limit only ends the random ones.
        if start.elapsed() > Duration::from_secs(secs) && index >= prop.directed {
            break;
        }
        std::fs::write(&progress, format!("{}", index)).expect("HARNESS: progress");
        let mut r = rng::Rng::new(rng::mix(seed) ^ name_hash ^ rng::mix(index.wrapping_add(77)));
        cx.index = index;
        cx.case_dir = None;
        rep.case = json!({"property": prop.id, "seed": seed, "index": index, "features": props::features()});
        rep.case_violated = false;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.case)(&mut cx, &mut r, &mut rep)));
        if let Err(e) = res {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("HARNESS") {
                eprintln!("case {}: {}", index, msg);
                std::process::exit(4);
            }
            rep.violation(format!("an operation the case relies on failed: {}", msg));
        }
        #[cfg(not(feature = "plain"))]
        for v in sys::take_guard_events() {
            rep.violation(v);
        }
        if let Some(d) = cx.case_dir.take() {
            if cx.verbose {
                eprintln!("case directory kept: {}", d.display());
            } else {
                tree::remove(&d, &scratch);
            }
        }
        done += 1;
        if rep.full() || only.is_some() {
            break;
        }
        index += shards;
    }
    rep.add("cases", done);
    rep.add("ms", start.elapsed().as_millis() as u64);
    let out = rep.to_json();
    match arg(&args, "--out") {
        Some(p) => {
            let mut f = std::fs::File::create(p).expect("out");
            f.write_all(out.to_string().as_bytes()).expect("out");
        }
        None => {
            let mut o = out;
            o["distinct"] = json!(o["distinct"].as_array().unwrap().len());
            for (_, v) in o["sets"].as_object_mut().unwrap() {
                *v = json!(v.as_array().unwrap().len());
            }
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
        }
    }
}
