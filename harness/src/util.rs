use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Runs the formatter, turning a panic into an error text.
pub fn fmt(src: &str, o: &hongdown::Options) -> Result<String, String> {
    match catch_unwind(AssertUnwindSafe(|| hongdown::format(src, o))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    }
}
pub fn fmt_w(src: &str, o: &hongdown::Options) -> Result<(String, Vec<(usize, String)>), String> {
    match catch_unwind(AssertUnwindSafe(|| hongdown::format_with_warnings(src, o))) {
        Ok(Ok(s)) => Ok((s.output, s.warnings.into_iter().map(|w| (w.line, w.message)).collect())),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", panic_text(p))),
    }
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) }

/// Runs f(i) for i in 0..n on all cores until `stop` returns true; results are collected in index order.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> { par_watch(n, f, &|_| ()) }
/// As `par`; calls `hung` with the index of a case that takes longer than 150 seconds.
pub fn par_watch<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync, hung: &(dyn Fn(usize) + Sync)) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let t0 = std::time::Instant::now();
    let slots: Vec<(AtomicUsize, AtomicUsize)> = (0..threads()).map(|_| Default::default()).collect();
    let live = AtomicUsize::new(threads());
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|s| {
        for slot in &slots {
            let (next, out, live, f) = (&next, &out, &live, &f);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n { break; }
                    slot.1.store(t0.elapsed().as_secs() as usize, Ordering::Relaxed);
                    slot.0.store(i + 1, Ordering::Relaxed);
                    let v = f(i);
                    slot.0.store(0, Ordering::Relaxed);
                    out.lock().unwrap().push((i, v));
                }
                live.fetch_sub(1, Ordering::Relaxed);
            }).unwrap();
        }
        let mut tick = 0;
        while live.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(5));
            tick += 1;
            if tick % 400 != 0 { continue; }
            let now = t0.elapsed().as_secs() as usize;
            for (i, since) in slots.iter().map(|s| (s.0.load(Ordering::Relaxed), s.1.load(Ordering::Relaxed))) {
                if i > 0 && now > since + 150 { hung(i - 1); }
            }
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// Delta debugging on lines, then words, then characters.
pub fn shrink(src: &str, fails: &dyn Fn(&str) -> bool) -> String {
    let mut cur = src.to_string();
    let mut budget = 4000usize;
    for unit in 0..3 {
        loop {
            let before = cur.len();
            let parts: Vec<String> = match unit {
                0 => cur.split_inclusive('\n').map(|x| x.to_string()).collect(),
                1 => cur.split_inclusive(' ').map(|x| x.to_string()).collect(),
                _ => cur.chars().map(|x| x.to_string()).collect(),
            };
            let mut keep = parts;
            let mut size = (keep.len() / 2).max(1);
            while size >= 1 {
                let mut i = 0;
                while i < keep.len() {
                    if budget == 0 { return cur; }
                    budget -= 1;
                    let end = (i + size).min(keep.len());
                    let cand: String = keep[..i].iter().chain(keep[end..].iter()).cloned().collect();
                    if cand.len() < cur.len() && fails(&cand) {
                        keep.drain(i..end);
                        cur = cand;
                    } else {
                        i = end;
                    }
                }
                if size == 1 { break; }
                size /= 2;
            }
            if cur.len() == before { break; }
        }
    }
    cur
}

// ---------------------------------------------------------------- cases that end the process
static NOTES: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
static SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MINE: usize = SLOT.fetch_add(1, Ordering::Relaxed) % 4096; }
const NOTE: usize = 96;
/// Writes down which case this thread is about to run, for the parent process to read if it never ends.
pub fn note_case(section: &str, index: usize) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = NOTES.get_or_init(|| std::env::var("HDMON_NOTES").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok())) {
        let _ = f.write_at(format!("{:<w$}\n", format!("{index} {section}"), w = NOTE - 1).as_bytes(), (MINE.with(|m| *m) * NOTE) as u64);
    }
}
/// Runs `hdmon run <args>` and gives its exit code, or the cases that were running when it was killed.
pub fn supervised(args: &[String]) -> Result<i32, (String, Vec<(String, usize)>)> {
    let p = std::env::temp_dir().join(format!("hdmon-{}", std::process::id()));
    std::fs::write(&p, "").expect("notes");
    let st = std::process::Command::new(std::env::current_exe().expect("exe")).arg("run").args(args).env("HDMON_NOTES", &p).status().expect("spawn");
    let t = std::fs::read(&p).unwrap_or_default();
    let _ = std::fs::remove_file(&p);
    if let Some(c) = st.code() { return Ok(c); }
    let mut v: Vec<(String, usize)> = String::from_utf8_lossy(&t).replace('\0', "").lines().filter_map(|l| l.trim_end().split_once(' ').and_then(|(i, s)| Some((s.to_string(), i.parse().ok()?)))).collect();
    v.reverse();
    v.truncate(24);
    Err((st.to_string(), v))
}
