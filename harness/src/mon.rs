//! What every monitor shares: running cases on all cores, counting what was observed, reporting.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::time::Instant;

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    pub start: Instant,
    pub evaluations: usize,
    pub distinct: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
    pub observed: BTreeMap<String, u64>,
    pub rules: Vec<String>,
    pub assumptions: Vec<String>,
    pub fails: Vec<Fail>,
    pub total_fails: usize,
    /// replay: (section, index) to run alone
    pub only: Option<(String, usize)>,
}
#[derive(Clone)]
pub struct Fail {
    pub section: String,
    pub index: usize,
    pub what: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Case {
    /// None: trivial case (the monitored condition did not arise)
    pub key: Option<u64>,
    pub sample: Option<String>,
    pub events: Vec<(&'static str, u64)>,
    /// (what, detail)
    pub fail: Option<(String, String)>,
    /// not run, because enough others had failed
    pub skipped: bool,
}
impl Case {
    pub fn new(key: &str) -> Case { Case { key: Some(hash(key)), sample: Some(key.chars().take(600).collect()), ..Default::default() } }
    pub fn trivial() -> Case { Case::default() }
    pub fn ev(&mut self, k: &'static str, n: usize) { self.events.push((k, n as u64)); }
    pub fn fail(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        if self.fail.is_none() { self.fail = Some((what.into(), detail.into())); }
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64) -> Ctx {
        Ctx { id: id.into(), tier: tier.into(), seed, level: "exploration", start: Instant::now(), evaluations: 0, distinct: HashSet::new(), samples: vec![], observed: BTreeMap::new(), rules: vec![], assumptions: vec![], fails: vec![], total_fails: 0, only: None }
    }
    pub fn quick(&self) -> bool { self.tier != "thorough" }
    /// n cases in the quick tier, mult times as many in the thorough one
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.quick() { quick } else { thorough } }

    /// Runs one family of cases; each is a function of (seed, section, index) alone.
    pub fn section(&mut self, name: &str, rule: &str, n: usize, f: impl Fn(&mut Rng, usize) -> Case + Sync) {
        self.rules.push(format!("{name}: {rule}"));
        let base = self.seed ^ hash(name);
        let idx: Vec<usize> = match &self.only {
            Some((s, i)) => if s == name { vec![*i] } else { vec![] },
            None => (0..n).collect(),
        };
        let t = Instant::now();
        let hung = |k: usize| {
            let mut c = Ctx::new(&self.id, &self.tier, self.seed);
            c.evaluations = 1;
            c.only = self.only.clone();
            c.absorb(name, &[idx[k]], vec![Case { fail: Some(("no result within 150 seconds".into(), "the case hangs".into())), ..Default::default() }]);
            std::process::exit(c.finish());
        };
        let failed = std::sync::atomic::AtomicUsize::new(0);
        let res = crate::util::par_watch(idx.len(), |k| {
            // enough is enough: no more cases once this many have failed
            if failed.load(std::sync::atomic::Ordering::Relaxed) >= 24 { return Case { skipped: true, ..Default::default() }; }
            crate::util::note_case(name, idx[k]);
            let mut r = Rng::new(base, idx[k] as u64);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, idx[k]))) {
                Ok(c) => { if c.fail.is_some() { failed.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } c }
                Err(p) => { failed.fetch_add(1, std::sync::atomic::Ordering::Relaxed); let mut c = Case::default(); c.fail("harness or target panicked", crate::util::panic_text(p)); c }
            }
        }, &hung);
        self.absorb(name, &idx, res);
        let ms = t.elapsed().as_millis() as u64;
        self.observed.insert(format!("{name}: cases"), idx.len() as u64);
        self.observed.insert(format!("{name}: ms"), ms);
    }
    pub fn absorb(&mut self, name: &str, idx: &[usize], res: Vec<Case>) {
        let mut sampled = 0;
        for (k, c) in res.into_iter().enumerate() {
            if c.skipped { continue; }
            self.evaluations += 1;
            for (e, n) in &c.events { *self.observed.entry(format!("{name}: {e}")).or_default() += n; }
            if let Some(h) = c.key {
                if self.distinct.insert(h ^ hash(name)) && sampled < 2 && k % 7 == 3 {
                    if let Some(s) = c.sample { self.samples.push(serde_json::json!({"section": name, "index": idx[k], "case": s})); sampled += 1; }
                }
            }
            if let Some((w, d)) = c.fail {
                self.total_fails += 1;
                let sig = |w: &str| w.chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>();
                let same = self.fails.iter().filter(|f| sig(&f.what) == sig(&w)).count();
                let lim = std::env::var("MAXF").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
                if same < lim && self.fails.len() < 8.max(lim) { self.fails.push(Fail { section: name.into(), index: idx[k], what: w, detail: d }); }
            }
        }
    }
    /// Writes evidence, replays and verdict; returns the exit code.
    pub fn finish(mut self) -> i32 {
        let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
        if self.only.is_none() {
            let ev = format!("{root}/evidence");
            let _ = std::fs::create_dir_all(&ev);
            if self.samples.is_empty() { self.samples.push(serde_json::json!("no non-trivial case")); }
            let j = serde_json::json!({
                "property": self.id, "tier": if self.quick() { "quick" } else { "thorough" }, "seed": self.seed as i64, "level": self.level,
                "coverage": { "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(), "rule": self.rules.join(" | "), "samples": self.samples, "observed": self.observed },
                "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": self.total_fails,
            });
            std::fs::write(format!("{ev}/{}.json", self.id), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
        }
        let dir = format!("{root}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, f) in self.fails.iter().enumerate() {
            println!("{} [{}#{}] {}\n{}", self.id, f.section, f.index, f.what, f.detail.chars().take(3000).collect::<String>());
            let p = format!("{dir}/{}-{i}.json", self.id);
            if self.only.is_none() {
                let j = serde_json::json!({"property": self.id, "tier": self.tier, "seed": self.seed as i64, "section": f.section, "index": f.index, "what": f.what, "detail": f.detail});
                std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).expect("replay");
            }
            println!("VIOLATION property={} replay={p}", self.id);
        }
        println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s", self.id, self.evaluations, self.distinct.len(), self.total_fails, self.start.elapsed().as_secs_f64());
        if self.total_fails > 0 { 1 } else { 0 }
    }
}
