//! The committed list of known findings (`known_findings.txt`); never written at run time.
use std::sync::OnceLock;

static TEXT: OnceLock<String> = OnceLock::new();

fn text() -> &'static str {
    TEXT.get_or_init(|| {
        std::fs::read_to_string(crate::supervise::verif_dir().join("known_findings.txt")).unwrap_or_default()
    })
}

/// `finding: property=ID <what fails>` lines of a property.
pub fn findings(id: &str) -> Vec<String> {
    let p = format!("finding: property={} ", id);
    text().lines().filter_map(|l| l.strip_prefix(&p)).map(|s| s.to_string()).collect()
}

/// The sample rates listed as `rates=a-b,c,...` in a property's findings.
pub fn rates(id: &str) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for f in findings(id) {
        for w in f.split_whitespace() {
            if let Some(r) = w.strip_prefix("rates=") {
                for x in r.split(',') {
                    let mut i = x.split('-').map(|n| n.parse::<u32>().expect("rate"));
                    let a = i.next().unwrap();
                    v.push((a, i.next().unwrap_or(a)));
                }
            }
        }
    }
    v
}
