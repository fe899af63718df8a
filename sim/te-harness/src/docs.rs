//! Saved documents and what may happen to them between one process and the next (used by both harnesses).
use crate::require;
use crate::util::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;

/// The documents on disk: the only thing that survives a restart.
#[derive(Default)]
pub struct Disk(pub BTreeMap<String, String>);
/// A file read back in small pieces, with interrupted calls in between.
struct Pieces<'a> { left: &'a [u8], cut: u64 }
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.cut = self.cut.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if self.cut >> 60 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = (1 + (self.cut >> 33) as usize % 700).min(b.len()).min(self.left.len());
        b[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}
impl Disk {
    pub fn save<T: Serialize>(&mut self, name: &str, x: &T) {
        let s = match w(2) { 0 => serde_json::to_string(x), _ => serde_json::to_string_pretty(x) };
        match s { Ok(s) => { self.0.insert(name.into(), s); } Err(e) => violate("unsaved", format!("{} cannot be written: {}", name, e)) }
    }
    /// Reads a document the way a restarted process may: from a string, a file arriving in pieces, a parsed tree.
    pub fn load<T: Serialize + DeserializeOwned>(&self, name: &str) -> T {
        let s = &self.0[name];
        // a bare number cut short is another number: nobody can tell
        if !s.starts_with(|c: char| c.is_ascii_digit() || c == '-') && w(12) == 0 {
            fault("torn_save");
            let mut cut = w(s.len() as u64) as usize;
            while !s.is_char_boundary(cut) { cut -= 1 }
            let torn = match w(3) { 0 => s[..cut].to_string(), 1 => format!("{}{}", &s[..cut], "\0".repeat(s.len() - cut)), _ => { let mut k = s.len() - cut; while !s.is_char_boundary(k) { k -= 1 } format!("{}{}", &s[..cut], &s[..k]) } };
            if let Ok(Ok(_)) = catch(|| serde_json::from_str::<T>(&torn)).map_err(|p| violate("panic", format!("reading {} cut at byte {} of {}: {}", name, cut, s.len(), p))) {
                // the cut may fall where nothing is lost
                if serde_json::from_str::<serde_json::Value>(&torn).ok() != serde_json::from_str(s).ok() { violate("torn", format!("{} cut at byte {} of {} is accepted", name, cut, s.len())) }
            }
        }
        let r: Result<T, String> = match w(3) {
            0 => serde_json::from_str(s).map_err(|e| e.to_string()),
            1 => { fault("short_read"); serde_json::from_reader(std::io::BufReader::new(Pieces { left: s.as_bytes(), cut: w(1 << 30) })).map_err(|e| e.to_string()) }
            _ => serde_json::from_str::<serde_json::Value>(s).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        };
        let x = r.unwrap_or_else(|e| violate("unreadable", format!("{} does not read back: {}: {}", name, e, s.chars().take(300).collect::<String>())));
        let tree = |s: &str| serde_json::from_str::<serde_json::Value>(s).ok();
        let (a, b) = (serde_json::to_string(&x).ok().and_then(|s| tree(&s)), tree(s));
        require!(canon(a) == canon(b), "changed", "{} is not what was saved", name);
        x
    }
}
/// Maps saved as lists of pairs come in any order.
fn canon(v: Option<serde_json::Value>) -> Option<serde_json::Value> {
    use serde_json::Value::*;
    fn go(v: serde_json::Value) -> serde_json::Value {
        match v {
            Array(a) => { let mut a: Vec<_> = a.into_iter().map(go).collect(); if a.iter().all(|x| matches!(x, Array(p) if p.len() == 2)) { a.sort_by_key(|x| x.to_string()) } Array(a) }
            Object(m) => Object(m.into_iter().map(|(k, v)| (k, go(v))).collect()),
            x => x,
        }
    }
    v.map(go)
}
