use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::Deref;

pub use regex::*;
thread_local! { static SEEN: RefCell<HashMap<String, regex::Regex>> = RefCell::new(HashMap::new()); }
#[derive(Clone, Debug)]
pub struct Regex(regex::Regex);
impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        if let Some(r) = SEEN.with(|s| s.borrow().get(p).cloned()) { return Ok(Regex(r)); }
        let r = regex::Regex::new(p)?;
        SEEN.with(|s| s.borrow_mut().insert(p.to_string(), r.clone()));
        Ok(Regex(r))
    }
}
impl Deref for Regex { type Target = regex::Regex; fn deref(&self) -> &regex::Regex { &self.0 } }
impl AsRef<regex::Regex> for Regex { fn as_ref(&self) -> &regex::Regex { &self.0 } }
impl std::fmt::Display for Regex { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::str::FromStr for Regex { type Err = Error; fn from_str(s: &str) -> Result<Regex, Error> { Regex::new(s) } }
impl TryFrom<&str> for Regex { type Error = Error; fn try_from(s: &str) -> Result<Regex, Error> { Regex::new(s) } }
impl TryFrom<String> for Regex { type Error = Error; fn try_from(s: String) -> Result<Regex, Error> { Regex::new(&s) } }
