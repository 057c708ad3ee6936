//! Calls of the library under test and their canonical outcomes.
use crate::rt;
use giron::{EstreeNode, GironError};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Goal {
    Module,
    Script,
}

/// How the library is handed the source.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Via {
    /// parse_module(String) / parse_script(String)
    Text,
    /// the character stream of the simulator hook, ended by EOF
    Stream,
    /// the stream dies (panics) after this many characters
    Dies(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Call {
    pub goal: Goal,
    pub via: Via,
    pub text: String,
}

impl Call {
    pub fn new(goal: Goal, text: &str) -> Call {
        Call { goal, via: Via::Text, text: text.to_string() }
    }
}

pub enum Res {
    Ok(EstreeNode),
    Err(GironError),
    /// message and place of a panic of the library
    Panic(String),
    /// the call was cut short by its source
    Died,
}

pub const DIED: &str = "gsim: the source died";

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let at = match info.location() {
            Some(l) => format!("{} at {}:{}", msg, l.file(), l.line()),
            None => msg,
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = at
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

struct Feed<'a> {
    it: std::str::Chars<'a>,
    left: usize,
}

impl Iterator for Feed<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.left == 0 {
            std::panic::panic_any(DIED);
        }
        self.left -= 1;
        self.it.next()
    }
}

fn raw_call(goal: Goal, via: Via, text: String) -> Result<EstreeNode, GironError> {
    match via {
        Via::Text => match goal {
            Goal::Module => giron::parse_module(text),
            Goal::Script => giron::parse_script(text),
        },
        #[cfg(feature = "nohook")]
        _ => match goal {
            Goal::Module => giron::parse_module(text),
            Goal::Script => giron::parse_script(text),
        },
        #[cfg(not(feature = "nohook"))]
        _ => {
            let left = match via {
                Via::Dies(k) => k,
                _ => usize::MAX,
            };
            let mut feed = Feed { it: text.chars(), left };
            match goal {
                Goal::Module => giron::sim::parse_module_from(&mut feed),
                Goal::Script => giron::sim::parse_script_from(&mut feed),
            }
        }
    }
}

/// One call; the String is built (and accounted) before.
pub fn call_owned(goal: Goal, via: Via, text: String) -> Res {
    unsafe { rt::IN_LIB = true };
    let r = catch_unwind(AssertUnwindSafe(|| raw_call(goal, via, text)));
    unsafe { rt::IN_LIB = rt::SCHED_ON };
    match r {
        Ok(Ok(n)) => Res::Ok(n),
        Ok(Err(e)) => Res::Err(e),
        Err(p) => {
            let died = p.downcast_ref::<&str>().map_or(false, |s| *s == DIED);
            drop(p);
            if died {
                Res::Died
            } else {
                Res::Panic(last_panic())
            }
        }
    }
}

pub fn call(c: &Call) -> Res {
    call_owned(c.goal, c.via, c.text.clone())
}

/// Runs library code other than a parse (rendering, dropping).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    unsafe { rt::IN_LIB = true };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { rt::IN_LIB = rt::SCHED_ON };
    r.map_err(|_| last_panic())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Class {
    Ok,
    Err,
    Panic,
    Died,
}

/// A canonical outcome that can be compared across processes and threads.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Canon {
    pub class: Class,
    /// error text, or panic message
    pub text: String,
    /// hash and length of the JSON and of the Debug form (spans included)
    pub json: (u64, usize),
    pub dbg: (u64, usize),
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0x9E37_79B9u64;
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x2545_F491_4F6C_DD1D).rotate_left(29);
    }
    crate::rng::mix(h ^ s.len() as u64)
}

impl Canon {
    /// This outcome if it is of the class told, otherwise an empty one of that class.
    pub fn clone_if(&self, class: Class) -> Canon {
        if self.class == class {
            return self.clone();
        }
        Canon { class, text: "a tree".into(), json: (0, 0), dbg: (0, 0) }
    }
}

pub fn canon(r: Res) -> Canon {
    let mut c = Canon { class: Class::Ok, text: String::new(), json: (0, 0), dbg: (0, 0) };
    match r {
        Res::Ok(n) => {
            let out = guarded(|| {
                let j = gsim_render::to_json(&n);
                let d = gsim_render::debug(&n);
                gsim_render::drop_node(n);
                (j, d)
            });
            match out {
                Ok((Ok(j), d)) => {
                    c.json = (hash_str(&j), j.len());
                    c.dbg = (hash_str(&d), d.len());
                }
                Ok((Err(e), _)) => c.text = format!("rendering fails: {}", e),
                Err(p) => {
                    c.class = Class::Panic;
                    c.text = p;
                }
            }
        }
        Res::Err(e) => {
            c.class = Class::Err;
            match guarded(|| format!("{} {}", gsim_render::error_debug(&e), gsim_render::error_text(&e))) {
                Ok(t) => c.text = t,
                Err(p) => {
                    c.class = Class::Panic;
                    c.text = p;
                }
            }
        }
        Res::Panic(m) => {
            c.class = Class::Panic;
            c.text = m;
        }
        Res::Died => c.class = Class::Died,
    }
    c
}

pub fn describe(c: &Canon) -> String {
    match c.class {
        Class::Ok => format!("tree (JSON {} bytes, hash {:016x}; Debug hash {:016x}{})", c.json.1, c.json.0, c.dbg.0,
            if c.text.is_empty() { String::new() } else { format!("; {}", c.text) }),
        Class::Err => format!("error {}", c.text),
        Class::Panic => format!("panic {}", c.text),
        Class::Died => "cut short by its source".to_string(),
    }
}
