//! Instrumented instantiations of giron's generic rendering code: generic
//! functions are compiled into the crate that uses them, so this tiny crate is
//! compiled with the same SanitizerCoverage flags as giron itself.
use giron::{EstreeNode, GironError};
use std::fmt::Write as _;
use std::io::Write;

#[inline(never)]
pub fn to_json(node: &EstreeNode) -> Result<String, String> {
    serde_json::to_string(node).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn to_writer(node: &EstreeNode, w: &mut dyn Write) -> Result<(), serde_json::Error> {
    serde_json::to_writer(w, node)
}

#[inline(never)]
pub fn to_writer_pretty(node: &EstreeNode, w: &mut dyn Write) -> Result<(), serde_json::Error> {
    serde_json::to_writer_pretty(w, node)
}

#[inline(never)]
pub fn debug(node: &EstreeNode) -> String {
    format!("{:?}", node)
}

#[inline(never)]
pub fn debug_into(node: &EstreeNode, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    write!(w, "{:?}", node)
}

#[inline(never)]
pub fn error_text(e: &GironError) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}", e);
    s
}

#[inline(never)]
pub fn error_debug(e: &GironError) -> String {
    format!("{:?}", e)
}

#[inline(never)]
pub fn error_into(e: &GironError, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    write!(w, "{}", e)
}

#[inline(never)]
pub fn error_write(e: &GironError, w: &mut dyn Write) -> std::io::Result<()> {
    write!(w, "{}", e)
}

#[inline(never)]
pub fn drop_node(node: EstreeNode) {
    drop(node)
}

#[inline(never)]
pub fn drop_error(e: GironError) {
    drop(e)
}
