//! Shapes, vtables and Peek against the native traits, values and operations they stand for.
#![allow(dead_code, clippy::all)]
use symx_api::*;

mod native;
mod vt;
mod peek;
mod coll;



use coll::*;
use vt::*;
use peek::{peek, peek_print};
entries!(coll, peek, peek_print, vt_cmp, vt_fmt, vt_own, vt_parse);
