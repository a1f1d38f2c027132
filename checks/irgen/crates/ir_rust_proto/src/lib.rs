#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals)]
include!("messages.rs");
