use super::util::*;
use serde::{de::DeserializeOwned, Serialize};
use yaml_peg::serde::*;
#[path = "serdes.rs"]
mod serdes;
use serdes::*;

/// Value to text and back.
struct ToText;
impl Go for ToText {
    fn go<T: Serialize + DeserializeOwned>(&self, v: T, same: fn(&T, &T) -> bool) {
        match to_string(&v) {
            Ok(s) => {
                out_str(&s);
                match from_str::<T>(&s) {
                    Ok(w) => {
                        cover(1);
                        check(w.len() == 1 && same(&v, &w[0]), 1);
                        forget(w)
                    }
                    Err(e) => {
                        check(false, 2);
                        forget(e)
                    }
                }
                forget(s)
            }
            Err(e) => {
                check(false, 3);
                forget(e)
            }
        }
        forget(v)
    }
}
harness! {
    c10_i => ints(&ToText);
    c10_f => floats(&ToText);
    c10_c => chars(&ToText, true);
    c10_cu => chars(&ToText, false);
    c10_s1 => strings::<1>(&ToText, &[], 8);
    c10_s2 => strings::<2>(&ToText, &[], 8);
    c10_s3 => strings::<3>(&ToText, &[], 3);
    c10_n4 => strings::<4>(&ToText, b"01x.-e~", 6);
    c10_k4 => strings::<4>(&ToText, b"nulNULtre", 6);
    c10_i4 => strings::<4>(&ToText, b"a -:#\n", 8);
    c10_q4 => strings::<4>(&ToText, b"a\"'\\n\n", 8);
    c10_e => enums(&ToText);
    c10_k => containers(&ToText);
    c10_o => options(&ToText);
    c10_t => tagged(&ToText);
    c10_g => big(&ToText);
    c10_m => manual(&ToText);
    c10_d => deep(&ToText);
}
