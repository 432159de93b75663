use super::util::*;
use serde::{de::DeserializeOwned, Serialize};
use yaml_peg::serde::*;
#[path = "serdes.rs"]
mod serdes;
use serdes::*;

/// Value to node (of either kind) and back.
struct ToNode;
impl Go for ToNode {
    fn go<T: Serialize + DeserializeOwned>(&self, v: T, same: fn(&T, &T) -> bool) {
        let arc = choose(2) == 1;
        let r = if arc {
            match to_arc_node(&v) {
                Ok(n) => {
                    obs(&n);
                    T::deserialize(n)
                }
                Err(e) => Err(e),
            }
        } else {
            match to_node(&v) {
                Ok(n) => {
                    obs(&n);
                    T::deserialize(n)
                }
                Err(e) => Err(e),
            }
        };
        match r {
            Ok(w) => {
                cover(1);
                check(same(&v, &w), 1);
                forget(w)
            }
            Err(e) => {
                check(false, 2);
                forget(e)
            }
        }
        forget(v)
    }
}
harness! {
    c08_i => ints(&ToNode);
    c08_f => floats(&ToNode);
    c08_c => chars(&ToNode, choose(2) == 0);
    c08_s => strings::<3>(&ToNode, &[], 8);
    c08_e => enums(&ToNode);
    c08_k => containers(&ToNode);
    c08_o => options(&ToNode);
    c08_t => tagged(&ToNode);
    c08_g => big(&ToNode);
    c08_m => manual(&ToNode);
    c08_d => deep(&ToNode);
}
