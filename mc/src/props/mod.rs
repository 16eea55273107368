pub use crate::gen::*;
pub use crate::imp::*;
pub use crate::model::*;
pub use crate::run::*;
pub use crate::{ensure, fail};

pub mod binary;
pub mod cli;
pub mod draw;
pub mod eval;
pub mod gui;
pub mod history;
pub mod regex;
pub mod robust;
pub mod text;
pub mod unary;

pub fn families(prop: &str, tier: Tier) -> Option<Vec<Family>> {
    Some(match prop {
        "P01" => eval::p01(tier),
        "P02" => eval::p02(tier),
        "P03" => unary::p03(tier),
        "P04" => unary::p04(tier),
        "P05" => unary::p05(tier),
        "P06" => unary::p06(tier),
        "P07" => binary::p07(tier),
        "P08" => binary::p08(tier),
        "P09" => binary::p09(tier),
        "P10" => binary::p10(tier),
        "P11" => unary::p11(tier),
        "P12" => unary::p12(tier),
        "P13" => text::p13(tier),
        "P14" => text::p14(tier),
        "P15" => text::p15(tier),
        "P16" => regex::p16(tier),
        "P17" => regex::p17(tier),
        "P18" => history::p18(tier),
        "P19" => history::p19(tier),
        "P20" => cli::p20(tier),
        "P21" => cli::p21(tier),
        "P22" => cli::p22(tier),
        "P23" => cli::p23(tier),
        "P24" => draw::p24(tier),
        "P25" => draw::p25(tier),
        "P26" => robust::p26(tier),
        "P27" => robust::p27(tier),
        "P28" => gui::p28(tier),
        _ => return None,
    })
}
