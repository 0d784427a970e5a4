use crate::fw::Ctx;
pub mod common;
pub mod exp;
mod ops;
mod p01;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p26;
mod p17;
mod p18;
mod p19;
mod p02;
mod p20;
mod items;
mod large;
mod p21;
mod scene;
mod p22;
mod p23;
mod p24;
mod p25;

pub type CheckFn = fn(&Ctx);

pub fn lookup(p: &str) -> Option<(&'static str, CheckFn)> {
    Some(match p {
        "P01" => ("exploration", p01::run as CheckFn),
        "P03" => ("exploration", p03::run),
        "P04" => ("exploration", p04::run),
        "P05" => ("exploration", p05::run),
        "P09" => ("exploration", p09::run),
        "P06" => ("exploration", p06::run),
        "P07" => ("exploration", p07::run),
        "P08" => ("exploration", p08::run),
        "P10" => ("model_checking", p10::run),
        "P11" => ("model_checking", p11::run),
        "P12" => ("model_checking", p12::run),
        "P15" => ("model_checking", p15::run),
        "P19" => ("model_checking", p19::run),
        "P13" => ("fault_enumeration", p13::run),
        "P14" => ("fault_enumeration", p14::run),
        "P16" => ("model_checking", p16::run),
        "P26" => ("exploration", p26::run),
        "P17" => ("model_checking", p17::run),
        "P18" => ("exploration", p18::run),
        "P02" => ("exploration", p02::run),
        "P20" => ("exploration", p20::run),
        "P21" => ("exploration", p21::run),
        "P22" => ("exploration", p22::run),
        "P23" => ("exploration", p23::run),
        "P24" => ("fault_enumeration", p24::run),
        "P25" => ("exploration", p25::run),
        _ => return None,
    })
}
