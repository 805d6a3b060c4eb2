use crate::engine::*;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c12;
pub mod c13;
pub mod c15;
pub mod c11;
pub mod c14;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
#[cfg(feature = "std")]
pub mod c22;
pub mod c23;
pub mod c24;
pub mod lsq;

pub struct Plan {
    pub sections: Vec<Section>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}
pub fn plan(id: &str, thorough: bool) -> Option<Plan> {
    Some(match id {
        "C01" => c01::plan(thorough),
        "C02" => c02::plan(thorough),
        "C03" => c03::plan(thorough),
        "C04" => c04::plan(thorough),
        "C05" => c05::plan(thorough),
        "C06" => c06::plan(thorough),
        "C07" => c07::plan(thorough),
        "C08" => c08::plan(thorough),
        "C09" => c09::plan(thorough),
        "C10" => c10::plan(thorough),
        "C12" => c12::plan(thorough),
        "C13" => c13::plan(thorough),
        "C15" => c15::plan(thorough),
        "C11" => c11::plan(thorough),
        "C14" => c14::plan(thorough),
        "C16" => c16::plan(thorough),
        "C17" => c17::plan(thorough),
        "C18" => c18::plan(thorough),
        "C19" => c19::plan(thorough),
        "C20" => c20::plan(thorough),
        "C21" => c21::plan(thorough),
        "C23" => c23::plan(thorough),
        #[cfg(feature = "std")]
        "C22" => c22::plan(thorough),
        "C24" => c24::plan(thorough),
        _ => return None,
    })
}
