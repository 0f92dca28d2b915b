use crate::infra::Suite;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
pub mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
pub mod damage;
pub mod kit;
pub mod util;

pub fn get(id: &str) -> Option<Suite> {
    Some(match id {
        "C01" => c01::suite(),
        "C02" => c02::suite(),
        "C03" => c03::suite(),
        "C04" => c04::suite(),
        "C05" => c05::suite(),
        "C06" => c06::suite(),
        "C09" => c09::suite(),
        "C10" => c10::suite(),
        "C11" => c11::suite(),
        "C12" => c12::suite(),
        "C13" => c13::suite(),
        "C14" => c14::suite(),
        "C15" => c15::suite(),
        "C16" => c16::suite(),
        _ => return None,
    })
}

/// jv gen corpus DIR
pub fn gen(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("corpus") => { c14::generate(std::path::Path::new(&a[1])); 0 }
        _ => 2,
    }
}
