mod c01;
mod c02;
#[path = "../hsparse/c03.rs"]
#[allow(dead_code)]
mod c03;
#[path = "../hsparse/c06.rs"]
mod c06;
#[path = "../hsparse/c07.rs"]
mod c07;
#[path = "../hlab/c10.rs"]
mod c10;
#[path = "../hlab/c11.rs"]
mod c11;
#[path = "../hlab/c12.rs"]
mod c12;
#[path = "../hsparse/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../hsparse/lin.rs"]
#[allow(dead_code)]
mod lin;
#[path = "../hlab/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../hnonlin/problem.rs"]
#[allow(dead_code)]
mod problem;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C01" => c01::run(&mut cx),
        "C02" => c02::run(&mut cx),
        "again" => c02::again(&mut cx),
        "raced" => c02::raced(&mut cx),
        // processes observed by C01
        "sizes" => c01::sizes(&mut cx),
        "lives" => c01::lives(&mut cx),
        "shapes" => c01::shapes(&mut cx),
        "histories" => c06::run(&mut cx),
        "sequences" => c07::run(&mut cx),
        "operations" => c10::run(&mut cx),
        "decompositions" => c11::run(&mut cx),
        "eigen" => c12::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
