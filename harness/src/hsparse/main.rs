mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c41;
mod common;
mod lin;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C03" => c03::run(&mut cx),
        "C04" => c04::run(&mut cx),
        "C05" => c05::run(&mut cx),
        "C06" => c06::run(&mut cx),
        "C07" => c07::run(&mut cx),
        "C08" => c08::run(&mut cx),
        "C09" => c09::run(&mut cx),
        "C41" => c41::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
