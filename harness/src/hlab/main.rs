mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c40;
mod model;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C10" => c10::run(&mut cx),
        "C11" => c11::run(&mut cx),
        "C12" => c12::run(&mut cx),
        "C13" => c13::run(&mut cx),
        "C14" => c14::run(&mut cx),
        "C15" => c15::run(&mut cx),
        "C16" => c16::run(&mut cx),
        "C17" => c17::run(&mut cx),
        "C18" => c18::run(&mut cx),
        "C19" => c19::run(&mut cx),
        "C20" => c20::run(&mut cx),
        "C40" => c40::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
