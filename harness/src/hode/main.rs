mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod prob;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C27" => c27::run(&mut cx),
        "C28" => c28::run(&mut cx),
        "C29" => c29::run(&mut cx),
        "C30" => c30::run(&mut cx),
        "C31" => c31::run(&mut cx),
        "C32" => c32::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
