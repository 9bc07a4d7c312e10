mod c33;
mod c34;
mod c35;
mod c36;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C33" => c33::run(&mut cx),
        "C34" => c34::run(&mut cx),
        "C35" => c35::run(&mut cx),
        "C36" => c36::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
