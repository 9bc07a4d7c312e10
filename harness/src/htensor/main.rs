mod c23;
mod c24;
mod c25;
mod c26;
mod full;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C23" => c23::run(&mut cx),
        "C24" => c24::run(&mut cx),
        "C25" => c25::run(&mut cx),
        "C26" => c26::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
