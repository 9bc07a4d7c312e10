mod c21;
mod c22;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C21" => c21::run(&mut cx),
        "C22" => c22::run(&mut cx),
        _ => (),
    }
    cx.finish();
}
