mod c37;
mod c38;
mod c39;
mod c43;
mod c44;
mod problem;

fn main() {
    let mut cx = harness::Ctx::from_args();
    match cx.id.as_str() {
        "C37" => c37::run_all(&mut cx),
        "C38" => c38::run_all(&mut cx),
        "C39" => c39::run_all(&mut cx),
        "C43" => c43::run_all(&mut cx),
        "C44" => c44::run_all(&mut cx),
        _ => (),
    }
    cx.finish();
}
