mod c42;

fn main() {
    let mut cx = harness::Ctx::from_args();
    if cx.id.as_str() == "C42" {
        c42::run(&mut cx);
    }
    cx.finish();
}
