//! Answers the cases of a file, from a build with few features: `bare CASES ANSWERS`.
mod ops;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("cases");
    std::fs::write(&a[2], ops::run_file(&text)).expect("answers");
}
