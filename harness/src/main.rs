mod con;
mod corpus;
mod gen_;
mod lang;
mod mach;
mod props;
mod raster;
mod rng;
mod runner;
mod screen;
mod trace;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("run") {
        // Chunks separated by a line with ----.
        let text = std::fs::read_to_string(&args[2]).unwrap();
        let log = trace::Log::default();
        let mut m = mach::build(mach::Opts { callables: trace::callables(&log), ..Default::default() });
        m.console.borrow_mut().pixels = Some((800, 600));
        m.console.borrow_mut().glyph = Some((8, 16));
        for chunk in text.split("----\n") {
            let o = m.run(chunk);
            print!("{}", m.take_text());
            for l in log.borrow_mut().drain(..) {
                println!("TR {}", l);
            }
            println!("=> {:?} yields={}", o, m.yields.get());
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("callables") {
        let m = mach::build(mach::Opts::default());
        let md = m.md.borrow();
        let mut v: Vec<_> = md.values().collect();
        v.sort_by_key(|m| m.name().to_owned());
        for m in v {
            println!("{} {:?} async={} :: {}", m.name(), m.return_type(), m.is_async(), m.syntax());
        }
        return;
    }
    std::process::exit(runner::main(props::all()));
}
