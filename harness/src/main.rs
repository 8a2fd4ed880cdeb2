use stunpbt::{alloc::Counting, engine, mirirun, props};

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        ["literals"] => {
            stunpbt::dict::self_test();
            print!("{}", stunpbt::dict::list());
            0
        }
        ["check", id] => match engine::supervise(find(id)) {
            0 if id == "C20" => mirirun::run(&engine::Config::from_env(id)),
            code => code,
        },
        ["measure", choices, what] => props::cost::measure(choices, what),
        ["child", id] => engine::run(find(id), &engine::Config::from_env(id)),
        ["one", id, part, idx] => engine::one(find(id), part.parse().unwrap(), idx.parse().unwrap()),
        ["replay", file] => mirirun::replay(&engine::Config::from_env("C20"), file.as_ref()).unwrap_or_else(|| engine::replay(&all, file.as_ref())),
        _ => {
            eprintln!("usage: stunpbt check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
