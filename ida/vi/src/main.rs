mod checks;
#[path = "../../../harness/src/driver.rs"]
mod driver;
mod err;
mod gen;
mod ctl;
mod obs;
mod roots;
mod parts;
mod prob;
mod refida;
#[path = "../../../harness/src/run.rs"]
mod run;

use run::*;

fn run_check(cx: &mut Ctx) {
    let p = cx.prop.clone();
    match p.as_str() {
        "C40" => checks::c40(cx),
        "C41" => checks::c41(cx),
        "C42" => obs::c42(cx),
        "C43" => obs::c43(cx),
        "C44" => roots::c44(cx),
        "C45" => ctl::c45(cx),
        "C46" => ctl::c46(cx),
        "C47" => err::c47(cx),
        "C48" => ctl::c48(cx),
        "C50" => parts::c50(cx),
        "C51" => parts::c51(cx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}

fn main() {
    driver::main(run_check, |_| "exploration");
}
