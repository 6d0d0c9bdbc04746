mod driver;
mod fl;
mod lin;
mod lin_checks;
mod run;
mod ser;
mod nl;
mod real;
mod norm;
mod script;


use run::*;

fn run_check(cx: &mut Ctx) {
    let p = cx.prop.clone();
    match p.as_str() {
        "C01" => lin_checks::c01(cx),
        "C02" => lin_checks::c02(cx),
        "C03" => lin_checks::c03(cx),
        "C04" => lin_checks::c04(cx),
        "C05" => lin_checks::c05(cx),
        "C06" => lin_checks::c06(cx),
        "C07" => lin_checks::c07(cx),
        "C08" => lin_checks::c08(cx),
        "C10" => norm::c10(cx),
        "C11" => norm::c11(cx),
        "C20" => script::c20(cx),
        "C21" => real::c21(cx),
        "C22" => real::c22(cx),
        "C29" => real::c29(cx),
        "C31" => real::c31(cx),
        "C23" => script::c23(cx),
        "C24" => script::c24(cx),
        "C25" => script::c25(cx),
        "C26" => script::c26(cx),
        "C27" => script::c27(cx),
        "C28" => script::c28(cx),
        "C30" => script::c30(cx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}

fn main() {
    driver::main(run_check, |p| if p == "C25" { "fault_enumeration" } else { "exploration" });
}
