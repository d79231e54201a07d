pub mod api;
pub mod batch;
pub mod c16;
pub mod class;
pub mod expr;
pub mod memory;
pub mod parts;
pub mod safety;
pub mod walks;

use crate::engine::Run;

pub fn run(prop: &str, run: &mut Run) {
    match prop {
        "C01" => expr::c01(run),
        "C01-deep" => expr::c01_deep(run, 20_000),
        "C01-half" => expr::c01_deep(run, 6_000),
        "C01-known" => expr::c01_known(run),
        "C02" => expr::c02(run),
        "C03" => expr::c03(run),
        "C04" => expr::c04(run),
        "C05" => expr::c05(run),
        "C06" => expr::c06(run),
        "C07" => batch::c07(run),
        "C08" => batch::c08(run),
        "C09" => batch::c09(run),
        "C10" => batch::c10(run),
        "C11" => parts::c11(run),
        "C12" => batch::c12(run),
        "C13" => parts::c13(run),
        "C14" => parts::c14(run),
        "C15" => api::c15(run),
        "C16" => c16::c16(run),
        "C17" => class::c17(run),
        "C18" => class::c18(run),
        "C19" => class::c19(run),
        "C20" => class::c20(run),
        "C21" => class::c21(run),
        "C22" => parts::c22(run),
        "C23" => parts::c23(run),
        "C24" => parts::c24(run),
        "C25" => class::c25(run),
        "C26" => expr::c26(run),
        "C27" => parts::c27(run),
        "C28" => parts::c28(run),
        "C30" => parts::c30(run),
        "C31" => safety::c31(run),
        "C32" => memory::c32(run),
        "C33" => memory::c33(run),
        "C34" => walks::c34(run),
        "C35" => walks::c35(run),
        "C36" => walks::c36(run),
        "C37" => expr::c37(run),
        "C31-interpreted" => safety::c31_interpreted(run),
        _ => panic!("unknown property {prop}"),
    }
}

/// Returns an error unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
