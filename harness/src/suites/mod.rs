pub mod histories;
pub mod huge;
pub mod limits;
pub mod memory;
pub mod multi;
pub mod pure;
pub mod tables;

macro_rules! suites {
    (($d:tt) $($name:literal => $ty:path),* $(,)?) => {
        pub const NAMES: &[&str] = &[$($name),*];
        macro_rules! with_suite {
            ($n:expr, $f:ident, ($d($d a:expr),*)) => {
                match $n {
                    $($name => $f::<$ty>($d($d a),*),)*
                    other => { eprintln!("unknown suite {other}"); std::process::exit(2) }
                }
            };
        }
        pub(crate) use with_suite;
    };
}

suites! { ($)
    "C01" => crate::suites::histories::C01,
    "C02" => crate::suites::histories::C02,
    "C03" => crate::suites::histories::C03,
    "C04" => crate::suites::histories::C04,
    "C05" => crate::suites::histories::C05,
    "C11" => crate::suites::histories::C11,
    "C06" => crate::suites::histories::C06,
    "C07" => crate::suites::histories::C07,
    "C08" => crate::suites::limits::C08,
    "C08a" => crate::suites::limits::C08a,
    "C08e" => crate::suites::limits::C08e,
    "C09" => crate::suites::histories::C09,
    "C10" => crate::suites::histories::C10,
    "C12" => crate::suites::tables::C12,
    "C12m" => crate::suites::tables::C12m,
    "C12h" => crate::suites::huge::C12h,
    "C13" => crate::suites::tables::C13,
    "C13l" => crate::suites::tables::C13l,
    "C16" => crate::suites::tables::C16,
    "C16l" => crate::suites::tables::C16l,
    "C14" => crate::suites::pure::C14,
    "C15" => crate::suites::pure::C15,
    "C17" => crate::suites::pure::C17,
    "C17x" => crate::suites::pure::C17x,
    "C18" => crate::suites::pure::C18,
    "C20" => crate::suites::multi::C20,
    "C22" => crate::suites::multi::C22,
    "C22m" => crate::suites::multi::C22m,
    "C21d" => crate::suites::pure::C21d,
    "C21" => crate::suites::histories::C21,
    "C23" => crate::suites::histories::C23,
    "C24" => crate::suites::histories::C24,
    "C27" => crate::suites::memory::C27,
    "C25" => crate::suites::histories::C25,
}
