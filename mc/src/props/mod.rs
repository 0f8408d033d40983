use crate::report::Ctx;

macro_rules! props {
    ($($id:literal $m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn find(name: &str) -> Option<(&'static str, fn(&mut Ctx))> {
            let t: &[(&'static str, fn(&mut Ctx))] = &[$(($id, $m::run)),*];
            t.iter().find(|(n, _)| *n == name).copied()
        }
    };
}

props! {
    "C01" c01,
    "C03" c03,
    "C04" c04,
    "C05" c05,
    "C06" c06,
    "C07" c07,
    "C08" c08,
    "C10" c10,
    "C09" c09,
    "C11" c11,
    "C12" c12,
    "C13" c13,
    "C14" c14,
    "C15" c15,
    "C16" c16, "C20" c20, "C26" c26,
    "C02" c02, "C18" c18, "C24" c24, "C25" c25, "C28" c28, "C21" c21, "C22" c22, "C19" c19, "C29" c29, "C23" c23, "C27" c27, "C17" c17,
}
