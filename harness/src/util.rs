/// `ck!(cond)`: an assertion identified by file and line.
macro_rules! ck {
    ($c:expr) => {
        crate::sym::check($c, MODULE * 10000 + line!())
    };
}
macro_rules! id {
    () => {
        MODULE * 10000 + line!()
    };
}
/// Defines entry points, and the table of them.
macro_rules! entries {
    ($($(#[$d:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$d])* #[no_mangle] pub fn $name() $body)*
        pub static ENTRIES: &[(&'static str, fn())] = &[$((stringify!($name), $name)),*];
    };
}
