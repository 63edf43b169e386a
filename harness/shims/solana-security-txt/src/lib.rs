//! Stand-in for the `solana-security-txt` crate, which is not available offline.
#[macro_export]
macro_rules! security_txt {
    ($($name:ident: $value:expr),* $(,)?) => {
        #[allow(dead_code)]
        pub static SECURITY_TXT: &[(&str, &str)] = &[$((stringify!($name), $value)),*];
    };
}
