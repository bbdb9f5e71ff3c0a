//! A crate whose name makes its types share their full names with those of the standard library.
pub mod string {
    use std::hash::{Hash, Hasher};
    /// As large as the standard library's, but equal without regard to case.
    #[derive(Clone, Debug)]
    pub struct String(pub std::string::String);
    impl PartialEq for String {
        fn eq(&self, o: &Self) -> bool {
            self.0.eq_ignore_ascii_case(&o.0)
        }
    }
    impl Eq for String {}
    impl Hash for String {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.0.to_ascii_lowercase().hash(h);
        }
    }
}
