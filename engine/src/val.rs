use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// concrete bits
    C(u128),
    /// symbolic term (Bool for i1, bit-vector, real or IEEE float)
    T(u32),
    /// aggregate or vector
    A(Rc<[Val]>),
}
impl Val {
    #[inline]
    pub fn c(&self) -> u128 {
        match self {
            Val::C(x) => *x,
            _ => panic!("concrete value expected, got {:?}", self),
        }
    }
    #[inline]
    pub fn is_c(&self) -> bool {
        matches!(self, Val::C(_))
    }
}
