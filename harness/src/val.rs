//! Dynamic value tree shared by the reference model and the bindings.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Val {
    /// any scalar: integers (two's complement in the wire width), float bits, enum codes, flag bits
    U(u64),
    /// text
    Str(String),
    /// list / array
    L(Vec<Val>),
    /// record (non-padding fields in order)
    S(Vec<Val>),
    /// optional section / optional element
    O(Option<Box<Val>>),
    /// tagged alternative
    V(u64, Vec<Val>),
    /// raw bytes of an opaque section
    B(Vec<u8>),
    /// reference model only: value not specified, matches anything
    Any,
}

impl Val {
    pub fn u(&self) -> u64 {
        match self {
            Val::U(x) => *x,
            o => panic!("engine: expected scalar, got {o:?}"),
        }
    }
    pub fn s(&self) -> &[Val] {
        match self {
            Val::S(x) => x,
            o => panic!("engine: expected record, got {o:?}"),
        }
    }
    pub fn l(&self) -> &[Val] {
        match self {
            Val::L(x) => x,
            o => panic!("engine: expected list, got {o:?}"),
        }
    }
    pub fn child(&self, i: usize) -> &Val {
        match self {
            Val::L(x) | Val::S(x) | Val::V(_, x) => &x[i],
            Val::O(Some(b)) => b,
            o => panic!("engine: no child {i} in {o:?}"),
        }
    }
    pub fn child_mut(&mut self, i: usize) -> &mut Val {
        match self {
            Val::L(x) | Val::S(x) | Val::V(_, x) => &mut x[i],
            Val::O(Some(b)) => b,
            o => panic!("engine: no child {i} in {o:?}"),
        }
    }
    /// is every part of it specified?
    pub fn known(&self) -> bool {
        match self {
            Val::Any => false,
            Val::L(x) | Val::S(x) | Val::V(_, x) => x.iter().all(Val::known),
            Val::O(Some(b)) => b.known(),
            _ => true,
        }
    }
    pub fn at(&self, p: &[usize]) -> &Val {
        p.iter().fold(self, |v, i| v.child(*i))
    }
    pub fn at_mut(&mut self, p: &[usize]) -> &mut Val {
        let mut v = self;
        for i in p {
            v = v.child_mut(*i);
        }
        v
    }
    /// `self` is the specified value, `o` an observed one.
    pub fn matches(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Any, _) => true,
            (Val::L(a), Val::L(b)) | (Val::S(a), Val::S(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.matches(y))
            }
            (Val::V(t, a), Val::V(u, b)) => {
                t == u && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.matches(y))
            }
            (Val::O(Some(a)), Val::O(Some(b))) => a.matches(b),
            (a, b) => a == b,
        }
    }
    /// path of the first difference, for reports
    pub fn diff(&self, o: &Val) -> Vec<usize> {
        let mut path = vec![];
        let (mut a, mut b) = (self, o);
        loop {
            let (x, y) = match (a, b) {
                (Val::L(x), Val::L(y)) | (Val::S(x), Val::S(y)) => (x, y),
                (Val::V(t, x), Val::V(u, y)) if t == u => (x, y),
                _ => return path,
            };
            if x.len() != y.len() {
                return path;
            }
            match (0..x.len()).find(|&i| !x[i].matches(&y[i])) {
                None => return path,
                Some(i) => {
                    path.push(i);
                    a = &x[i];
                    b = &y[i];
                }
            }
        }
    }
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::U(x) => write!(f, "{x}"),
            Val::Str(s) => write!(f, "{s:?}"),
            Val::L(v) => {
                if v.len() > 24 {
                    write!(f, "[{} items: {:?}..]", v.len(), &v[..4])
                } else {
                    write!(f, "{v:?}")
                }
            }
            Val::S(v) => {
                write!(f, "{{")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x:?}")?;
                }
                write!(f, "}}")
            }
            Val::O(None) => write!(f, "None"),
            Val::O(Some(x)) => write!(f, "Some({x:?})"),
            Val::V(t, v) => write!(f, "#{t}{v:?}"),
            Val::B(b) => {
                if b.len() > 64 {
                    write!(f, "bytes[{}]", b.len())
                } else {
                    write!(f, "{b:02x?}")
                }
            }
            Val::Any => write!(f, "*"),
        }
    }
}
