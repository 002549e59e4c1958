//! A neutral tree of values: what a class file says, independent of any API.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    None,
    U(u64),
    I(i64),
    /// Bit pattern of a floating point number.
    Bits(u64),
    S(String),
    B(Vec<u8>),
    L(Vec<V>),
    T(&'static str, Vec<(&'static str, V)>),
}

pub fn u(x: impl Into<u64>) -> V {
    V::U(x.into())
}
pub fn i(x: impl Into<i64>) -> V {
    V::I(x.into())
}
pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn opt(x: Option<V>) -> V {
    x.unwrap_or(V::None)
}

#[macro_export]
macro_rules! t {
    ($name:expr) => { $crate::value::V::T($name, Vec::new()) };
    ($name:expr; $($k:literal => $v:expr),* $(,)?) => {
        $crate::value::V::T($name, vec![$(($k, $v)),*])
    };
}

impl V {
    pub fn get(&self, key: &str) -> &V {
        match self {
            V::T(_, f) => f.iter().find(|x| x.0 == key).map(|x| &x.1).unwrap_or(&V::None),
            _ => &V::None,
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::L(x) => x,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(x) => x,
            _ => "",
        }
    }
    pub fn num(&self) -> i128 {
        match self {
            V::U(x) => *x as i128,
            V::I(x) => *x as i128,
            _ => -1,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            V::T(n, _) => n,
            _ => "",
        }
    }
    /// Depth-first visit of every node with its path.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a V)) {
        f(self);
        match self {
            V::L(x) => x.iter().for_each(|v| v.walk(f)),
            V::T(_, x) => x.iter().for_each(|v| v.1.walk(f)),
            _ => {}
        }
    }
    pub fn brief(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 400);
        o
    }
    fn write(&self, o: &mut String, max: usize) {
        use std::fmt::Write;
        if o.len() > max {
            if !o.ends_with('…') {
                o.push('…');
            }
            return;
        }
        match self {
            V::None => o.push_str("none"),
            V::U(x) => write!(o, "{x}").unwrap(),
            V::I(x) => write!(o, "{x:+}").unwrap(),
            V::Bits(x) => write!(o, "{x:#x}").unwrap(),
            V::S(x) => {
                if x.len() > 120 {
                    write!(o, "{:?}…({} bytes)", x.chars().take(60).collect::<String>(), x.len()).unwrap()
                } else {
                    write!(o, "{x:?}").unwrap()
                }
            }
            V::B(x) => {
                write!(o, "bytes({})[", x.len()).unwrap();
                for b in x.iter().take(24) {
                    write!(o, "{b:02x}").unwrap();
                }
                o.push(']');
            }
            V::L(x) => {
                o.push('[');
                for (n, v) in x.iter().enumerate() {
                    if n > 0 {
                        o.push_str(", ");
                    }
                    v.write(o, max);
                    if o.len() > max {
                        break;
                    }
                }
                o.push(']');
            }
            V::T(n, x) => {
                o.push_str(n);
                if !x.is_empty() {
                    o.push('{');
                    for (n, (k, v)) in x.iter().enumerate() {
                        if n > 0 {
                            o.push_str(", ");
                        }
                        o.push_str(k);
                        o.push(':');
                        v.write(o, max);
                        if o.len() > max {
                            break;
                        }
                    }
                    o.push('}');
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub path: String,
    pub expected: String,
    pub observed: String,
}

/// All differences between two trees (at most `max`).
pub fn diff(expected: &V, observed: &V, max: usize) -> Vec<Diff> {
    let mut out = Vec::new();
    if expected != observed {
        walk("", expected, observed, &mut out, max);
    }
    out
}

fn walk(path: &str, e: &V, o: &V, out: &mut Vec<Diff>, max: usize) {
    if out.len() >= max || e == o {
        return;
    }
    let mut leaf = |p: String| out.push(Diff { path: p, expected: e.brief(), observed: o.brief() });
    match (e, o) {
        (V::L(a), V::L(b)) => {
            if a.len() != b.len() {
                leaf(format!("{path}#count"));
                return;
            }
            for (n, (x, y)) in a.iter().zip(b).enumerate() {
                if out.len() >= max {
                    return;
                }
                walk(&format!("{path}[{n}]"), x, y, out, max);
            }
        }
        (V::T(n, a), V::T(m, b)) if n == m && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0) => {
            for ((k, x), (_, y)) in a.iter().zip(b) {
                if out.len() >= max {
                    return;
                }
                walk(&format!("{path}/{n}.{k}"), x, y, out, max);
            }
        }
        _ => leaf(path.to_string()),
    }
}
