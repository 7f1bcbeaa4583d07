//! Reads parameter objects through their public `Debug` output.
use crate::env::Env;
use ark_ff::PrimeField;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Num(String),
    List(Vec<V>),
    Tuple(String, Vec<V>),
    Struct(String, Vec<(String, V)>),
}
struct Ps<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Ps<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-<>:".contains(&self.s[self.i])) {
            if self.s[self.i] == b':' && self.s.get(self.i + 1) != Some(&b':') && self.s.get(self.i.wrapping_sub(1)) != Some(&b':') {
                break;
            }
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn seq(&mut self, end: u8) -> Option<Vec<V>> {
        self.i += 1;
        let mut v = vec![];
        loop {
            if self.peek() == end {
                self.i += 1;
                return Some(v);
            }
            v.push(self.val()?);
            if self.peek() == b',' {
                self.i += 1;
            }
        }
    }
    fn val(&mut self) -> Option<V> {
        match self.peek() {
            b'[' => Some(V::List(self.seq(b']')?)),
            b'(' => Some(V::Tuple(String::new(), self.seq(b')')?)),
            c if c.is_ascii_alphanumeric() || c == b'_' || c == b'-' => {
                let w = self.word();
                match self.s.get(self.i) {
                    Some(b'(') => Some(V::Tuple(w, self.seq(b')')?)),
                    _ if self.peek() == b'{' => {
                        self.i += 1;
                        let mut f = vec![];
                        loop {
                            if self.peek() == b'}' {
                                self.i += 1;
                                return Some(V::Struct(w, f));
                            }
                            let n = self.word();
                            if self.peek() != b':' {
                                return None;
                            }
                            self.i += 1;
                            f.push((n, self.val()?));
                            if self.peek() == b',' {
                                self.i += 1;
                            }
                        }
                    }
                    _ => Some(V::Num(w)),
                }
            }
            _ => None,
        }
    }
}
pub fn parse(s: &str) -> Option<V> {
    Ps { s: s.as_bytes(), i: 0 }.val()
}

impl V {
    pub fn fields(&self) -> Vec<(String, V)> {
        match self {
            V::Struct(_, f) => f.clone(),
            V::Tuple(_, f) => f.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect(),
            _ => vec![],
        }
    }
    pub fn get(&self, n: &str) -> Option<V> {
        self.fields().into_iter().find(|(k, _)| k == n).map(|x| x.1)
    }
    pub fn usize(&self) -> Option<usize> {
        match self {
            V::Num(s) => s.parse().ok(),
            _ => None,
        }
    }
    pub fn elem<P: PrimeField, E: Env<P>>(&self, e: &E) -> Option<E::F> {
        match self {
            V::Tuple(n, v) if n == "SymNode" => Some(e.sym_elem(v.first()?.usize()? as u32)),
            V::Tuple(n, v) if n == "BigInt" => {
                if let V::List(l) = v.first()? {
                    let limbs: Option<Vec<u64>> = l.iter().map(|x| if let V::Num(s) = x { s.parse().ok() } else { None }).collect();
                    let mut bytes = vec![];
                    for l in limbs? {
                        bytes.extend(l.to_le_bytes());
                    }
                    return Some(e.c(P::from_le_bytes_mod_order(&bytes)));
                }
                None
            }
            V::Tuple(_, v) if v.len() == 1 => v[0].elem(e),
            _ => None,
        }
    }
    pub fn vec<P: PrimeField, E: Env<P>>(&self, e: &E) -> Option<Vec<E::F>> {
        match self {
            V::List(l) => l.iter().map(|x| x.elem(e)).collect(),
            _ => None,
        }
    }
    pub fn mat<P: PrimeField, E: Env<P>>(&self, e: &E) -> Option<Vec<Vec<E::F>>> {
        match self {
            V::List(l) => l.iter().map(|x| x.vec(e)).collect(),
            _ => None,
        }
    }
    fn is_mat(&self, r: usize, c: usize) -> bool {
        matches!(self, V::List(l) if l.len() == r && l.iter().all(|x| matches!(x, V::List(m) if m.len() == c)))
    }
    fn is_vec(&self, n: usize) -> bool {
        matches!(self, V::List(l) if l.len() == n && l.iter().all(|x| matches!(x, V::Tuple(..))))
    }
    /// By name, else the only (or first) field of the right shape.
    fn count(&self, names: &[&str]) -> Option<usize> {
        names.iter().find_map(|n| self.get(n)).and_then(|x| x.usize())
    }
    /// Full rounds at the beginning and at the end, partial rounds.
    pub fn schedule(&self) -> Option<(usize, usize, usize)> {
        let b = self.count(&["rounds_f_beginning", "rounds_f_begin", "rounds_f_start", "rounds_f_half", "half_rounds_f", "half_full_rounds"]);
        let (f, p, all) = (self.count(&["rounds_f", "full_rounds"]), self.count(&["rounds_p", "partial_rounds", "rounds_partial"]), self.count(&["rounds", "rounds_total", "total_rounds"]));
        let p = match (p, all, f, b) {
            (Some(p), ..) => p,
            (_, Some(a), Some(f), _) => a.checked_sub(f)?,
            (_, Some(a), _, Some(b)) => a.checked_sub(2 * b)?,
            _ => return None,
        };
        let b = match (b, f, all) {
            (Some(b), ..) => b,
            (_, Some(f), _) => f / 2,
            (_, _, Some(a)) => a.checked_sub(p)? / 2,
            _ => return None,
        };
        let e = match (self.count(&["rounds_f_end"]), f, all) {
            (Some(e), ..) => e,
            (_, Some(f), _) => f.checked_sub(b)?,
            (_, _, Some(a)) => a.checked_sub(p + b)?,
            _ => b,
        };
        Some((b, e, p))
    }
    pub fn find_mat(&self, names: &[&str], r: usize, c: usize) -> Option<V> {
        for n in names {
            if let Some(v) = self.get(n) {
                if v.is_mat(r, c) {
                    return Some(v);
                }
            }
        }
        self.fields().into_iter().map(|x| x.1).find(|v| v.is_mat(r, c))
    }
    pub fn find_vec(&self, names: &[&str], n: usize) -> Option<V> {
        for nm in names {
            if let Some(v) = self.get(nm) {
                if v.is_vec(n) {
                    return Some(v);
                }
            }
        }
        self.fields().into_iter().map(|x| x.1).find(|v| v.is_vec(n))
    }
}
