//! The logical container: the reference model every suite compares against.
//! Nothing here calls jubako.

use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::Mutex;

/// One observation of a container.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Obs {
    U(u64),
    S(i64),
    A(Vec<u8>),
    C(u16, u32),
    Str(String),
    Bool(bool),
    /// content bytes
    Data { len: u64, hash: [u8; 16], head: Vec<u8> },
    None,
    Missing(String),
    Err(String),
}

impl Obs {
    pub fn data(b: &[u8]) -> Obs {
        let h = blake3::hash(b);
        let mut hash = [0u8; 16];
        hash.copy_from_slice(&h.as_bytes()[..16]);
        Obs::Data { len: b.len() as u64, hash, head: b[..b.len().min(12)].to_vec() }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Obs::Err(_))
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 200 {
            let mut i = 200;
            while !s.is_char_boundary(i) { i -= 1; }
            s.truncate(i);
            s.push('…');
        }
        s
    }
}

pub type Dump = BTreeMap<String, Obs>;

/// First difference between two dumps over the keys accepted by `keep`.
pub fn diff(a: &Dump, b: &Dump, keep: impl Fn(&str) -> bool) -> Option<String> {
    for (k, v) in a {
        if !keep(k) { continue; }
        match b.get(k) {
            None => return Some(format!("{k}: {} vs <absent>", v.brief())),
            Some(w) if w != v => return Some(format!("{k}: {} vs {}", v.brief(), w.brief())),
            _ => {}
        }
    }
    for (k, v) in b {
        if keep(k) && !a.contains_key(k) {
            return Some(format!("{k}: <absent> vs {}", v.brief()));
        }
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint { Yes, No, Detect }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    Mem,
    /// whole file
    File,
    /// sub range of a file: bytes before, bytes after
    Range(u32, u32),
    /// a reader that is neither memory nor file and returns short reads
    Custom,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comp { None, Lz4(u32), Lzma(u32), Zstd(i32) }

#[derive(Clone, Debug)]
pub struct ContentSpec {
    pub data: Arc<Vec<u8>>,
    pub hint: Hint,
    pub src: Src,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode { One, Two, No }

pub type Name = &'static str;

pub fn intern(s: &str) -> Name {
    static T: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut t = T.lock().unwrap();
    if let Some(n) = t.get(s) { return n; }
    let n: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(s.to_string(), n);
    n
}

#[derive(Clone, Debug)]
pub enum Col {
    U(Name),
    S(Name),
    /// prefix length, value store, name
    A(usize, usize, Name),
    C(Name),
}
impl Col {
    pub fn name(&self) -> Name {
        match self { Col::U(n) | Col::S(n) | Col::A(_, _, n) | Col::C(n) => n }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    U(u64),
    S(i64),
    A(Vec<u8>),
    C(u16, u32),
    /// the same numbers, given through an already known word
    WU(u64),
    WS(i64),
    /// final position of the entry added as number `.1` of entry store `.0`, through an unsigned word
    RefU(usize, usize),
    /// same through a signed word
    RefS(usize, usize),
}

#[derive(Clone, Debug)]
pub struct EntrySpec {
    pub variant: Option<usize>,
    pub vals: Vec<(Name, Val)>,
}

#[derive(Clone, Debug, Default)]
pub struct EStoreSpec {
    pub common: Vec<Col>,
    pub variants: Vec<(Name, Vec<Col>)>,
    pub sort: Option<Vec<Name>>,
    pub entries: Vec<EntrySpec>,
}

#[derive(Clone, Debug)]
pub struct IndexSpec {
    pub name: String,
    pub store: usize,
    pub offset: u32,
    pub count: u32,
    /// take the offset from the handle of this entry instead
    pub offset_of: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct DirSpec {
    /// true = indexed
    pub vstores: Vec<bool>,
    pub estores: Vec<EStoreSpec>,
    pub indexes: Vec<IndexSpec>,
}

#[derive(Clone, Debug)]
pub struct ContainerSpec {
    pub comp: Comp,
    pub dedup: bool,
    pub contents: Vec<ContentSpec>,
    pub dir: DirSpec,
    pub mode: Mode,
    /// further content packs, each in its own file
    pub extra: Vec<(Comp, Vec<ContentSpec>)>,
}

impl ContainerSpec {
    pub fn contents_only(comp: Comp, contents: Vec<ContentSpec>) -> Self {
        ContainerSpec { comp, dedup: false, contents, dir: simple_dir(0), mode: Mode::One, extra: vec![] }
    }
}

/// A small directory: one unsigned column, `n` entries, one index "main".
pub fn simple_dir(n: u32) -> DirSpec {
    DirSpec {
        vstores: vec![],
        estores: vec![EStoreSpec {
            common: vec![Col::U("n")],
            variants: vec![],
            sort: None,
            entries: (0..n).map(|i| EntrySpec { variant: None, vals: vec![("n", Val::U(i as u64))] }).collect(),
        }],
        indexes: vec![IndexSpec { name: "main".into(), store: 0, offset: 0, count: n, offset_of: None }],
    }
}

/// Numeric compare for integers, bytewise for arrays.
pub fn cmp_val(a: &Obs, b: &Obs) -> std::cmp::Ordering {
    match (a, b) {
        (Obs::U(x), Obs::U(y)) => x.cmp(y),
        (Obs::S(x), Obs::S(y)) => x.cmp(y),
        (Obs::A(x), Obs::A(y)) => x.cmp(y),
        _ => panic!("cmp_val: {a:?} {b:?}"),
    }
}

/// Deterministic byte generators. `kind`: 0 constant, 1 text-like, 2 incompressible.
pub fn bytes(kind: u8, len: usize, salt: u64) -> Vec<u8> {
    match kind {
        0 => vec![(salt % 251) as u8; len],
        1 => {
            let w = format!("line {} of some compressible text / ", salt);
            w.bytes().cycle().take(len).collect()
        }
        _ => {
            let mut s = salt.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                s = s.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^= z >> 31;
                v.extend_from_slice(&z.to_le_bytes());
            }
            v.truncate(len);
            v
        }
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// One observation per line, for committed dumps.
pub fn dump_text(d: &Dump) -> String {
    let mut s = String::new();
    for (k, v) in d {
        let v = match v {
            Obs::U(u) => format!("U {u}"),
            Obs::S(i) => format!("S {i}"),
            Obs::A(a) => format!("A {}", hex(a)),
            Obs::C(p, c) => format!("C {p} {c}"),
            Obs::Str(x) => format!("T {}", hex(x.as_bytes())),
            Obs::Bool(b) => format!("B {b}"),
            Obs::Data { len, hash, head } => format!("D {len} {} {}", hex(hash), hex(head)),
            Obs::None => "N".into(),
            Obs::Missing(x) => format!("M {}", hex(x.as_bytes())),
            Obs::Err(x) => format!("E {}", hex(x.as_bytes())),
        };
        s += &format!("{k}\t{v}\n");
    }
    s
}

pub fn parse_dump(s: &str) -> Dump {
    let mut d = Dump::new();
    for l in s.lines() {
        let (k, v) = l.split_once('\t').unwrap();
        let f: Vec<&str> = v.split(' ').collect();
        let text = |x: &str| String::from_utf8(unhex(x)).unwrap();
        let o = match f[0] {
            "U" => Obs::U(f[1].parse().unwrap()),
            "S" => Obs::S(f[1].parse().unwrap()),
            "A" => Obs::A(unhex(f[1])),
            "C" => Obs::C(f[1].parse().unwrap(), f[2].parse().unwrap()),
            "T" => Obs::Str(text(f[1])),
            "B" => Obs::Bool(f[1] == "true"),
            "D" => { let mut hash = [0; 16]; hash.copy_from_slice(&unhex(f[2])); Obs::Data { len: f[1].parse().unwrap(), hash, head: unhex(f[3]) } }
            "N" => Obs::None,
            "M" => Obs::Missing(text(f[1])),
            _ => Obs::Err(text(f[1])),
        };
        d.insert(k.to_string(), o);
    }
    d
}
