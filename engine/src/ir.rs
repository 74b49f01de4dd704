//! Parser for the textual LLVM IR that rustc emits, into a form the interpreter can run directly.
use crate::expr::mask;
use std::collections::HashMap;
use std::sync::Arc;

pub type Opd = u32;
pub const KBIT: u32 = 1 << 31;
pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    St(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(crate::expr::Eid),
    W(Arc<u128>),
    A(Arc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Same,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Umax,
    Umin,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argty: Vec<TyId>,
    pub retty: TyId,
    pub normal: Option<u32>, // edge, for invoke
}
#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u8, u32, Opd, Opd),
    VBin(BinOp, u8, u32, Opd, Opd),
    FBin(u8, bool, u32, Opd, Opd),
    FNeg(bool, u32, Opd),
    ICmp(Pred, u8, u32, Opd, Opd),
    VICmp(Pred, u8, u32, Opd, Opd),
    FCmp(u8, bool, u32, Opd, Opd),
    Cast(CastOp, u8, u8, u32, Opd),
    VCast(CastOp, u8, u8, u32, Opd),
    BitcastV(u32, Opd, TyId, TyId),
    Load(u32, Opd, TyId, u8), // last: scalar bit width or 0
    Store(Opd, Opd, TyId, u8),
    Gep(u32, Opd, i64, Box<[(Opd, i64, u8)]>),
    Alloca(u32, u64),
    Select(u32, Opd, Opd, Opd, u8), // width if integer, 0 otherwise
    VSelect(u32, Opd, Opd, Opd, u8),
    Call(Box<Call>),
    ExtractVal(u32, Opd, Box<[u32]>),
    InsertVal(u32, Opd, Opd, Box<[u32]>),
    ExtractElem(u32, Opd, Opd),
    InsertElem(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Box<[i32]>),
    Rmw(Rmw, u8, u32, Opd, Opd),
    CmpXchg(u8, u32, Opd, Opd, Opd),
    Copy(u32, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u8, Opd, u32, Box<[(u128, u32)]>),
    Ret(Option<Opd>),
    Unreachable,
    Unsup(String),
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub block: u32,
    pub ip: u32,
    pub copies: Box<[(u32, Opd)]>,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
    pub block_start: Vec<u32>,
    pub edges: Vec<Edge>,
    pub kind: FnKind,
    pub self_dbg: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FnKind {
    Normal,
    Panic,
}
pub struct Module {
    pub types: Vec<Ty>,
    pub ty_size: Vec<u64>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub consts: Vec<Val>,
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
    pub dbg: DebugInfo,
}
#[derive(Default)]
pub struct DebugInfo {
    pub loc: HashMap<u32, (u32, u32, u32)>, // line, scope, inlinedAt
    pub scope: HashMap<u32, (u32, u32)>,    // scope -> (parent scope or 0, file)
    pub sub: HashMap<u32, (String, u32, u32)>, // subprogram -> (linkage/name, file, line)
    pub file: HashMap<u32, String>,
}
pub const RO: u64 = 1;
pub const RW: u64 = 2;
pub const FNS: u64 = 3;
pub const EXTS: u64 = 4;

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?}", c as char, self.rest(60)))
        }
    }
    fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).into_owned()
    }
    fn word_char(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && Self::word_char(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, x: &str) -> bool {
        if self.peek_word() == x {
            self.i += x.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (possibly quoted)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && Self::word_char(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn int(&mut self) -> Result<i128, String> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("integer expected: {:?}", w))
    }
}

pub struct Parser {
    m: Module,
    tymap: HashMap<Ty, TyId>,
    gaddr: HashMap<String, u64>,
    extidx: HashMap<String, u32>,
    kmap: HashMap<(u64, u8), Opd>,
}
type R<T> = Result<T, String>;

fn is_type_start(w: &str, c: u8) -> bool {
    if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
        return true;
    }
    match w {
        "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|b| b.is_ascii_digit()),
    }
}

impl Parser {
    fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let size = match &t {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, e) => n * self.m.ty_size[*e as usize],
            Ty::Vec(n, e) => match self.m.types[*e as usize] {
                Ty::Int(w) => ((*n as u64) * w as u64 + 7) / 8,
                _ => *n as u64 * self.m.ty_size[*e as usize],
            },
            Ty::St(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { self.align(*f) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.m.ty_size[*f as usize];
                }
                (o + al - 1) / al * al
            }
        };
        let id = self.m.types.len() as TyId;
        self.m.types.push(t.clone());
        self.m.ty_size.push(size);
        self.tymap.insert(t, id);
        id
    }
    fn align(&self, t: TyId) -> u64 {
        align_of(&self.m.types, &self.m.ty_size, t)
    }
    fn parse_ty(&mut self, c: &mut Cur) -> R<TyId> {
        let ch = c.peek();
        let t = match ch {
            b'{' => {
                c.i += 1;
                let mut v = vec![];
                while !c.eat(b'}') {
                    v.push(self.parse_ty(c)?);
                    c.eat(b',');
                }
                Ty::St(v, false)
            }
            b'[' => {
                c.i += 1;
                let n = c.int()? as u64;
                if !c.eat_word("x") {
                    return Err("array type".into());
                }
                let e = self.parse_ty(c)?;
                c.expect(b']')?;
                Ty::Arr(n, e)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let mut v = vec![];
                    while !c.eat(b'}') {
                        v.push(self.parse_ty(c)?);
                        c.eat(b',');
                    }
                    c.expect(b'>')?;
                    Ty::St(v, true)
                } else {
                    let n = c.int()? as u32;
                    if !c.eat_word("x") {
                        return Err("vector type".into());
                    }
                    let e = self.parse_ty(c)?;
                    c.expect(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            b'%' => return Err("named type".into()),
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.eat_word("addrspace") {
                            c.skip_paren();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if is_type_start(w, 0) => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("type expected: {:?} {:?}", w, c.rest(40))),
                }
            }
        };
        Ok(self.ty(t))
    }
    fn konst(&mut self, v: Val) -> Opd {
        if let Val::C(x) = v {
            if let Some(&o) = self.kmap.get(&(x, 0)) {
                return o;
            }
            let o = self.m.consts.len() as u32 | KBIT;
            self.m.consts.push(v);
            self.kmap.insert((x, 0), o);
            return o;
        }
        self.m.consts.push(v);
        (self.m.consts.len() - 1) as u32 | KBIT
    }
    fn zero(&self, t: TyId) -> Val {
        match &self.m.types[t as usize] {
            Ty::Int(w) if *w > 64 => Val::W(Arc::new(0)),
            Ty::Arr(n, e) => Val::A(Arc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vec(n, e) => Val::A(Arc::new(vec![self.zero(*e); *n as usize])),
            Ty::St(fs, _) => Val::A(Arc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => Val::C(0),
        }
    }
    fn int_val(&self, v: i128, t: TyId) -> Val {
        match self.m.types[t as usize] {
            Ty::Int(w) if w > 64 => Val::W(Arc::new(v as u128 & mask(w))),
            Ty::Int(w) => Val::C((v as u128 & mask(w)) as u64),
            _ => Val::C(v as u64),
        }
    }
    fn skip_words(c: &mut Cur, ws: &[&str]) {
        loop {
            let w = c.peek_word();
            if ws.contains(&w) {
                c.i += w.len();
                if c.s.get(c.i) == Some(&b'(') {
                    c.skip_paren();
                }
            } else {
                return;
            }
        }
    }
    /// constant of type t at cursor
    fn parse_const(&mut self, c: &mut Cur, t: TyId) -> R<Val> {
        let ch = c.peek();
        match ch {
            b'@' => {
                c.i += 1;
                let n = c.name();
                return self.gaddr.get(&n).map(|a| Val::C(*a)).ok_or_else(|| format!("unknown global {}", n));
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' && c.s[c.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u64));
                        c.i += 2;
                    } else if c.s[c.i] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u64));
                        c.i += 3;
                    } else {
                        v.push(Val::C(c.s[c.i] as u64));
                        c.i += 1;
                    }
                }
                c.i += 1;
                return Ok(Val::A(Arc::new(v)));
            }
            b'{' | b'[' | b'<' => {
                c.i += 1;
                let close = match ch {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let packed = ch == b'<' && c.peek() == b'{';
                if packed {
                    c.i += 1;
                }
                let close1 = if packed { b'}' } else { close };
                let mut v = vec![];
                while !c.eat(close1) {
                    let et = self.parse_ty(c)?;
                    v.push(self.parse_const(c, et)?);
                    c.eat(b',');
                }
                if packed {
                    c.expect(b'>')?;
                }
                return Ok(Val::A(Arc::new(v)));
            }
            _ => {}
        }
        let w = c.peek_word();
        let wl = w.len();
        match w {
            "true" => {
                c.i += wl;
                Ok(Val::C(1))
            }
            "false" | "null" => {
                c.i += wl;
                Ok(Val::C(0))
            }
            "undef" | "poison" | "zeroinitializer" | "none" => {
                c.i += wl;
                Ok(self.zero(t))
            }
            "splat" => {
                c.i += wl;
                c.expect(b'(')?;
                let et = self.parse_ty(c)?;
                let v = self.parse_const(c, et)?;
                c.expect(b')')?;
                let n = match self.m.types[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => return Err("splat".into()),
                };
                Ok(Val::A(Arc::new(vec![v; n as usize])))
            }
            "getelementptr" => {
                c.i += wl;
                Self::skip_words(c, &["inbounds", "nuw", "nusw", "inrange"]);
                c.expect(b'(')?;
                let st = self.parse_ty(c)?;
                c.expect(b',')?;
                let bt = self.parse_ty(c)?;
                let base = match self.parse_const(c, bt)? {
                    Val::C(b) => b,
                    _ => return Err("gep base".into()),
                };
                let mut idx = vec![];
                while c.eat(b',') {
                    let it = self.parse_ty(c)?;
                    let iw = match self.m.types[it as usize] {
                        Ty::Int(w) => w,
                        _ => return Err("gep idx".into()),
                    };
                    match self.parse_const(c, it)? {
                        Val::C(v) => idx.push(crate::expr::sext128(v as u128, iw) as i64),
                        _ => return Err("gep idx".into()),
                    }
                }
                c.expect(b')')?;
                let mut off = 0i64;
                let mut ct = st;
                for (k, i) in idx.iter().enumerate() {
                    if k == 0 {
                        off += i * self.m.ty_size[ct as usize] as i64;
                    } else {
                        let (o, nt) = self.field(ct, *i)?;
                        off += o;
                        ct = nt;
                    }
                }
                Ok(Val::C((base as i64).wrapping_add(off) as u64))
            }
            "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                c.i += wl;
                Self::skip_words(c, &["nuw", "nsw"]);
                c.expect(b'(')?;
                let ft = self.parse_ty(c)?;
                let v = self.parse_const(c, ft)?;
                if !c.eat_word("to") {
                    return Err("cast".into());
                }
                let tt = self.parse_ty(c)?;
                c.expect(b')')?;
                match v {
                    Val::C(x) => Ok(self.int_val(x as i128, tt)),
                    o => Ok(o),
                }
            }
            "sub" | "add" | "xor" => {
                c.i += wl;
                Self::skip_words(c, &["nuw", "nsw"]);
                c.expect(b'(')?;
                let t1 = self.parse_ty(c)?;
                let a = self.parse_const(c, t1)?;
                c.expect(b',')?;
                let t2 = self.parse_ty(c)?;
                let b = self.parse_const(c, t2)?;
                c.expect(b')')?;
                match (a, b) {
                    (Val::C(a), Val::C(b)) => Ok(self.int_val(
                        match w {
                            "sub" => (a as i128) - (b as i128),
                            "add" => (a as i128) + (b as i128),
                            _ => (a ^ b) as i128,
                        },
                        t1,
                    )),
                    _ => Err("const binop".into()),
                }
            }
            _ => {
                // number: decimal or hex float
                match self.m.types[t as usize] {
                    Ty::F32 | Ty::F64 => {
                        c.i += wl;
                        let bits = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else {
                            // 1.000000e+00: the + is not a word char
                            let mut s = w.to_string();
                            if c.i < c.s.len() && c.s[c.i] == b'+' {
                                c.i += 1;
                                s.push('+');
                                s.push_str(c.word());
                            }
                            s.parse::<f64>().map_err(|e| format!("{} {}", e, s))?.to_bits()
                        };
                        if self.m.types[t as usize] == Ty::F32 {
                            Ok(Val::C((f64::from_bits(bits) as f32).to_bits() as u64))
                        } else {
                            Ok(Val::C(bits))
                        }
                    }
                    _ => {
                        if w.is_empty() {
                            return Err(format!("constant expected at {:?}", c.rest(40)));
                        }
                        c.i += wl;
                        let v = if let Ok(v) = w.parse::<i128>() { v } else { w.parse::<u128>().map_err(|_| format!("constant {:?}", w))? as i128 };
                        Ok(self.int_val(v, t))
                    }
                }
            }
        }
    }
    /// (byte offset, type) of element i of aggregate t
    fn field(&self, t: TyId, i: i64) -> R<(i64, TyId)> {
        match &self.m.types[t as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => Ok((i * self.m.ty_size[*e as usize] as i64, *e)),
            Ty::St(fs, _) => Ok((struct_offset(&self.m.types, &self.m.ty_size, t, i as usize) as i64, fs[i as usize])),
            _ => Err("gep into scalar".into()),
        }
    }
    fn write_init(&mut self, buf: &mut Vec<u8>, off: usize, t: TyId, v: &Val) {
        let ty = self.m.types[t as usize].clone();
        match (ty, v) {
            (Ty::Arr(_, e), Val::A(xs)) | (Ty::Vec(_, e), Val::A(xs)) => {
                let s = self.m.ty_size[e as usize] as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.write_init(buf, off + i * s, e, x);
                }
            }
            (Ty::St(fs, _), Val::A(xs)) => {
                for (i, f) in fs.iter().enumerate() {
                    let o = struct_offset(&self.m.types, &self.m.ty_size, t, i) as usize;
                    self.write_init(buf, off + o, *f, &xs[i]);
                }
            }
            (_, Val::C(x)) => {
                let s = self.m.ty_size[t as usize] as usize;
                buf[off..off + s].copy_from_slice(&x.to_le_bytes()[..s]);
            }
            (_, Val::W(x)) => {
                buf[off..off + 16].copy_from_slice(&x.to_le_bytes());
            }
            _ => panic!("initializer shape"),
        }
    }
}
pub fn align_of(types: &[Ty], sizes: &[u64], t: TyId) -> u64 {
    match &types[t as usize] {
        Ty::Int(_) => sizes[t as usize].max(1).min(16),
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        Ty::Arr(_, e) => align_of(types, sizes, *e),
        Ty::Vec(..) => sizes[t as usize].next_power_of_two(),
        Ty::St(fs, p) => {
            if *p {
                1
            } else {
                fs.iter().map(|f| align_of(types, sizes, *f)).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}
pub fn struct_offset(types: &[Ty], sizes: &[u64], t: TyId, idx: usize) -> u64 {
    if let Ty::St(fs, packed) = &types[t as usize] {
        let mut o = 0u64;
        for (i, f) in fs.iter().enumerate() {
            let a = if *packed { 1 } else { align_of(types, sizes, *f) };
            o = (o + a - 1) / a * a;
            if i == idx {
                return o;
            }
            o += sizes[*f as usize];
        }
    }
    panic!("struct_offset")
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    edges: Vec<Edge>,
    phis: HashMap<(u32, u32), Vec<(u32, Opd)>>, // (pred, block) -> copies
    cur_block: u32,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push(Edge { block: to, ip: self.cur_block, copies: Box::new([]) });
        (self.edges.len() - 1) as u32
    }
}

impl Parser {
    fn opd(&mut self, c: &mut Cur, f: &mut FnCtx, t: TyId) -> R<Opd> {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return Ok(f.reg(&n));
        }
        let v = self.parse_const(c, t)?;
        Ok(self.konst(v))
    }
    fn tyopd(&mut self, c: &mut Cur, f: &mut FnCtx) -> R<(TyId, Opd)> {
        let t = self.parse_ty(c)?;
        let o = self.opd(c, f, t)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur, f: &mut FnCtx) -> R<u32> {
        if !c.eat_word("label") {
            return Err(format!("label expected {:?}", c.rest(30)));
        }
        c.expect(b'%')?;
        let n = c.name();
        let b = *f.blocks.get(&n).ok_or_else(|| format!("unknown block {}", n))?;
        Ok(f.edge(b))
    }
    fn width(&self, t: TyId) -> u8 {
        match self.m.types[t as usize] {
            Ty::Int(w) => w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    /// (is vector, element width)
    fn vw(&self, t: TyId) -> (bool, u8) {
        match self.m.types[t as usize] {
            Ty::Vec(_, e) => (true, self.width(e)),
            _ => (false, self.width(t)),
        }
    }
    fn inst(&mut self, text: &str, f: &mut FnCtx) -> R<I> {
        let mut cur = Cur::new(text);
        let c = &mut cur;
        let mut dst: Option<u32> = None;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            c.expect(b'=')?;
            dst = Some(f.reg(&n));
        }
        let d = dst.unwrap_or(0);
        let mut op = c.word();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = c.word();
        }
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(b) = bin {
            Self::skip_words(c, &flags);
            let (t, x) = self.tyopd(c, f)?;
            c.expect(b',')?;
            let y = self.opd(c, f, t)?;
            let (v, w) = self.vw(t);
            if w == 0 || w > 128 {
                return Err("width".into());
            }
            return Ok(if v { I::VBin(b, w, d, x, y) } else { I::Bin(b, w, d, x, y) });
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::Zext),
            "sext" => Some(CastOp::Sext),
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => Some(CastOp::Same),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "fpext" => Some(CastOp::FpExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            Self::skip_words(c, &flags);
            let (t, x) = self.tyopd(c, f)?;
            if !c.eat_word("to") {
                return Err("cast".into());
            }
            let t2 = self.parse_ty(c)?;
            let (v1, w1) = self.vw(t);
            let (v2, w2) = self.vw(t2);
            if op == "bitcast" && (v1 || v2) {
                return Ok(I::BitcastV(d, x, t, t2));
            }
            if w1 == 0 || w2 == 0 {
                return Err("cast width".into());
            }
            // ptrtoint/inttoptr may change width
            let k = if k == CastOp::Same && w1 > w2 {
                CastOp::Trunc
            } else if k == CastOp::Same && w1 < w2 {
                CastOp::Zext
            } else {
                k
            };
            return Ok(if v1 { I::VCast(k, w1, w2, d, x) } else { I::Cast(k, w1, w2, d, x) });
        }
        match op {
            "icmp" => {
                Self::skip_words(c, &flags);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let y = self.opd(c, f, t)?;
                let (v, w) = self.vw(t);
                if w == 0 || w > 128 {
                    return Err("width".into());
                }
                Ok(if v { I::VICmp(p, w, d, x, y) } else { I::ICmp(p, w, d, x, y) })
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                Self::skip_words(c, &flags);
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let y = self.opd(c, f, t)?;
                let k = ["fadd", "fsub", "fmul", "fdiv", "frem"].iter().position(|o| *o == op).unwrap() as u8;
                Ok(I::FBin(k, self.m.types[t as usize] == Ty::F64, d, x, y))
            }
            "fneg" => {
                Self::skip_words(c, &flags);
                let (t, x) = self.tyopd(c, f)?;
                Ok(I::FNeg(self.m.types[t as usize] == Ty::F64, d, x))
            }
            "fcmp" => {
                Self::skip_words(c, &flags);
                let p = ["oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"].iter().position(|o| *o == c.peek_word()).ok_or("fcmp")? as u8;
                c.word();
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let y = self.opd(c, f, t)?;
                Ok(I::FCmp(p, self.m.types[t as usize] == Ty::F64, d, x, y))
            }
            "load" => {
                Self::skip_words(c, &["atomic", "volatile"]);
                let t = self.parse_ty(c)?;
                c.expect(b',')?;
                let (_, p) = self.tyopd(c, f)?;
                let w = self.width(t);
                Ok(I::Load(d, p, t, w))
            }
            "store" => {
                Self::skip_words(c, &["atomic", "volatile"]);
                let (t, v) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, p) = self.tyopd(c, f)?;
                let w = self.width(t);
                Ok(I::Store(v, p, t, w))
            }
            "getelementptr" => {
                Self::skip_words(c, &flags);
                let st = self.parse_ty(c)?;
                c.expect(b',')?;
                let (bt, base) = self.tyopd(c, f)?;
                if self.m.types[bt as usize] != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut var = vec![];
                let mut ct = st;
                let mut k = 0;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, io) = self.tyopd(c, f)?;
                    let w = self.width(it);
                    let scale = if k == 0 {
                        self.m.ty_size[ct as usize] as i64
                    } else {
                        match self.m.types[ct as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                ct = e;
                                self.m.ty_size[e as usize] as i64
                            }
                            Ty::St(..) => {
                                let i = match self.m.consts[(io & !KBIT) as usize] {
                                    Val::C(v) => v as i64,
                                    _ => return Err("gep struct".into()),
                                };
                                let (o, nt) = self.field(ct, i)?;
                                off += o;
                                ct = nt;
                                k += 1;
                                continue;
                            }
                            _ => return Err("gep scalar".into()),
                        }
                    };
                    k += 1;
                    if io & KBIT != 0 {
                        if let Val::C(v) = self.m.consts[(io & !KBIT) as usize] {
                            off = off.wrapping_add((crate::expr::sext128(v as u128, w as u32) as i64).wrapping_mul(scale));
                            continue;
                        }
                    }
                    var.push((io, scale, w));
                }
                Ok(I::Gep(d, base, off, var.into_boxed_slice()))
            }
            "alloca" => {
                let t = self.parse_ty(c)?;
                let mut n = 1;
                if c.eat(b',') && c.peek_word() != "align" && c.peek() != b'!' {
                    let (_, o) = self.tyopd(c, f)?;
                    match self.m.consts.get((o & !KBIT) as usize) {
                        Some(Val::C(v)) if o & KBIT != 0 => n = *v,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
                Ok(I::Alloca(d, self.m.ty_size[t as usize] * n))
            }
            "select" => {
                Self::skip_words(c, &flags);
                let (ct, k) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                let (cv, _) = self.vw(ct);
                let (v, w) = self.vw(t);
                if cv {
                    return Ok(I::VSelect(d, k, x, y, w));
                }
                let w = if v || !matches!(self.m.types[t as usize], Ty::Int(_)) { 0 } else { w };
                Ok(I::Select(d, k, x, y, w))
            }
            "freeze" => {
                let (_, x) = self.tyopd(c, f)?;
                Ok(I::Copy(d, x))
            }
            "extractvalue" => {
                let (_, x) = self.tyopd(c, f)?;
                let mut p = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    p.push(c.int()? as u32);
                }
                Ok(I::ExtractVal(d, x, p.into_boxed_slice()))
            }
            "insertvalue" => {
                let (_, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                let mut p = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    p.push(c.int()? as u32);
                }
                Ok(I::InsertVal(d, x, y, p.into_boxed_slice()))
            }
            "extractelement" => {
                let (_, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                Ok(I::ExtractElem(d, x, y))
            }
            "insertelement" => {
                let (_, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, z) = self.tyopd(c, f)?;
                Ok(I::InsertElem(d, x, y, z))
            }
            "shufflevector" => {
                let (_, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let mt = self.parse_ty(c)?;
                let m = self.parse_const(c, mt)?;
                let mut v = vec![];
                if let Val::A(xs) = m {
                    for x in xs.iter() {
                        if let Val::C(k) = x {
                            v.push(*k as i32)
                        }
                    }
                }
                Ok(I::Shuffle(d, x, y, v.into_boxed_slice()))
            }
            "atomicrmw" => {
                Self::skip_words(c, &["volatile"]);
                let k = match c.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "umax" => Rmw::Umax,
                    "umin" => Rmw::Umin,
                    x => return Err(format!("rmw {}", x)),
                };
                let (_, p) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (t, v) = self.tyopd(c, f)?;
                let w = self.width(t);
                Ok(I::Rmw(k, w, d, p, v))
            }
            "cmpxchg" => {
                Self::skip_words(c, &["weak", "volatile"]);
                let (_, p) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let (_, y) = self.tyopd(c, f)?;
                let w = self.width(t);
                Ok(I::CmpXchg(w, d, p, x, y))
            }
            "fence" => Ok(I::Nop),
            "br" => {
                if c.peek_word() == "label" {
                    let e = self.label(c, f)?;
                    Ok(I::Br(e))
                } else {
                    let (_, x) = self.tyopd(c, f)?;
                    c.expect(b',')?;
                    let a = self.label(c, f)?;
                    c.expect(b',')?;
                    let b = self.label(c, f)?;
                    Ok(I::CondBr(x, a, b))
                }
            }
            "switch" => {
                let (t, x) = self.tyopd(c, f)?;
                c.expect(b',')?;
                let dflt = self.label(c, f)?;
                c.expect(b'[')?;
                let mut cs = vec![];
                while !c.eat(b']') {
                    let ct = self.parse_ty(c)?;
                    let k = match self.parse_const(c, ct)? {
                        Val::C(v) => v as u128,
                        Val::W(v) => *v,
                        _ => return Err("switch".into()),
                    };
                    c.expect(b',')?;
                    let l = self.label(c, f)?;
                    cs.push((k, l));
                }
                Ok(I::Switch(self.width(t), x, dflt, cs.into_boxed_slice()))
            }
            "ret" => {
                if c.peek_word() == "void" {
                    Ok(I::Ret(None))
                } else {
                    let (_, x) = self.tyopd(c, f)?;
                    Ok(I::Ret(Some(x)))
                }
            }
            "unreachable" => Ok(I::Unreachable),
            "call" | "invoke" => {
                // skip calling convention and return attributes
                loop {
                    let ch = c.peek();
                    if ch == b'{' || ch == b'[' || ch == b'<' {
                        break;
                    }
                    let w = c.peek_word();
                    if is_type_start(w, 0) {
                        break;
                    }
                    if w.is_empty() {
                        return Err(format!("call {:?}", c.rest(40)));
                    }
                    c.i += w.len();
                    if w == "align" {
                        c.word();
                    }
                    if c.peek() == b'(' {
                        c.skip_paren();
                    }
                }
                let rt = self.parse_ty(c)?;
                if c.peek() == b'(' {
                    c.skip_paren();
                }
                let ch = c.peek();
                let callee = if ch == b'@' {
                    c.i += 1;
                    let n = c.name();
                    if let Some(&i) = self.m.fidx.get(&n) {
                        Callee::Fn(i)
                    } else if let Some(&i) = self.extidx.get(&n) {
                        Callee::Ext(i)
                    } else {
                        return Err(format!("callee {}", n));
                    }
                } else if ch == b'%' {
                    c.i += 1;
                    let n = c.name();
                    Callee::Ind(f.reg(&n))
                } else {
                    return Err(format!("callee {:?}", c.rest(40)));
                };
                c.expect(b'(')?;
                let mut args = vec![];
                let mut argty = vec![];
                while !c.eat(b')') {
                    if c.peek_word() == "metadata" {
                        // skip to , or )
                        let mut depth = 0;
                        while c.i < c.s.len() {
                            let ch = c.s[c.i];
                            if ch == b'(' {
                                depth += 1
                            }
                            if ch == b')' {
                                if depth == 0 {
                                    break;
                                }
                                depth -= 1
                            }
                            if ch == b',' && depth == 0 {
                                break;
                            }
                            c.i += 1;
                        }
                        c.eat(b',');
                        continue;
                    }
                    let t = self.parse_ty(c)?;
                    self.skip_attrs(c);
                    let o = self.opd(c, f, t)?;
                    args.push(o);
                    argty.push(t);
                    c.eat(b',');
                }
                let mut normal = None;
                if op == "invoke" {
                    let txt = std::str::from_utf8(&c.s[c.i..]).unwrap();
                    let k = txt.find("to label").ok_or("invoke")?;
                    c.i += k + 3;
                    normal = Some(self.label(c, f)?);
                }
                let dst = if self.m.types[rt as usize] == Ty::Void { None } else { dst };
                Ok(I::Call(Box::new(Call { dst, callee, args, argty, retty: rt, normal })))
            }
            x => Err(format!("instruction {}", x)),
        }
    }
    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            let ch = c.peek();
            if ch == b'%' || ch == b'@' || ch == b'{' || ch == b'[' || ch == b'<' || ch == b'-' || ch.is_ascii_digit() {
                return;
            }
            if ch == b'"' {
                // string attribute
                c.i += 1;
                while c.s[c.i] != b'"' {
                    c.i += 1;
                }
                c.i += 1;
                continue;
            }
            let w = c.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "trunc" | "sub" | "add" | "bitcast" | "ptrtoaddr" | "xor" | "" => return,
                "c" if c.s.get(c.i + 1) == Some(&b'"') => return,
                _ => {}
            }
            c.i += w.len();
            if w == "align" && c.peek() != b'(' {
                c.word();
            } else if c.i < c.s.len() && c.s[c.i] == b'(' {
                c.skip_paren();
            }
        }
    }
    fn body(&mut self, fi: usize, params: Vec<String>, lines: &[&str]) {
        let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), edges: vec![], phis: HashMap::new(), cur_block: 0 };
        let mut pr = vec![];
        let mut unnamed = 0;
        for p in &params {
            if p.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            pr.push(f.reg(p));
        }
        // pass 1: blocks
        let mut logical: Vec<(Option<String>, String)> = vec![]; // label or instruction
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            let tr = l.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                logical.push((Some(lab), String::new()));
                continue;
            }
            if l.starts_with("          ") {
                // continuation (invoke targets, landingpad clauses)
                if let Some(last) = logical.last_mut() {
                    last.1.push(' ');
                    last.1.push_str(tr);
                }
                continue;
            }
            let mut s = tr.to_string();
            if s.starts_with("switch") {
                while i < lines.len() && !s.contains(']') {
                    s.push(' ');
                    s.push_str(lines[i].trim());
                    i += 1;
                }
            }
            logical.push((None, s));
        }
        if logical.first().map_or(true, |x| x.0.is_none()) {
            logical.insert(0, (Some(unnamed.to_string()), String::new()));
        }
        for (l, _) in &logical {
            if let Some(l) = l {
                let n = f.blocks.len() as u32;
                f.blocks.insert(l.clone(), n);
            }
        }
        let mut insts = vec![];
        let mut dbg = vec![];
        let mut starts = vec![];
        let mut bi: i64 = -1;
        for (l, s) in &logical {
            if l.is_some() {
                bi += 1;
                f.cur_block = bi as u32;
                starts.push(insts.len() as u32);
                continue;
            }
            // phi
            let mut c = Cur::new(s);
            if c.peek() == b'%' {
                c.i += 1;
                let n = c.name();
                if c.eat(b'=') && c.eat_word("phi") {
                    Self::skip_words(&mut c, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                    let r: R<()> = (|| {
                        let d = f.reg(&n);
                        let t = self.parse_ty(&mut c)?;
                        loop {
                            c.expect(b'[')?;
                            let o = self.opd(&mut c, &mut f, t)?;
                            c.expect(b',')?;
                            c.expect(b'%')?;
                            let bn = c.name();
                            c.expect(b']')?;
                            let pb = *f.blocks.get(&bn).ok_or_else(|| format!("phi block {}", bn))?;
                            f.phis.entry((pb, bi as u32)).or_default().push((d, o));
                            if !(c.peek() == b',' && {
                                let sv = c.i;
                                c.i += 1;
                                let ok = c.peek() == b'[';
                                if !ok {
                                    c.i = sv;
                                }
                                ok
                            }) {
                                break;
                            }
                        }
                        Ok(())
                    })();
                    if let Err(e) = r {
                        insts.push(I::Unsup(format!("{}: {}", e, s)));
                        dbg.push(0);
                    }
                    continue;
                }
            }
            let ins = match self.inst(s, &mut f) {
                Ok(i) => i,
                Err(e) => I::Unsup(format!("{}: {}", e, s)),
            };
            let dl = s.rfind("!dbg !").map_or(0, |k| s[k + 6..].bytes().take_while(|b| b.is_ascii_digit()).fold(0u32, |a, b| a * 10 + (b - b'0') as u32));
            insts.push(ins);
            dbg.push(dl);
        }
        for e in f.edges.iter_mut() {
            let from = e.ip;
            e.ip = starts[e.block as usize];
            if let Some(p) = f.phis.get(&(from, e.block)) {
                let mut p = p.clone();
                p.dedup();
                e.copies = p.into_boxed_slice();
            }
        }
        let fun = &mut self.m.funcs[fi];
        fun.nregs = f.regs.len() as u32;
        fun.params = pr;
        fun.insts = insts;
        fun.dbg = dbg;
        fun.block_start = starts;
        fun.edges = f.edges;
    }
}

fn define_name(l: &str) -> Option<(String, usize)> {
    let k = l.find('@')?;
    let mut c = Cur::new(l);
    c.i = k + 1;
    let n = c.name();
    Some((n, c.i))
}

pub fn parse(text: &str) -> Result<Module, String> {
    let m = Module { types: vec![], ty_size: vec![], funcs: vec![], fidx: HashMap::new(), exts: vec![], consts: vec![], ro: vec![], rw: vec![], dbg: DebugInfo::default() };
    let mut p = Parser { m, tymap: HashMap::new(), gaddr: HashMap::new(), extidx: HashMap::new(), kmap: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    struct G<'a> {
        rest: &'a str,
        ty: TyId,
        ro: bool,
        off: u64,
    }
    let mut gs: Vec<G> = vec![];
    let mut bodies: Vec<(usize, usize, usize)> = vec![]; // func, first line, last line
    let (mut ro, mut rw) = (16u64, 16u64);
    let mut i = 0;
    let mut last_comment = "";
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let mut c = Cur::new(l);
            c.i = 1;
            let name = c.name();
            c.expect(b'=')?;
            // linkage etc. until "global" or "constant"
            let mut is_ro = false;
            let mut external = false;
            let mut alias = false;
            loop {
                let w = c.word();
                match w {
                    "constant" => {
                        is_ro = true;
                        break;
                    }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "" => {
                        if c.peek() == b'(' {
                            c.skip_paren();
                        } else {
                            return Err(format!("global {}", l));
                        }
                    }
                    _ => {}
                }
            }
            if alias {
                i += 1;
                continue;
            }
            let ty = p.parse_ty(&mut c)?;
            let size = p.m.ty_size[ty as usize].max(1);
            let cur = if is_ro { &mut ro } else { &mut rw };
            let off = (*cur + 31) / 32 * 32;
            *cur = off + size;
            p.gaddr.insert(name, ((if is_ro { RO } else { RW }) << 32) | off);
            if !external {
                gs.push(G { rest: &l[c.i..], ty, ro: is_ro, off });
            }
        } else if l.starts_with("declare") {
            if let Some((n, _)) = define_name(l) {
                let id = p.m.exts.len() as u32;
                p.gaddr.insert(n.clone(), (EXTS << 32) | (id as u64 * 16));
                p.extidx.insert(n.clone(), id);
                p.m.exts.push(n);
            }
        } else if l.starts_with("define") {
            let (n, _) = define_name(l).ok_or("define")?;
            let id = p.m.funcs.len();
            p.gaddr.insert(n.clone(), (FNS << 32) | ((id as u64 + 1) * 16));
            p.m.fidx.insert(n.clone(), id as u32);
            let mut e = i + 1;
            while lines[e] != "}" {
                e += 1;
            }
            bodies.push((id, i, e));
            let kind = if (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("5alloc5alloc18handle_alloc_error") || n.contains("rust_panic")) && !n.contains("panic_count") && !n.contains("6thread") {
                FnKind::Panic
            } else {
                FnKind::Normal
            };
            let sd = l.rfind("!dbg !").map_or(0, |k| l[k + 6..].bytes().take_while(|b| b.is_ascii_digit()).fold(0u32, |a, b| a * 10 + (b - b'0') as u32));
            p.m.funcs.push(Func { name: n, pretty: last_comment.to_string(), nregs: 0, params: vec![], insts: vec![], dbg: vec![], block_start: vec![], edges: vec![], kind, self_dbg: sd });
            i = e;
            last_comment = "";
        } else if l.starts_with(';') {
            if !l.starts_with("; Function Attrs") {
                last_comment = l[1..].trim();
            }
        } else if l.starts_with('!') {
            parse_md(l, &mut p.m.dbg);
        }
        i += 1;
    }
    let mut rob = vec![0u8; ro as usize + 16];
    let mut rwb = vec![0u8; rw as usize + 16];
    for g in gs {
        let mut c = Cur::new(g.rest);
        let v = match p.parse_const(&mut c, g.ty) {
            Ok(v) => v,
            Err(e) => return Err(format!("initializer {}: {}", e, &g.rest[..g.rest.len().min(200)])),
        };
        let buf = if g.ro { &mut rob } else { &mut rwb };
        p.write_init(buf, g.off as usize, g.ty, &v);
    }
    p.m.ro = rob;
    p.m.rw = rwb;
    for (id, a, b) in bodies {
        // parameters
        let l = lines[a];
        let (_, e) = define_name(l).unwrap();
        let mut c = Cur::new(l);
        c.i = e;
        c.expect(b'(')?;
        let mut params = vec![];
        let mut ok = true;
        while !c.eat(b')') {
            if c.peek() == b'.' {
                ok = false;
                break;
            }
            if p.parse_ty(&mut c).is_err() {
                ok = false;
                break;
            }
            p.skip_attrs(&mut c);
            if c.eat(b'%') {
                params.push(c.name());
            } else {
                params.push(params.len().to_string());
            }
            c.eat(b',');
        }
        if ok {
            p.body(id, params, &lines[a + 1..b]);
        } else {
            p.m.funcs[id].insts = vec![I::Unsup(format!("signature {}", l))];
            p.m.funcs[id].dbg = vec![0];
            p.m.funcs[id].block_start = vec![0];
        }
    }
    Ok(p.m)
}

fn md_num(l: &str, key: &str) -> Option<u32> {
    let k = l.find(key)?;
    let s = &l[k + key.len()..];
    let s = s.strip_prefix('!').unwrap_or(s);
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn md_str(l: &str, key: &str) -> Option<String> {
    let k = l.find(key)?;
    let s = &l[k + key.len()..];
    let s = s.strip_prefix('"')?;
    Some(s.split('"').next()?.to_string())
}
fn parse_md(l: &str, d: &mut DebugInfo) {
    let e = match l[1..].find(' ') {
        Some(e) => e,
        None => return,
    };
    let id: u32 = match l[1..1 + e].parse() {
        Ok(i) => i,
        Err(_) => return,
    };
    if l.contains("!DILocation(") {
        d.loc.insert(id, (md_num(l, "line: ").unwrap_or(0), md_num(l, "scope: ").unwrap_or(0), md_num(l, "inlinedAt: ").unwrap_or(0)));
    } else if l.contains("!DISubprogram(") {
        let n = md_str(l, "linkageName: ").or_else(|| md_str(l, "name: ")).unwrap_or_default();
        let n2 = md_str(l, "(name: ").unwrap_or_default();
        d.sub.insert(id, (if n2.is_empty() { n } else { n2 }, md_num(l, "file: ").unwrap_or(0), md_num(l, " line: ").unwrap_or(0)));
        d.scope.insert(id, (0, md_num(l, "file: ").unwrap_or(0)));
    } else if l.contains("!DILexicalBlock") {
        d.scope.insert(id, (md_num(l, "scope: ").unwrap_or(0), md_num(l, "file: ").unwrap_or(0)));
    } else if l.contains("!DIFile(") {
        let n = md_str(l, "filename: ").unwrap_or_default();
        let dir = md_str(l, "directory: ").unwrap_or_default();
        d.file.insert(id, if n.starts_with('/') || dir.is_empty() { n } else { format!("{}/{}", dir, n) });
    }
}
