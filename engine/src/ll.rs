//! Parser for textual LLVM IR (the subset rustc emits).
//! Top level is indexed eagerly; function bodies are parsed on demand.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Half,
    Float,
    Double,
    Fp128,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Func(Arc<Ty>),
    Label,
    Metadata,
    Opaque,
}

pub fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque | Ty::Func(_) => (0, 1),
            Ty::Int(n) => {
                let st = (*n as u64 + 7) / 8;
                let al = if st <= 1 {
                    1
                } else if st <= 2 {
                    2
                } else if st <= 4 {
                    4
                } else if st <= 8 {
                    8
                } else {
                    16
                };
                (align_to(st, al), al)
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Half => (2, 2),
            Ty::Float => (4, 4),
            Ty::Fp128 => (16, 16),
            Ty::Arr(n, t) => {
                let (s, a) = t.size_align();
                (s * n, a)
            }
            Ty::Vec(n, t) => {
                let bits = match &**t {
                    Ty::Int(b) => *b as u64,
                    o => o.size_align().0 * 8,
                };
                let sz = (bits * n + 7) / 8;
                let al = sz.next_power_of_two();
                (align_to(sz, al), al)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs.iter() {
                    let (s, a) = f.size_align();
                    let a = if *packed { 1 } else { a };
                    off = align_to(off, a);
                    off += s;
                    al = al.max(a);
                }
                (align_to(off, al), al)
            }
        }
    }
    pub fn size(&self) -> u64 {
        self.size_align().0
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = f.size_align();
                    let a = if *packed { 1 } else { a };
                    off = align_to(off, a);
                    if k == i {
                        return off;
                    }
                    off += s;
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    /// Scalar leaves: (bit width, byte offset). Vector-of-i1 leaves use offset == u64::MAX marker handled by caller.
    pub fn leaves(&self, base: u64, out: &mut Vec<(u32, u64)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque | Ty::Func(_) => {}
            Ty::Int(n) => out.push((*n, base)),
            Ty::Ptr | Ty::Double => out.push((64, base)),
            Ty::Half => out.push((16, base)),
            Ty::Float => out.push((32, base)),
            Ty::Fp128 => out.push((128, base)),
            Ty::Arr(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.leaves(base + i * s, out);
                }
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.leaves(base + i * s, out);
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let o = self.field_off(i);
                    fs[i].leaves(base + o, out);
                }
            }
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque | Ty::Func(_) => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nleaves()).sum(),
            _ => 1,
        }
    }
    pub fn is_fp(&self) -> bool {
        matches!(self, Ty::Float | Ty::Double | Ty::Half | Ty::Fp128)
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Half => 16,
            Ty::Fp128 => 128,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero,
    Undef,
    Agg(Vec<(Ty, Const)>),
    Splat(Ty, Box<Const>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Ty, Vec<(Ty, Const)>),
    Cast(String, Ty, Box<Const>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
    Fp(f64),
}

#[derive(Clone, Debug)]
pub enum Val {
    Local(String),
    Const(Const),
    Asm,
    Meta,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(String, Ty, Val, Val),
    FNeg(Ty, Val),
    ICmp(String, Ty, Val, Val),
    FCmp(String, Ty, Val, Val),
    Cast(String, Ty, Val, Ty),
    Select(Ty, Val, Ty, Val, Val),
    Load(Ty, Val),
    Store(Ty, Val, Val),
    Gep(Ty, Ty, Val, Vec<(Ty, Val)>),
    Alloca(Ty, Ty, Val, u64),
    Call(Ty, Val, Vec<(Ty, Val)>, Option<String>),
    ExtractValue(Ty, Val, Vec<usize>),
    InsertValue(Ty, Val, Ty, Val, Vec<usize>),
    ExtractElement(Ty, Val, Ty, Val),
    InsertElement(Ty, Val, Ty, Val, Ty, Val),
    ShuffleVector(Ty, Val, Ty, Val, Ty, Val),
    Freeze(Ty, Val),
    Phi(Ty, Vec<(Val, String)>),
    AtomicRmw(String, Val, Ty, Val),
    CmpXchg(Val, Ty, Val, Val),
    Fence,
    Br(String),
    CondBr(Val, String, String),
    Switch(Ty, Val, String, Vec<(u128, String)>),
    Ret(Ty, Option<Val>),
    Unreachable,
    Landingpad,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<(Option<String>, Inst)>,
}

#[derive(Clone, Debug)]
pub struct FnBody {
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, String)>,
    pub body: Option<(usize, usize)>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FnDecl>,
    pub aliases: Vec<(String, Const)>,
}

pub struct P<'a> {
    t: &'a [u8],
    pub i: usize,
    types: &'a HashMap<String, Ty>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(t: &'a [u8], i: usize, types: &'a HashMap<String, Ty>) -> Self {
        P { t, i, types }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let s = self.i.saturating_sub(80);
        let e = (self.i + 80).min(self.t.len());
        Err(format!("ll parse error: {} near >>>{}<<<", m, String::from_utf8_lossy(&self.t[s..e])))
    }
    pub fn ws(&mut self) {
        loop {
            while self.i < self.t.len() && self.t[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.t.len() && self.t[self.i] == b';' {
                while self.i < self.t.len() && self.t[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.t.len() {
            self.t[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c as char))
        }
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.t.len() && is_word(self.t[j]) {
            j += 1;
        }
        &self.t[self.i..j]
    }
    pub fn word(&mut self) -> &'a [u8] {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    pub fn eat_word(&mut self, w: &[u8]) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after a sigil: quoted or plain
    pub fn name(&mut self) -> R<String> {
        if self.i < self.t.len() && self.t[self.i] == b'"' {
            let b = self.qstring()?;
            return Ok(String::from_utf8_lossy(&b).into_owned());
        }
        let mut j = self.i;
        while j < self.t.len() && is_word(self.t[j]) {
            j += 1;
        }
        let s = String::from_utf8_lossy(&self.t[self.i..j]).into_owned();
        self.i = j;
        Ok(s)
    }
    pub fn qstring(&mut self) -> R<Vec<u8>> {
        self.expect(b'"')?;
        let mut out = vec![];
        loop {
            if self.i >= self.t.len() {
                return self.err("eof in string");
            }
            let c = self.t[self.i];
            self.i += 1;
            if c == b'"' {
                return Ok(out);
            }
            if c == b'\\' {
                if self.t[self.i] == b'\\' {
                    out.push(b'\\');
                    self.i += 1;
                } else {
                    let h = std::str::from_utf8(&self.t[self.i..self.i + 2]).unwrap();
                    out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    self.i += 2;
                }
            } else {
                out.push(c);
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            let c = self.t[self.i];
            if c == b'"' {
                let _ = self.qstring();
                continue;
            }
            self.i += 1;
            if c == b'(' {
                d += 1
            }
            if c == b')' {
                d -= 1;
                if d == 0 {
                    return;
                }
            }
        }
    }
    pub fn uint(&mut self) -> R<u64> {
        self.ws();
        let s = self.i;
        while self.i < self.t.len() && self.t[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.t[s..self.i]).unwrap().parse().or_else(|_| self.err("uint"))
    }
    pub fn ty(&mut self) -> R<Ty> {
        let mut t = self.ty0()?;
        loop {
            if self.peek() == b'(' {
                // function type
                self.skip_parens();
                t = Ty::Func(Arc::new(t));
            } else if self.peek() == b'*' {
                self.i += 1;
                t = Ty::Ptr;
            } else {
                return Ok(t);
            }
        }
    }
    fn ty0(&mut self) -> R<Ty> {
        match self.peek() {
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                match self.types.get(&n) {
                    Some(t) => Ok(t.clone()),
                    None => self.err("unknown type"),
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                if !self.eat_word(b"x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Arc::new(t)))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let fs = self.struct_fields()?;
                    self.expect(b'>')?;
                    return Ok(Ty::Struct(Arc::new(fs), true));
                }
                let n = self.uint()?;
                if !self.eat_word(b"x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.expect(b'>')?;
                Ok(Ty::Vec(n, Arc::new(t)))
            }
            b'{' => {
                let fs = self.struct_fields()?;
                Ok(Ty::Struct(Arc::new(fs), false))
            }
            _ => {
                let w = self.word();
                if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) {
                    return Ok(Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()));
                }
                Ok(match w {
                    b"void" => Ty::Void,
                    b"ptr" => {
                        if self.eat_word(b"addrspace") {
                            self.ws();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    b"half" | b"bfloat" => Ty::Half,
                    b"float" => Ty::Float,
                    b"double" => Ty::Double,
                    b"fp128" | b"x86_fp80" => Ty::Fp128,
                    b"label" => Ty::Label,
                    b"metadata" | b"token" => Ty::Metadata,
                    b"opaque" => Ty::Opaque,
                    _ => return self.err("type"),
                })
            }
        }
    }
    fn struct_fields(&mut self) -> R<Vec<Ty>> {
        self.expect(b'{')?;
        let mut v = vec![];
        if self.eat(b'}') {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(b'}') {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }
    fn is_operand_word(w: &[u8]) -> bool {
        matches!(
            w,
            b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"getelementptr" | b"ptrtoint" | b"ptrtoaddr"
                | b"inttoptr" | b"bitcast" | b"addrspacecast" | b"trunc" | b"add" | b"sub" | b"xor" | b"mul" | b"shl"
                | b"blockaddress" | b"dso_local_equivalent" | b"no_cfi" | b"splat" | b"asm" | b"c"
        ) || (!w.is_empty() && (w[0].is_ascii_digit() || (w[0] == b'-' && w.len() > 1 && w[1].is_ascii_digit())))
            || w.starts_with(b"f0x")
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                let _ = self.qstring();
                if self.eat(b'=') {
                    self.ws();
                    let _ = self.qstring();
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || w[0] == b'-' || Self::is_operand_word(w) {
                return;
            }
            // could be a type? callers only call this where types are not expected
            self.i += w.len();
            if w == b"align" || w == b"alignstack" {
                self.ws();
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    let _ = self.uint();
                }
                continue;
            }
            self.ws();
            if self.i < self.t.len() && self.t[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    /// skip attributes that precede a type (return attributes)
    fn skip_attrs_before_type(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                let _ = self.qstring();
                if self.eat(b'=') {
                    self.ws();
                    let _ = self.qstring();
                }
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() {
                return;
            }
            let is_ty = matches!(w, b"void" | b"ptr" | b"half" | b"float" | b"double" | b"fp128" | b"x86_fp80" | b"metadata" | b"token" | b"label" | b"bfloat")
                || (w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()));
            if is_ty {
                return;
            }
            self.i += w.len();
            if w == b"align" {
                self.ws();
                if self.peek() == b'(' {
                    self.skip_parens();
                } else {
                    let _ = self.uint();
                }
                continue;
            }
            self.ws();
            if self.i < self.t.len() && self.t[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    pub fn val(&mut self, ty: &Ty) -> R<Val> {
        match self.peek() {
            b'%' => {
                self.i += 1;
                Ok(Val::Local(self.name()?))
            }
            b'!' => {
                // metadata operand
                self.i += 1;
                if self.peek() == b'{' {
                    while self.t[self.i] != b'}' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else if self.peek() == b'"' {
                    self.qstring()?;
                } else {
                    self.word();
                    if self.i < self.t.len() && self.t[self.i] == b'(' {
                        self.skip_parens();
                    }
                }
                Ok(Val::Meta)
            }
            _ => {
                if self.peek_word() == b"asm" {
                    self.word();
                    while self.peek() != b'"' {
                        self.word();
                    }
                    self.qstring()?;
                    self.expect(b',')?;
                    self.ws();
                    self.qstring()?;
                    return Ok(Val::Asm);
                }
                if *ty == Ty::Metadata {
                    // metadata wrapping a typed value
                    let t = self.ty()?;
                    let _ = self.val(&t)?;
                    return Ok(Val::Meta);
                }
                Ok(Val::Const(self.cst(ty)?))
            }
        }
    }
    fn cst_typed_list(&mut self, close: u8) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat(close) {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> R<Const> {
        if ty.is_fp() && (self.peek() == b'+' || self.peek() == b'-' && (self.t[self.i..].starts_with(b"-inf") || self.t[self.i..].starts_with(b"-qnan"))) {
            let neg = self.peek() == b'-';
            self.i += 1;
            if self.peek_word() == b"qnan" {
                self.i += 4;
                return Ok(Const::Fp(if neg { -f64::NAN } else { f64::NAN }));
            }
            if self.peek_word() == b"inf" {
                self.i += 3;
                return Ok(Const::Fp(if neg { f64::NEG_INFINITY } else { f64::INFINITY }));
            }
            self.i -= 1;
        }
        match self.peek() {
            b'@' => {
                self.i += 1;
                return Ok(Const::Global(self.name()?));
            }
            b'[' => {
                self.i += 1;
                return Ok(Const::Agg(self.cst_typed_list(b']')?));
            }
            b'{' => {
                self.i += 1;
                return Ok(Const::Agg(self.cst_typed_list(b'}')?));
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.cst_typed_list(b'}')?;
                    self.expect(b'>')?;
                    return Ok(Const::Agg(v));
                }
                return Ok(Const::Agg(self.cst_typed_list(b'>')?));
            }
            _ => {}
        }
        let save = self.i;
        // 1.0e+00 needs '+'
        let mut w = self.word().to_vec();
        if !w.is_empty() && (w[0].is_ascii_digit() || w[0] == b'-') && self.i < self.t.len() && self.t[self.i] == b'+' {
            self.i += 1;
            w.push(b'+');
            w.extend_from_slice(self.word());
        }
        match &w[..] {
            b"true" => return Ok(Const::Int(1)),
            b"false" => return Ok(Const::Int(0)),
            b"null" | b"zeroinitializer" | b"none" => return Ok(Const::Zero),
            b"undef" | b"poison" => return Ok(Const::Undef),
            b"c" => return Ok(Const::Bytes(self.qstring()?)),
            b"splat" => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let c = self.cst(&t)?;
                self.expect(b')')?;
                return Ok(Const::Splat(t, Box::new(c)));
            }
            b"getelementptr" => {
                loop {
                    let w = self.peek_word();
                    if w == b"inbounds" || w == b"nuw" || w == b"nusw" {
                        self.word();
                    } else if w == b"inrange" {
                        self.word();
                        self.ws();
                        self.skip_parens();
                    } else {
                        break;
                    }
                }
                self.expect(b'(')?;
                let t = self.ty()?;
                self.expect(b',')?;
                let mut v = vec![];
                loop {
                    self.eat_word(b"inrange");
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    v.push((t, c));
                    if self.eat(b')') {
                        break;
                    }
                    self.expect(b',')?;
                }
                return Ok(Const::Gep(t, v));
            }
            b"ptrtoint" | b"ptrtoaddr" | b"inttoptr" | b"bitcast" | b"trunc" | b"addrspacecast" => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let c = self.cst(&t)?;
                if !self.eat_word(b"to") {
                    return self.err("to");
                }
                let t2 = self.ty()?;
                self.expect(b')')?;
                return Ok(Const::Cast(String::from_utf8(w).unwrap(), t, Box::new(c), t2));
            }
            b"add" | b"sub" | b"xor" | b"mul" | b"shl" => {
                while self.eat_word(b"nuw") || self.eat_word(b"nsw") {}
                self.expect(b'(')?;
                let t = self.ty()?;
                let a = self.cst(&t)?;
                self.expect(b',')?;
                let t2 = self.ty()?;
                let b = self.cst(&t2)?;
                self.expect(b')')?;
                return Ok(Const::Bin(String::from_utf8(w).unwrap(), t, Box::new(a), Box::new(b)));
            }
            _ => {}
        }
        let s = String::from_utf8_lossy(&w).into_owned();
        if ty.is_fp() {
            if let Some(h) = s.strip_prefix("f0x") {
                // new-style bit pattern in the type's own format
                let b = u128::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                return Ok(match ty {
                    Ty::Float => Const::Fp(f32::from_bits(b as u32) as f64),
                    _ => Const::Fp(f64::from_bits(b as u64)),
                });
            }
            if let Some(h) = s.strip_prefix("0x") {
                let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                return Ok(Const::Fp(f64::from_bits(b)));
            }
            if let Ok(f) = s.parse::<f64>() {
                return Ok(Const::Fp(f));
            }
        }
        if let Ty::Int(n) = ty {
            let m = if *n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
            if let Ok(v) = s.parse::<i128>() {
                return Ok(Const::Int(v as u128 & m));
            }
            if let Ok(v) = s.parse::<u128>() {
                return Ok(Const::Int(v & m));
            }
        }
        self.i = save;
        self.err("constant")
    }
    fn ty_val(&mut self) -> R<(Ty, Val)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<String> {
        if !self.eat_word(b"label") {
            return self.err("label");
        }
        self.expect(b'%')?;
        self.name()
    }
    fn idxlist(&mut self) -> R<Vec<usize>> {
        let mut v = vec![];
        while self.peek() == b',' {
            let save = self.i;
            self.i += 1;
            if self.peek() == b'!' {
                self.i = save;
                break;
            }
            v.push(self.uint()? as usize);
        }
        Ok(v)
    }
    /// skip trailing ", !md !n", ", align n", attribute groups up to end of line
    fn eol(&mut self) {
        // a failed look-ahead may already have crossed the line break
        while self.i > 0 && self.t[self.i - 1].is_ascii_whitespace() {
            self.i -= 1;
        }
        while self.i < self.t.len() && self.t[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn skip_words(&mut self, ws: &[&[u8]]) {
        loop {
            let w = self.peek_word();
            if ws.contains(&w) {
                self.i += w.len();
            } else {
                return;
            }
        }
    }
    fn call_tail(&mut self, invoke: bool) -> R<Inst> {
        // calling conv, ret attrs
        self.skip_words(&[b"fast", b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc"]);
        self.skip_attrs_before_type();
        let mut rt = self.ty()?;
        if let Ty::Func(r) = &rt {
            rt = (**r).clone();
        }
        let callee = self.val(&Ty::Ptr)?;
        self.expect(b'(')?;
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty()?;
                if t == Ty::Metadata {
                    let v = self.val(&t)?;
                    args.push((t, v));
                } else {
                    self.skip_attrs();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',')?;
            }
        }
        let mut norm = None;
        if invoke {
            // attrs then "to label %x unwind label %y"
            loop {
                if self.peek_word() == b"to" {
                    break;
                }
                let c = self.peek();
                if c == b'#' {
                    self.i += 1;
                    self.word();
                } else if c == b'"' {
                    self.qstring()?;
                    self.eat(b'=');
                    if self.peek() == b'"' {
                        self.qstring()?;
                    }
                } else if c == b'(' {
                    self.skip_parens();
                } else if c == b'[' {
                    while self.t[self.i] != b']' {
                        self.i += 1;
                    }
                    self.i += 1;
                } else if self.word().is_empty() {
                    return self.err("invoke tail");
                }
            }
            self.word();
            norm = Some(self.label()?);
        }
        Ok(Inst::Call(rt, callee, args, norm))
    }
    pub fn inst(&mut self) -> R<(Option<String>, Inst)> {
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            dst = Some(self.name()?);
            self.expect(b'=')?;
        }
        let op = String::from_utf8_lossy(self.word()).into_owned();
        let flags: &[&[u8]] = &[
            b"nuw", b"nsw", b"exact", b"disjoint", b"nneg", b"samesign", b"inbounds", b"nusw", b"fast", b"nnan", b"ninf", b"nsz", b"arcp",
            b"contract", b"afn", b"reassoc", b"volatile", b"atomic", b"weak",
        ];
        let r = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub"
            | "fmul" | "fdiv" | "frem" => {
                self.skip_words(flags);
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(b',')?;
                let b = self.val(&t)?;
                Inst::Bin(op, t, a, b)
            }
            "fneg" => {
                self.skip_words(flags);
                let t = self.ty()?;
                let a = self.val(&t)?;
                Inst::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                self.skip_words(flags);
                let p = String::from_utf8_lossy(self.word()).into_owned();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(b',')?;
                let b = self.val(&t)?;
                if op == "icmp" {
                    Inst::ICmp(p, t, a, b)
                } else {
                    Inst::FCmp(p, t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr"
            | "inttoptr" | "bitcast" | "addrspacecast" => {
                self.skip_words(flags);
                let (t, v) = self.ty_val()?;
                if !self.eat_word(b"to") {
                    return self.err("to");
                }
                let t2 = self.ty()?;
                Inst::Cast(op, t, v, t2)
            }
            "select" => {
                self.skip_words(flags);
                let (ct, c) = self.ty_val()?;
                self.expect(b',')?;
                let (t, a) = self.ty_val()?;
                self.expect(b',')?;
                let (_, b) = self.ty_val()?;
                Inst::Select(ct, c, t, a, b)
            }
            "load" => {
                self.skip_words(flags);
                let t = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.ty_val()?;
                Inst::Load(t, p)
            }
            "store" => {
                self.skip_words(flags);
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let (_, p) = self.ty_val()?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_words(flags);
                let t = self.ty()?;
                self.expect(b',')?;
                let (pt, p) = self.ty_val()?;
                let mut idx = vec![];
                while self.peek() == b',' {
                    self.i += 1;
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.ty_val()?);
                }
                Inst::Gep(t, pt, p, idx)
            }
            "alloca" => {
                self.skip_words(&[b"inalloca", b"swifterror"]);
                let t = self.ty()?;
                let mut n = (Ty::Int(64), Val::Const(Const::Int(1)));
                let mut al = 1;
                while self.eat(b',') {
                    if self.eat_word(b"align") {
                        al = self.uint()?;
                    } else if self.peek() == b'!' {
                        break;
                    } else {
                        n = self.ty_val()?;
                    }
                }
                Inst::Alloca(t, n.0, n.1, al)
            }
            "tail" | "musttail" | "notail" => {
                if !self.eat_word(b"call") {
                    return self.err("call");
                }
                self.call_tail(false)?
            }
            "call" => self.call_tail(false)?,
            "invoke" => self.call_tail(true)?,
            "extractvalue" => {
                let (t, v) = self.ty_val()?;
                let ix = self.idxlist()?;
                Inst::ExtractValue(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let (t2, v2) = self.ty_val()?;
                let ix = self.idxlist()?;
                Inst::InsertValue(t, v, t2, v2, ix)
            }
            "extractelement" => {
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let (t2, v2) = self.ty_val()?;
                Inst::ExtractElement(t, v, t2, v2)
            }
            "insertelement" => {
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let (t2, v2) = self.ty_val()?;
                self.expect(b',')?;
                let (t3, v3) = self.ty_val()?;
                Inst::InsertElement(t, v, t2, v2, t3, v3)
            }
            "shufflevector" => {
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let (t2, v2) = self.ty_val()?;
                self.expect(b',')?;
                let (t3, v3) = self.ty_val()?;
                Inst::ShuffleVector(t, v, t2, v2, t3, v3)
            }
            "freeze" => {
                let (t, v) = self.ty_val()?;
                Inst::Freeze(t, v)
            }
            "phi" => {
                self.skip_words(flags);
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.expect(b'[')?;
                    let x = self.val(&t)?;
                    self.expect(b',')?;
                    self.expect(b'%')?;
                    let l = self.name()?;
                    self.expect(b']')?;
                    v.push((x, l));
                    if self.peek() == b',' {
                        let save = self.i;
                        self.i += 1;
                        if self.peek() == b'[' {
                            continue;
                        }
                        self.i = save;
                    }
                    break;
                }
                Inst::Phi(t, v)
            }
            "atomicrmw" => {
                self.skip_words(flags);
                let o = String::from_utf8_lossy(self.word()).into_owned();
                let (_, p) = self.ty_val()?;
                self.expect(b',')?;
                let (t, v) = self.ty_val()?;
                Inst::AtomicRmw(o, p, t, v)
            }
            "cmpxchg" => {
                self.skip_words(flags);
                let (_, p) = self.ty_val()?;
                self.expect(b',')?;
                let (t, a) = self.ty_val()?;
                self.expect(b',')?;
                let (_, b) = self.ty_val()?;
                Inst::CmpXchg(p, t, a, b)
            }
            "fence" => Inst::Fence,
            "br" => {
                if self.peek_word() == b"label" {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.ty_val()?;
                    self.expect(b',')?;
                    let a = self.label()?;
                    self.expect(b',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_val()?;
                self.expect(b',')?;
                let d = self.label()?;
                self.expect(b'[')?;
                let mut cs = vec![];
                while !self.eat(b']') {
                    let t2 = self.ty()?;
                    let c = match self.cst(&t2)? {
                        Const::Int(v) => v,
                        Const::Zero => 0,
                        _ => return self.err("switch case"),
                    };
                    self.expect(b',')?;
                    let l = self.label()?;
                    cs.push((c, l));
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let v = self.val(&t)?;
                    Inst::Ret(t, Some(v))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" => {
                let _ = self.ty()?;
                loop {
                    let w = self.peek_word();
                    if w == b"cleanup" {
                        self.word();
                    } else if w == b"catch" || w == b"filter" {
                        self.word();
                        self.ty_val()?;
                    } else {
                        break;
                    }
                }
                Inst::Landingpad
            }
            _ => return self.err(&format!("unknown instruction {}", op)),
        };
        self.eol();
        Ok((dst, r))
    }
}

impl Module {
    pub fn parse(text: Vec<u8>) -> R<Module> {
        let mut m = Module { text: vec![], types: HashMap::new(), globals: vec![], funcs: vec![], aliases: vec![] };
        // types first (may be forward referenced); iterate until resolved
        let mut pending: Vec<(String, usize)> = vec![];
        let mut pos = 0;
        let mut tops: Vec<usize> = vec![];
        let t = &text[..];
        while pos < t.len() {
            let c = t[pos];
            let e = t[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(t.len());
            if c == b'%' {
                let empty = HashMap::new();
                let mut p = P::new(t, pos + 1, &empty);
                let n = p.name()?;
                p.expect(b'=')?;
                p.word();
                p.ws();
                pending.push((n, p.i));
            } else if c == b'@' {
                tops.push(pos);
            } else if t[pos..].starts_with(b"define ") || t[pos..].starts_with(b"declare ") {
                tops.push(pos);
                if t[pos..].starts_with(b"define ") {
                    // skip to closing "\n}"
                    let mut q = e;
                    loop {
                        if t[q..].starts_with(b"\n}") {
                            break;
                        }
                        q += 1;
                        while t[q] != b'\n' {
                            q += 1;
                        }
                    }
                    pos = q + 2;
                    while pos < t.len() && t[pos] != b'\n' {
                        pos += 1;
                    }
                    pos += 1;
                    continue;
                }
            }
            pos = e + 1;
        }
        let mut guard = 0;
        while !pending.is_empty() {
            let mut next = vec![];
            for (n, i) in pending {
                let r = P::new(t, i, &m.types).ty();
                match r {
                    Ok(ty) => {
                        m.types.insert(n, ty);
                    }
                    Err(_) => next.push((n, i)),
                }
            }
            pending = next;
            guard += 1;
            if guard > 50 {
                return Err("unresolvable types".into());
            }
        }
        for pos in tops {
            let mut p = P::new(t, pos, &m.types);
            if t[pos] == b'@' {
                p.i += 1;
                let name = p.name()?;
                p.expect(b'=')?;
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    let w = p.peek_word();
                    match w {
                        b"constant" => {
                            p.word();
                            constant = true;
                            break;
                        }
                        b"global" => {
                            p.word();
                            break;
                        }
                        b"alias" | b"ifunc" => {
                            p.word();
                            alias = true;
                            break;
                        }
                        b"external" | b"extern_weak" => {
                            p.word();
                            external = true;
                        }
                        b"thread_local" | b"addrspace" => {
                            p.word();
                            if p.peek() == b'(' {
                                p.skip_parens();
                            }
                        }
                        b"" => return p.err("global"),
                        _ => {
                            p.word();
                        }
                    }
                }
                let ty = p.ty()?;
                if alias {
                    p.expect(b',')?;
                    let t2 = p.ty()?;
                    let c = p.cst(&t2)?;
                    m.aliases.push((name, c));
                    continue;
                }
                let init = if external { None } else { Some(p.cst(&ty)?) };
                let mut align = ty.size_align().1;
                // find ", align N" before eol
                let e = t[p.i..].iter().position(|c| *c == b'\n').map(|x| p.i + x).unwrap_or(t.len());
                let rest = String::from_utf8_lossy(&t[p.i..e]).into_owned();
                if let Some(k) = rest.find(", align ") {
                    let d: String = rest[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    align = align.max(d.parse().unwrap_or(1));
                }
                m.globals.push(Global { name, ty, init, align, constant });
            } else {
                let def = t[pos..].starts_with(b"define ");
                p.word();
                p.skip_attrs_before_type();
                let ret = p.ty()?;
                p.expect(b'@')?;
                let name = p.name()?;
                p.expect(b'(')?;
                let mut params = vec![];
                let mut n = 0;
                if !p.eat(b')') {
                    loop {
                        if p.peek() == b'.' {
                            // varargs
                            p.word();
                        } else {
                            let ty = p.ty()?;
                            p.skip_attrs();
                            let mut nm = String::new();
                            if p.peek() == b'%' {
                                p.i += 1;
                                nm = p.name()?;
                            } else if def {
                                nm = n.to_string();
                            }
                            n += 1;
                            params.push((ty, nm));
                        }
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',')?;
                    }
                }
                let mut body = None;
                if def {
                    // body starts after " {\n"
                    let mut q = p.i;
                    loop {
                        if t[q] == b'"' {
                            p.i = q;
                            p.qstring()?;
                            q = p.i;
                            continue;
                        }
                        if t[q] == b'{' && t[q + 1] == b'\n' {
                            break;
                        }
                        q += 1;
                    }
                    let start = q + 2;
                    let mut e = q + 1;
                    loop {
                        if t[e..].starts_with(b"\n}") {
                            break;
                        }
                        e += 1;
                        while t[e] != b'\n' {
                            e += 1;
                        }
                    }
                    body = Some((start, e));
                }
                m.funcs.push(FnDecl { name, ret, params, body });
            }
        }
        m.text = text;
        Ok(m)
    }

    pub fn body(&self, f: &FnDecl) -> R<FnBody> {
        let (s, e) = f.body.ok_or("no body")?;
        let t = &self.text[..e];
        let mut p = P::new(t, s, &self.types);
        let mut blocks: Vec<Block> = vec![];
        let entry_num = f.params.iter().filter(|(_, n)| n.parse::<u64>().is_ok()).count();
        loop {
            p.ws();
            if p.i >= e {
                break;
            }
            // label?
            let mut lab = None;
            if t[p.i] != b'%' {
                let save = p.i;
                if let Ok(n) = p.name() {
                    if !n.is_empty() && p.i < e && t[p.i] == b':' {
                        p.i += 1;
                        lab = Some(n);
                    }
                }
                if lab.is_none() {
                    p.i = save;
                }
            }
            if let Some(n) = lab {
                blocks.push(Block { name: n, insts: vec![] });
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block { name: entry_num.to_string(), insts: vec![] });
            }
            let in_ = p.inst()?;
            blocks.last_mut().unwrap().insts.push(in_);
        }
        Ok(FnBody { blocks })
    }
}
