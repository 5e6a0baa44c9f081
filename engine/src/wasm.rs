//! WebAssembly (memory64) decoder and translation to a register IR.
use std::collections::HashMap;

pub struct Func {
    pub name: String,
    pub nparams: u16,
    pub nresults: u16,
    pub nlocals: u16, // including params
    pub frame: u32,
    pub code: Vec<Ins>,
    pub consts: Vec<u64>,
    pub import: Option<usize>, // index in Module::imports
    pub special: u8,           // 1 = memcmp/bcmp, 2 = compiler-rt 128-bit multiply
}

#[derive(Clone, Copy)]
pub struct Ins {
    pub op: u16,
    pub d: u16,
    pub a: u16,
    pub b: u16,
    pub imm: u64,
}

pub struct Type {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

pub struct Module {
    pub types: Vec<Type>,
    pub imports: Vec<String>,
    pub funcs: Vec<Func>,
    pub ftype: Vec<u32>,
    pub table: Vec<u32>, // func index or u32::MAX
    pub mem_min: u64,
    pub globals: Vec<u64>,
    pub exports: HashMap<String, u32>,
    pub data: Vec<(u64, Vec<u8>)>,
    pub br_tables: Vec<Vec<u32>>,
    pub canon: Vec<u32>, // canonical type id per type
}

pub const CBIT: u16 = 0x8000;

// IR opcodes >= 0x100; numeric wasm ops keep their wasm opcode (0x45..=0xC4),
// saturating truncations are 0xD0 + n; loads/stores keep 0x28..=0x3E.
pub const COPY: u16 = 0x100;
pub const BR: u16 = 0x101;
pub const BR_IF: u16 = 0x102;
pub const BR_IFZ: u16 = 0x103;
pub const BR_TABLE: u16 = 0x104;
pub const RET: u16 = 0x105;
pub const CALL: u16 = 0x106;
pub const CALL_IND: u16 = 0x107;
pub const SELECT: u16 = 0x108;
pub const GGET: u16 = 0x109;
pub const GSET: u16 = 0x10a;
pub const MSIZE: u16 = 0x10b;
pub const MGROW: u16 = 0x10c;
pub const MCOPY: u16 = 0x10d;
pub const MFILL: u16 = 0x10e;
pub const UNREACH: u16 = 0x10f;
// fused compare-and-branch: op = CMPBR | flag; imm = target | (cmpop << 32) | (neg << 48)
pub const CMPBR: u16 = 0x110;

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 {
        let x = self.b[self.i];
        self.i += 1;
        x
    }
    fn u(&mut self) -> u64 {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let x = self.u8();
            r |= ((x & 127) as u64) << s;
            s += 7;
            if x < 128 {
                return r;
            }
        }
    }
    fn s(&mut self) -> i64 {
        let (mut r, mut s) = (0i64, 0u32);
        loop {
            let x = self.u8();
            if s < 64 {
                r |= ((x & 127) as i64) << s;
            }
            s += 7;
            if x < 128 {
                if s < 64 && x & 64 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn name(&mut self) -> String {
        let n = self.u() as usize;
        let s = String::from_utf8_lossy(&self.b[self.i..self.i + n]).into_owned();
        self.i += n;
        s
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        s
    }
    fn const_expr(&mut self) -> u64 {
        let mut v = 0;
        loop {
            match self.u8() {
                0x41 => v = self.s() as i32 as u32 as u64,
                0x42 => v = self.s() as u64,
                0x43 => v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64,
                0x44 => v = u64::from_le_bytes(self.bytes(8).try_into().unwrap()),
                0xd0 => {
                    self.u8();
                    v = u32::MAX as u64
                }
                0xd2 => v = self.u(),
                0x0b => return v,
                o => panic!("const expr op {o:#x}"),
            }
        }
    }
    fn limits(&mut self) -> (u64, Option<u64>) {
        let f = self.u8();
        let min = self.u();
        (min, if f & 1 != 0 { Some(self.u()) } else { None })
    }
}

pub fn load(b: &[u8]) -> Module {
    assert_eq!(&b[..4], b"\0asm");
    let mut m = Module {
        types: vec![],
        imports: vec![],
        funcs: vec![],
        ftype: vec![],
        table: vec![],
        mem_min: 0,
        globals: vec![],
        exports: HashMap::new(),
        data: vec![],
        br_tables: vec![],
        canon: vec![],
    };
    let mut r = Rd { b, i: 8 };
    let mut names: HashMap<u32, String> = HashMap::new();
    let mut bodies: Vec<(usize, usize)> = vec![];
    while r.i < b.len() {
        let id = r.u8();
        let n = r.u() as usize;
        let end = r.i + n;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.i < end {
                        let sid = r.u8();
                        let sl = r.u() as usize;
                        let send = r.i + sl;
                        if sid == 1 {
                            for _ in 0..r.u() {
                                let ix = r.u() as u32;
                                let s = r.name();
                                names.insert(ix, s);
                            }
                        }
                        r.i = send;
                    }
                }
            }
            1 => {
                for _ in 0..r.u() {
                    assert_eq!(r.u8(), 0x60);
                    let np = r.u() as usize;
                    let params = r.bytes(np).to_vec();
                    let nr = r.u() as usize;
                    let results = r.bytes(nr).to_vec();
                    let k = m.types.len() as u32;
                    let c = m.types.iter().position(|t| t.params == params && t.results == results).map(|x| x as u32).unwrap_or(k);
                    m.canon.push(c);
                    m.types.push(Type { params, results });
                }
            }
            2 => {
                for _ in 0..r.u() {
                    let _mo = r.name();
                    let nm = r.name();
                    let k = r.u8();
                    assert_eq!(k, 0, "only function imports");
                    let t = r.u() as u32;
                    m.ftype.push(t);
                    let ty = &m.types[t as usize];
                    m.funcs.push(Func {
                        name: format!("env.{nm}"),
                        nparams: ty.params.len() as u16,
                        nresults: ty.results.len() as u16,
                        nlocals: ty.params.len() as u16,
                        frame: 8,
                        code: vec![],
                        consts: vec![],
                        import: Some(m.imports.len()),
                        special: 0,
                    });
                    m.imports.push(nm);
                }
            }
            3 => {
                for _ in 0..r.u() {
                    let t = r.u() as u32;
                    m.ftype.push(t);
                }
            }
            4 => {
                for _ in 0..r.u() {
                    let _rt = r.u8();
                    let (min, _) = r.limits();
                    m.table = vec![u32::MAX; min as usize];
                }
            }
            5 => {
                for _ in 0..r.u() {
                    let (min, _) = r.limits();
                    m.mem_min = min;
                }
            }
            6 => {
                for _ in 0..r.u() {
                    r.u8();
                    r.u8();
                    let v = r.const_expr();
                    m.globals.push(v);
                }
            }
            7 => {
                for _ in 0..r.u() {
                    let nm = r.name();
                    let k = r.u8();
                    let ix = r.u() as u32;
                    if k == 0 {
                        m.exports.insert(nm, ix);
                    }
                }
            }
            9 => {
                for _ in 0..r.u() {
                    let f = r.u();
                    assert!(f == 0, "elem flag {f}");
                    let off = r.const_expr() as usize;
                    let n = r.u() as usize;
                    for k in 0..n {
                        m.table[off + k] = r.u() as u32;
                    }
                }
            }
            10 => {
                for _ in 0..r.u() {
                    let sz = r.u() as usize;
                    bodies.push((r.i, r.i + sz));
                    r.i += sz;
                }
            }
            11 => {
                for _ in 0..r.u() {
                    let f = r.u();
                    assert!(f == 0, "data flag {f}");
                    let off = r.const_expr();
                    let n = r.u() as usize;
                    let d = r.bytes(n).to_vec();
                    m.data.push((off, d));
                }
            }
            _ => {}
        }
        r.i = end;
    }
    let nimp = m.imports.len();
    for (k, (s, e)) in bodies.into_iter().enumerate() {
        let fi = nimp + k;
        let t = m.ftype[fi] as usize;
        let name = names.get(&(fi as u32)).cloned().unwrap_or_else(|| format!("f{fi}"));
        let (params, results) = (m.types[t].params.len(), m.types[t].results.len());
        let mut f = Func {
            special: if name == "memcmp" || name == "bcmp" { 1 } else if name == "__multi3" { 2 } else { 0 },
            name,
            nparams: params as u16,
            nresults: results as u16,
            nlocals: 0,
            frame: 0,
            code: vec![],
            consts: vec![],
            import: None,
        };
        let mut rr = Rd { b: &b[..e], i: s };
        translate(&mut m, &mut f, &mut rr);
        m.funcs.push(f);
    }
    m
}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Slot,
    Local(u16),
    Const(u16),
}

#[derive(PartialEq, Clone, Copy)]
enum K {
    Block,
    Loop,
    If,
}

struct Ctl {
    kind: K,
    height: usize,
    nparams: usize,
    nresults: usize,
    start: usize,
    patches: Vec<Patch>,
    else_patch: Option<usize>,
    unreachable: bool,
    last_def_reset: (),
}

enum Patch {
    Ins(usize),
    Table(usize, usize),
}

struct Tr<'m> {
    m: &'m mut Module,
    code: Vec<Ins>,
    consts: Vec<u64>,
    cmap: HashMap<u64, u16>,
    st: Vec<O>,
    nl: usize,
    maxh: usize,
    ctl: Vec<Ctl>,
    last_def: Option<(usize, u16)>,
}

impl<'m> Tr<'m> {
    fn slot(&self, h: usize) -> u16 {
        let r = self.nl + h;
        assert!(r < 0x7fff);
        r as u16
    }
    fn emit(&mut self, op: u16, d: u16, a: u16, b: u16, imm: u64) -> usize {
        self.code.push(Ins { op, d, a, b, imm });
        self.last_def = None;
        self.code.len() - 1
    }
    fn reg(&self, o: O, h: usize) -> u16 {
        match o {
            O::Slot => self.slot(h),
            O::Local(l) => l,
            O::Const(c) => CBIT | c,
        }
    }
    fn pop(&mut self) -> u16 {
        let o = self.st.pop().expect("stack underflow");
        self.reg(o, self.st.len())
    }
    fn push_slot(&mut self) -> u16 {
        let h = self.st.len();
        self.st.push(O::Slot);
        if h + 1 > self.maxh {
            self.maxh = h + 1;
        }
        self.slot(h)
    }
    fn push(&mut self, o: O) {
        self.st.push(o);
        if self.st.len() > self.maxh {
            self.maxh = self.st.len();
        }
    }
    fn konst(&mut self, v: u64) -> u16 {
        if let Some(&c) = self.cmap.get(&v) {
            return c;
        }
        let c = self.consts.len() as u16;
        assert!(c < 0x7fff);
        self.consts.push(v);
        self.cmap.insert(v, c);
        c
    }
    fn def(&mut self, op: u16, a: u16, b: u16, imm: u64) {
        let d = self.push_slot();
        let k = self.emit(op, d, a, b, imm);
        self.last_def = Some((k, d));
    }
    fn flush_from(&mut self, from: usize) {
        for h in from..self.st.len() {
            if self.st[h] != O::Slot {
                let r = self.reg(self.st[h], h);
                let d = self.slot(h);
                self.emit(COPY, d, r, 0, 0);
                self.st[h] = O::Slot;
            }
        }
    }
    fn flush(&mut self) {
        self.flush_from(0)
    }
    /// Spill lazily-referenced uses of local `l` below the top of stack.
    fn spill_local(&mut self, l: u16) {
        for h in 0..self.st.len() {
            if self.st[h] == O::Local(l) {
                let d = self.slot(h);
                self.emit(COPY, d, l, 0, 0);
                self.st[h] = O::Slot;
            }
        }
    }
    fn set_local(&mut self, l: u16) {
        let ld = self.last_def;
        let o = self.st.pop().unwrap();
        let src = self.reg(o, self.st.len());
        if src == l {
            return;
        }
        let uses = self.st.iter().any(|x| *x == O::Local(l));
        if uses {
            self.spill_local(l);
            self.emit(COPY, l, src, 0, 0);
        } else if let (Some((k, d)), O::Slot) = (ld, o) {
            if d == src {
                self.code[k].d = l;
                self.last_def = None;
            } else {
                self.emit(COPY, l, src, 0, 0);
            }
        } else {
            self.emit(COPY, l, src, 0, 0);
        }
        self.last_def = None;
    }
    fn br_arity(&self, depth: usize) -> (usize, usize) {
        let c = &self.ctl[self.ctl.len() - 1 - depth];
        let n = if c.kind == K::Loop { c.nparams } else { c.nresults };
        (n, c.height)
    }
    fn needs_copies(&self, depth: usize) -> bool {
        let (n, h) = self.br_arity(depth);
        if n == 0 {
            return false;
        }
        let top = self.st.len();
        top - n != h || self.st[top - n..].iter().any(|o| *o != O::Slot)
    }
    fn emit_copies(&mut self, depth: usize) {
        let (n, h) = self.br_arity(depth);
        let top = self.st.len();
        // when sources are locals only and destinations are stack slots >= nl there is no overlap
        for k in 0..n {
            let sh = top - n + k;
            let r = self.reg(self.st[sh], sh);
            let d = self.slot(h + k);
            if r != d {
                self.emit(COPY, d, r, 0, 0);
            }
        }
    }
    fn br(&mut self, depth: usize) {
        if depth == self.ctl.len() - 1 {
            self.ret();
            return;
        }
        self.emit_copies(depth);
        let k = self.emit(BR, 0, 0, 0, 0);
        self.patch_to(depth, k);
    }
    fn patch_to(&mut self, depth: usize, k: usize) {
        let ci = self.ctl.len() - 1 - depth;
        let c = &mut self.ctl[ci];
        if c.kind == K::Loop {
            let s = c.start as u64;
            self.code[k].imm = (self.code[k].imm & !0xffff_ffff) | s;
        } else {
            c.patches.push(Patch::Ins(k));
        }
    }
    fn ret(&mut self) {
        let n = self.ctl[0].nresults;
        let top = self.st.len();
        if n == 0 {
            self.emit(RET, 0, 0, 0, 0);
        } else if n == 1 {
            let r = self.reg(self.st[top - 1], top - 1);
            self.emit(RET, 1, r, 0, 0);
        } else {
            self.flush_from(top - n);
            let r = self.slot(top - n);
            self.emit(RET, n as u16, r, 0, 0);
        }
    }
    /// pending compare just emitted producing `r`? then fuse
    fn cond_branch(&mut self, r: u16, neg: bool) -> usize {
        if let Some((k, d)) = self.last_def {
            let i = self.code[k];
            if d == r && k + 1 == self.code.len() && (0x45..=0x5a).contains(&i.op) {
                self.code.pop();
                return self.emit(CMPBR, 0, i.a, i.b, ((i.op as u64) << 32) | ((neg as u64) << 48));
            }
        }
        self.emit(if neg { BR_IFZ } else { BR_IF }, 0, r, 0, 0)
    }
}

fn block_type(m: &Module, r: &mut Rd) -> (usize, usize) {
    let save = r.i;
    let b = r.u8();
    match b {
        0x40 => (0, 0),
        0x7f | 0x7e | 0x7d | 0x7c | 0x70 | 0x6f | 0x7b => (0, 1),
        _ => {
            r.i = save;
            let t = r.s() as usize;
            (m.types[t].params.len(), m.types[t].results.len())
        }
    }
}

fn skip_imm(r: &mut Rd, op: u8) {
    match op {
        0x0c | 0x0d | 0x10 | 0x20..=0x26 | 0xd2 => {
            r.u();
        }
        0x0e => {
            for _ in 0..r.u() {
                r.u();
            }
            r.u();
        }
        0x11 => {
            r.u();
            r.u();
        }
        0x1c => {
            for _ in 0..r.u() {
                r.u8();
            }
        }
        0x28..=0x3e => {
            r.u();
            r.u();
        }
        0x3f | 0x40 => {
            r.u();
        }
        0x41 | 0x42 => {
            r.s();
        }
        0x43 => {
            r.bytes(4);
        }
        0x44 => {
            r.bytes(8);
        }
        0xfc => {
            let s = r.u();
            match s {
                0..=7 => {}
                8 | 10 | 12 | 14 => {
                    r.u();
                    r.u();
                }
                _ => {
                    r.u();
                }
            }
        }
        0xd0 => {
            r.u8();
        }
        _ => {}
    }
}

fn translate(m: &mut Module, f: &mut Func, r: &mut Rd) {
    let mut nl = f.nparams as usize;
    for _ in 0..r.u() {
        let n = r.u() as usize;
        r.u8();
        nl += n;
    }
    f.nlocals = nl as u16;
    let mut t = Tr { m, code: vec![], consts: vec![], cmap: HashMap::new(), st: vec![], nl, maxh: 0, ctl: vec![], last_def: None };
    t.ctl.push(Ctl {
        kind: K::Block,
        height: 0,
        nparams: 0,
        nresults: f.nresults as usize,
        start: 0,
        patches: vec![],
        else_patch: None,
        unreachable: false,
        last_def_reset: (),
    });
    let mut skip = 0usize; // nested blocks inside unreachable code
    loop {
        let op = r.u8();
        let unreachable = t.ctl.last().unwrap().unreachable;
        if unreachable {
            match op {
                0x02 | 0x03 | 0x04 => {
                    block_type(t.m, r);
                    skip += 1;
                    continue;
                }
                0x05 if skip == 0 => {}
                0x05 => continue,
                0x0b if skip == 0 => {}
                0x0b => {
                    skip -= 1;
                    continue;
                }
                _ => {
                    skip_imm(r, op);
                    continue;
                }
            }
        }
        match op {
            0x00 => {
                t.emit(UNREACH, 0, 0, 0, 0);
                t.ctl.last_mut().unwrap().unreachable = true;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (np, nr) = block_type(t.m, r);
                t.flush();
                t.last_def = None;
                let h = t.st.len() - np;
                let start = t.code.len();
                t.ctl.push(Ctl {
                    kind: if op == 2 { K::Block } else { K::Loop },
                    height: h,
                    nparams: np,
                    nresults: nr,
                    start,
                    patches: vec![],
                    else_patch: None,
                    unreachable: false,
                    last_def_reset: (),
                });
            }
            0x04 => {
                let (np, nr) = block_type(t.m, r);
                let ld = t.last_def;
                let c = t.pop();
                // flushing may emit copies; a fused compare must stay adjacent, so only fuse when nothing needs flushing
                let need = t.st.iter().any(|o| *o != O::Slot);
                if need {
                    // materialise cond first if it is a compare result (already in its slot)
                    t.flush();
                    t.last_def = None;
                } else {
                    t.last_def = ld;
                }
                let k = t.cond_branch(c, true);
                let h = t.st.len() - np;
                t.ctl.push(Ctl {
                    kind: K::If,
                    height: h,
                    nparams: np,
                    nresults: nr,
                    start: 0,
                    patches: vec![],
                    else_patch: Some(k),
                    unreachable: false,
                    last_def_reset: (),
                });
            }
            0x05 => {
                let un = t.ctl.last().unwrap().unreachable;
                if !un {
                    t.flush();
                    let k = t.emit(BR, 0, 0, 0, 0);
                    t.ctl.last_mut().unwrap().patches.push(Patch::Ins(k));
                }
                let (h, np, ep) = {
                    let c = t.ctl.last_mut().unwrap();
                    c.unreachable = false;
                    (c.height, c.nparams, c.else_patch.take().unwrap())
                };
                let here = t.code.len() as u64;
                t.code[ep].imm = (t.code[ep].imm & !0xffff_ffff) | here;
                t.st.truncate(h);
                for _ in 0..np {
                    t.push_slot();
                }
                t.last_def = None;
            }
            0x0b => {
                let un = t.ctl.last().unwrap().unreachable;
                if t.ctl.len() == 1 {
                    let c = t.ctl.pop().unwrap();
                    if !un {
                        t.ctl.push(Ctl { patches: vec![], ..c });
                        t.ret();
                    } else {
                        // nothing
                    }
                    break;
                }
                if !un {
                    t.flush();
                }
                let c = t.ctl.pop().unwrap();
                let here = t.code.len();
                if let Some(ep) = c.else_patch {
                    t.code[ep].imm = (t.code[ep].imm & !0xffff_ffff) | here as u64;
                }
                for p in c.patches {
                    match p {
                        Patch::Ins(k) => t.code[k].imm = (t.code[k].imm & !0xffff_ffff) | here as u64,
                        Patch::Table(ti, j) => t.m.br_tables[ti][j] = here as u32,
                    }
                }
                t.st.truncate(c.height);
                for _ in 0..c.nresults {
                    t.push_slot();
                }
                t.last_def = None;
            }
            0x0c => {
                let d = r.u() as usize;
                t.br(d);
                t.ctl.last_mut().unwrap().unreachable = true;
            }
            0x0d => {
                let d = r.u() as usize;
                let c = t.pop();
                let is_ret = d == t.ctl.len() - 1;
                if is_ret || t.needs_copies(d) {
                    let k = t.cond_branch(c, true);
                    let save = t.st.clone();
                    t.br(d);
                    t.st = save;
                    let here = t.code.len() as u64;
                    t.code[k].imm = (t.code[k].imm & !0xffff_ffff) | here;
                } else {
                    let k = t.cond_branch(c, false);
                    t.patch_to(d, k);
                }
                t.last_def = None;
            }
            0x0e => {
                let n = r.u() as usize;
                let ds: Vec<usize> = (0..=n).map(|_| r.u() as usize).collect();
                let c = t.pop();
                let ti = t.m.br_tables.len();
                t.m.br_tables.push(vec![0; n + 1]);
                t.emit(BR_TABLE, 0, c, 0, ti as u64);
                let mut stubs: HashMap<usize, u32> = HashMap::new();
                for (j, d) in ds.into_iter().enumerate() {
                    let is_ret = d == t.ctl.len() - 1;
                    if is_ret || t.needs_copies(d) {
                        let pc = if let Some(&p) = stubs.get(&d) {
                            p
                        } else {
                            let p = t.code.len() as u32;
                            let save = t.st.clone();
                            t.br(d);
                            t.st = save;
                            stubs.insert(d, p);
                            p
                        };
                        t.m.br_tables[ti][j] = pc;
                    } else {
                        let ci = t.ctl.len() - 1 - d;
                        if t.ctl[ci].kind == K::Loop {
                            t.m.br_tables[ti][j] = t.ctl[ci].start as u32;
                        } else {
                            t.ctl[ci].patches.push(Patch::Table(ti, j));
                        }
                    }
                }
                t.ctl.last_mut().unwrap().unreachable = true;
            }
            0x0f => {
                t.ret();
                t.ctl.last_mut().unwrap().unreachable = true;
            }
            0x10 | 0x11 => {
                let (np, nr, fi, idx);
                if op == 0x10 {
                    fi = r.u();
                    let ty = &t.m.types[t.m.ftype[fi as usize] as usize];
                    np = ty.params.len();
                    nr = ty.results.len();
                    idx = 0;
                } else {
                    let ty = r.u() as usize;
                    let _tb = r.u();
                    fi = t.m.canon[ty] as u64;
                    np = t.m.types[ty].params.len();
                    nr = t.m.types[ty].results.len();
                    idx = t.pop();
                }
                let h = t.st.len() - np;
                t.flush_from(h);
                let base = t.slot(h);
                // the index operand may live in the slot right above the args: callee frames
                // start at `base`, the interpreter reads it before switching frames
                t.emit(if op == 0x10 { CALL } else { CALL_IND }, base, idx, 0, fi);
                t.st.truncate(h);
                for _ in 0..nr {
                    t.push_slot();
                }
                if t.maxh < h + np {
                    t.maxh = h + np;
                }
                t.last_def = None;
            }
            0x1a => {
                t.st.pop();
            }
            0x1b | 0x1c => {
                if op == 0x1c {
                    for _ in 0..r.u() {
                        r.u8();
                    }
                }
                let c = t.pop();
                let b = t.pop();
                let a = t.pop();
                t.def(SELECT, a, b, c as u64);
            }
            0x20 => {
                let l = r.u() as u16;
                t.push(O::Local(l));
            }
            0x21 => {
                let l = r.u() as u16;
                t.set_local(l);
            }
            0x22 => {
                let l = r.u() as u16;
                t.set_local(l);
                t.push(O::Local(l));
            }
            0x23 => {
                let g = r.u();
                t.def(GGET, 0, 0, g);
            }
            0x24 => {
                let g = r.u();
                let a = t.pop();
                t.emit(GSET, 0, a, 0, g);
            }
            0x28..=0x35 => {
                let al = r.u();
                assert!(al < 64);
                let off = r.u();
                let a = t.pop();
                t.def(op as u16, a, 0, off);
            }
            0x36..=0x3e => {
                let al = r.u();
                assert!(al < 64);
                let off = r.u();
                let b = t.pop();
                let a = t.pop();
                t.emit(op as u16, 0, a, b, off);
            }
            0x3f => {
                r.u();
                t.def(MSIZE, 0, 0, 0);
            }
            0x40 => {
                r.u();
                let a = t.pop();
                t.def(MGROW, a, 0, 0);
            }
            0x41 => {
                let v = r.s() as i32 as u32 as u64;
                let c = t.konst(v);
                t.push(O::Const(c));
            }
            0x42 => {
                let v = r.s() as u64;
                let c = t.konst(v);
                t.push(O::Const(c));
            }
            0x43 => {
                let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64;
                let c = t.konst(v);
                t.push(O::Const(c));
            }
            0x44 => {
                let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap());
                let c = t.konst(v);
                t.push(O::Const(c));
            }
            // unary: eqz, clz/ctz/popcnt, float unary, conversions, sign-ext
            0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4 => {
                let a = t.pop();
                t.def(op as u16, a, 0, 0);
            }
            0x46..=0x4f | 0x51..=0x66 | 0x6a..=0x78 | 0x7c..=0x8a | 0x92..=0x98 | 0xa0..=0xa6 => {
                let b = t.pop();
                let a = t.pop();
                t.def(op as u16, a, b, 0);
            }
            0xfc => {
                let s = r.u();
                match s {
                    0..=7 => {
                        let a = t.pop();
                        t.def(0xd0 + s as u16, a, 0, 0);
                    }
                    10 => {
                        r.u();
                        r.u();
                        let n = t.pop();
                        let sreg = t.pop();
                        let d = t.pop();
                        t.emit(MCOPY, d, sreg, n, 0);
                    }
                    11 => {
                        r.u();
                        let n = t.pop();
                        let v = t.pop();
                        let d = t.pop();
                        t.emit(MFILL, d, v, n, 0);
                    }
                    _ => panic!("0xfc {s}"),
                }
            }
            _ => panic!("opcode {op:#x} in {}", f.name),
        }
    }
    f.code = t.code;
    f.consts = t.consts;
    f.frame = (nl + t.maxh + 4) as u32;
}
