//! mirdump: dump the monomorphic MIR of the local crate (as rustc resolves it) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; only the crate named by MIRDUMP_CRATE is dumped.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::ItemKind;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;
use rustc_public_bridge::IndexedVal;

/// JSON value builder (serde is not needed for this).
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump {
    ty_ids: HashMap<Ty, usize>,
    ty_json: BTreeMap<usize, String>,
    queue: VecDeque<Instance>,
    inst_ids: HashMap<Instance, usize>,
    fns: BTreeMap<usize, String>,
    statics: BTreeMap<String, String>,
    std_bodies: Vec<String>,
    skip: Vec<String>,
}

fn expand_adt(krate: &str, name: &str) -> bool {
    // of the line editor only its error, which is matched on
    (krate == "rustyline" && name.ends_with("ReadlineError")) || matches!(krate, "rsh" | "nix" | "fragile")
        || (krate == "core" || krate == "std" || krate == "alloc")
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_ids.len();
        self.ty_ids.insert(t, id);
        let j = self.ty_body(t);
        let lay = match t.kind() { TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) => self.lay(t), _ => String::new() };
        let j = format!("{{\"s\":{},{}{}}}", esc(&format!("{}", t)), j, lay);
        self.ty_json.insert(id, j);
        id
    }
    fn lay(&mut self, t: Ty) -> String {
        let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return String::new() };
        let offs = |f: &FieldsShape| match f {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>(),
            _ => vec![],
        };
        let fo = offs(&sh.fields);
        let var = match &sh.variants {
            VariantsShape::Empty => "{}".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                let w = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                        format!("[{},{},{},{}]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                let vo: Vec<String> = variants.iter().map(|v| arr(v.offsets.iter().map(|o| o.bytes().to_string()))).collect();
                format!("{{\"toff\":{},\"tw\":{},\"niche\":{},\"vo\":{}}}", fo.get(*tag_field).cloned().unwrap_or("0".into()), w, enc, arr(vo))
            }
        };
        format!(",\"lay\":{{\"sz\":{},\"fo\":{},\"var\":{}}}", sh.size.bytes(), arr(fo), var)
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Const(c) => v.push(esc(&format!("{:?}", c.eval_target_usize().ok()))),
            }
        }
        arr(v)
    }
    fn ty_body(&mut self, t: Ty) -> String {
        let k = t.kind();
        let r = match k {
            TyKind::RigidTy(r) => r,
            other => return format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
        };
        match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{},\"sg\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"w\":{},\"sg\":false", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(t, c) => {
                let e = self.ty(t);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
            }
            RigidTy::Slice(t) => { let e = self.ty(t); format!("\"k\":\"slice\",\"e\":{}", e) }
            RigidTy::RawPtr(t, m) => { let e = self.ty(t); format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut) }
            RigidTy::Ref(_, t, m) => { let e = self.ty(t); format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut) }
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("\"k\":\"tuple\",\"f\":{}", arr(v)) }
            RigidTy::FnDef(d, a) => { let g = self.gargs(&a); 
                let inst = Instance::resolve(d, &a).ok();
                let i = match inst { Some(i) => self.inst(i).to_string(), None => "null".into() };
                format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", esc(&d.name()), g, i) }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                // the body of the closure itself
                let body_inst = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].into_iter()
                    .filter_map(|k| Instance::resolve_closure(d, &a, k).ok())
                    .find(|i| matches!(i.kind, InstanceKind::Item)).or(inst);
                let i = match body_inst { Some(i) => self.inst(i).to_string(), None => "null".into() };
                format!("\"k\":\"closure\",\"name\":{},\"inst\":{}", esc(&d.name()), i)
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            RigidTy::Adt(d, a) => {
                let name = d.name();
                let krate = d.krate().name;
                let g = self.gargs(&a);
                let mut vs = vec![];
                if expand_adt(&krate, &name) && d.kind() != AdtKind::Union {
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            let fid = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name), fid));
                        }
                        let dis = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(format!("{{\"name\":{},\"disc\":{},\"f\":{}}}", esc(&v.name()), esc(&dis.to_string()), arr(fs)));
                    }
                }
                format!("\"k\":\"adt\",\"crate\":{},\"name\":{},\"enum\":{},\"args\":{},\"v\":{}",
                    esc(&krate), esc(&name), d.kind() == AdtKind::Enum, g, arr(vs))
            }
            other => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.inst_ids.len();
        self.inst_ids.insert(i, id);
        self.queue.push_back(i);
        id
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn alloc(&mut self, a: &Allocation, t: Option<Ty>, depth: usize) -> String {
        let _ = t;
        let bytes: Vec<String> = a.bytes.iter().map(|b| match b { Some(x) => x.to_string(), None => "null".into() }).collect();
        let mut pv = vec![];
        for (off, prov) in a.provenance.ptrs.iter() {
            let g = GlobalAlloc::from(prov.0);
            let gj = match g {
                GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                GlobalAlloc::VTable(..) => "{\"vtable\":true}".to_string(),
                GlobalAlloc::Static(s) => {
                    self.stat(s);
                    format!("{{\"static\":{}}}", esc(&s.name()))
                }
                GlobalAlloc::Memory(m) => if depth > 6 { "{\"deep\":true}".into() } else { format!("{{\"mem\":{}}}", self.alloc(&m, None, depth + 1)) },
                GlobalAlloc::TypeId { .. } => "{\"typeid\":true}".into(),
            };
            pv.push(format!("[{},{}]", off, gj));
        }
        format!("{{\"b\":{},\"p\":{}}}", arr(bytes), arr(pv))
    }
    fn stat(&mut self, s: rustc_public::mir::mono::StaticDef) {
        let n = s.name();
        if self.statics.contains_key(&n) { return; }
        self.statics.insert(n.clone(), "null".into());
        let t = s.ty();
        let tid = self.ty(t);
        let init = match s.eval_initializer() { Ok(a) => self.alloc(&a, Some(t), 0), Err(_) => "null".into() };
        self.statics.insert(n, format!("{{\"ty\":{},\"init\":{}}}", tid, init));
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.ty();
                let tid = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc(a, Some(t), 0),
                    ConstantKind::ZeroSized => "\"zst\"".to_string(),
                    ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("{{\"usize\":{}}}", n), Err(_) => "\"tyconst\"".into() },
                    ConstantKind::Unevaluated(u) => format!("{{\"uneval\":{}}}", esc(&format!("{:?}", u.def.name()))),
                    _ => "\"?\"".to_string(),
                };
                format!("[\"c\",{},{}]", tid, v)
            }
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => { let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone())); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, m) => format!("[\"rawptr\",{},{}]", self.ty(*t), *m == Mutability::Mut),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},{}]", kj, arr(v))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", b)), self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(o), c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn line(s: &Span) -> usize {
        s.get_lines().start_line
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut dbg = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                dbg.push(format!("[{},{}]", esc(&d.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = Self::line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); st.push(format!("[\"=\",{},{},{}]", ln, p, r)) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{},{}]", ln, p, variant_index.to_index())) }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{},{}]", ln, l)),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{},{}]", ln, l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.operand(o); st.push(format!("[\"assume\",{},{}]", ln, o)) }
                    StatementKind::Intrinsic(_) => st.push(format!("[\"unsup\",{}]", ln)),
                    _ => {}
                }
            }
            let ln = Self::line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", ln, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t)).collect();
                    format!("[\"switch\",{},{},{},{}]", ln, self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => format!("[\"resume\",{}]", ln),
                TerminatorKind::Abort => format!("[\"abort\",{}]", ln),
                TerminatorKind::Return => format!("[\"return\",{}]", ln),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", ln),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let p = self.place(place);
                    let t = match pt { Some(t) => self.ty(t).to_string(), None => "null".into() };
                    format!("[\"drop\",{},{},{},{}]", ln, p, target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).unwrap();
                    let callee = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => format!("[\"inst\",{}]", self.inst(i)),
                            Err(_) => format!("[\"unres\",{}]", esc(&d.name())),
                        },
                        _ => format!("[\"ptr\",{}]", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args.iter().map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{},{}]", ln, callee, arr(a), d, target.map(|t| t.to_string()).unwrap_or("null".into()), arr(at))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "bounds", AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(..) => "overflow", AssertMessage::DivisionByZero(..) | AssertMessage::RemainderByZero(..) => "div0", _ => "other" };
                    format!("[\"assert\",{},{},{},\"{}\",{}]", ln, self.operand(cond), expected, m, target)
                }
                _ => format!("[\"unsup\",{}]", ln),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(st), t));
        }
        format!("\"locals\":{},\"argc\":{},\"dbg\":{},\"spread\":{},\"blocks\":{}",
            arr(locals), b.arg_locals().len(), arr(dbg),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(blocks))
    }
    fn dump_inst(&mut self, i: Instance) {
        let id = self.inst_ids[&i];
        let name = i.name();
        let (krate, dname) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => (d.krate().name, d.name()),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.krate().name, d.name()),
            _ => ("?".into(), name.clone()),
        };
        let args = { let a = i.args(); self.gargs(&a) };
        let local = krate == rustc_public::local_crate().name;
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "llvm" };
        let want = (local && !self.skip.iter().any(|s| dname.contains(s.as_str())))
            || (kind == "shim" && !name.contains("drop_in_place") && !name.contains("drop_glue"))
            || (!local && self.std_bodies.iter().any(|s| !s.is_empty() && (dname.starts_with(s.as_str()))));
        let mut extra = String::new();
        if want && kind != "intrinsic" && kind != "virtual" {
            if let Some(b) = i.body() {
                extra = format!(",{}", self.body(&b));
            }
        }
        let sig = match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => {
            match i.fn_abi() { Ok(abi) => { let r = self.ty(abi.ret.ty); format!("{}", r) } Err(_) => "null".into() } }, _ => "null".into() };
        self.fns.insert(id, format!("{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"args\":{},\"ret\":{}{}}}", id, esc(&name), esc(&dname), esc(&krate), kind, args, sig, extra));
    }
}

fn dump() -> ControlFlow<()> {
    let mut d = Dump {
        ty_ids: HashMap::new(), ty_json: BTreeMap::new(), queue: VecDeque::new(), inst_ids: HashMap::new(),
        fns: BTreeMap::new(), statics: BTreeMap::new(),
        std_bodies: std::env::var("MIRDUMP_STD").unwrap_or_default().split(',').map(|s| s.to_string()).collect(),
        skip: std::env::var("MIRDUMP_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    for item in rustc_public::all_local_items() {
        if matches!(item.kind(), ItemKind::Fn) {
            if let Ok(i) = Instance::try_from(item) {
                d.inst(i);
            }
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.dump_inst(i);
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let tys: Vec<String> = (0..d.ty_ids.len()).map(|i| d.ty_json[&i].clone()).collect();
    let st: Vec<String> = d.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let fns: Vec<String> = d.fns.values().cloned().collect();
    let s = format!("{{\"types\":[{}],\n\"statics\":{{{}}},\n\"fns\":[\n{}\n]}}\n", tys.join(",\n"), st.join(",\n"), fns.join(",\n"));
    std::fs::write(&out, s).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    // args[0] is the path of the real rustc
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if is && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-Inline".into());
        let r = rustc_public::run!(&args, dump);
        if r.is_err() { std::process::exit(1); }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
