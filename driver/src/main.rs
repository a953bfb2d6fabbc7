//! MIR extractor: a rustc driver which compiles the crate as usual and dumps
//! the monomorphic MIR of every reachable function, with callees resolved by
//! the compiler, as JSON (one record per line).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Dumper {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<String>,
    queue: VecDeque<(Instance, u32)>,
    // Types of iterators, whose next() the loaders may need
    iters: Vec<Ty>,
    next_def: Option<FnDef>,
    seen: HashSet<Instance>,
    krate: String,
}

const MAX_DEPTH: u32 = 12;

fn skip_body(name: &str, krate: &str) -> bool {
    if !matches!(krate, "core" | "alloc" | "std" | "nom" | "digest" | "cipher" | "generic_array") {
        return true;
    }
    for p in [
        "core::fmt", "std::fmt", "alloc::fmt", "core::num::flt2dec", "core::num::dec2flt", "alloc::raw_vec",
        "core::unicode", "core::str::pattern", "std::io", "std::sys", "std::thread", "std::sync", "std::net",
        "std::panicking", "std::backtrace", "core::panicking", "std::rt", "std::env", "std::alloc", "alloc::alloc",
        "core::ffi", "std::ffi", "core::ptr::drop_in_place", "std::time", "std::process", "std::fs",
        "core::slice::sort", "alloc::slice::<impl [T]>::sort", "core::core_arch", "core::core_simd",
        "core::slice::memchr", "std::collections", "alloc::collections", "core::char", "core::ascii",
        "core::str::converts", "core::str::validations", "std::os", "core::ub_checks",
    ] {
        if name.starts_with(p) { return true; }
        if name.starts_with('<') && name[1..].starts_with(p) { return true; }
    }
    false
}

impl Dumper {
    fn ikey(&self, i: &Instance) -> String {
        i.mangled_name()
    }
    fn generic_args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&match c.eval_target_usize() { Ok(n) => n.to_string(), Err(_) => format!("{c:?}") })),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let TyKind::RigidTy(RigidTy::Pat(b, _)) = t.kind() { return self.ty(b); }
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let mut s = self.ty_desc(t);
        s.push_str(&self.layout(t));
        self.ty_out[id] = format!("{{\"id\":{},\"str\":{},{}}}", id, esc(&format!("{t}")), s);
        id
    }
    fn layout(&mut self, t: Ty) -> String {
        use rustc_public::abi::*;
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..) | RigidTy::Dynamic(..) | RigidTy::Foreign(_) | RigidTy::Str | RigidTy::Slice(_)) => return String::new(),
            TyKind::RigidTy(_) => {}
            _ => return String::new(),
        }
        let l = match t.layout() { Ok(l) => l.shape(), Err(_) => return String::new() };
        let mut o = format!(",\"sz\":{}", l.size.bytes());
        if let FieldsShape::Arbitrary { offsets } = &l.fields {
            let _ = write!(o, ",\"off\":{}", arr(offsets.iter(), |x| x.bytes().to_string()));
        }
        match &l.variants {
            VariantsShape::Single { index } => { let _ = write!(o, ",\"single\":{}", index.to_index()); }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let to = match &l.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|x| x.bytes()).unwrap_or(0), _ => 0 };
                let p = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                let ts = match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, Primitive::Float { .. } => 8 };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                        format!("[{},{},{},\"{}\"]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                let vs = arr(variants.iter(), |v| arr(v.offsets.iter(), |x| x.bytes().to_string()));
                let _ = write!(o, ",\"lay\":{{\"to\":{},\"ts\":{},\"enc\":{},\"vs\":{}}}", to, ts, enc, vs);
            }
            _ => {}
        }
        o
    }
    fn ty_desc(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => { let s = format!("{f:?}"); format!("\"k\":\"float\",\"f\":{},\"bits\":{}", esc(&s), s.trim_start_matches('F')) },
                RigidTy::Adt(def, args) => {
                    let name = def.name();
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            let tid = self.ty(fty);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), tid));
                        }
                        let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), esc(&d), fs.join(",")));
                    }
                    let ga = self.generic_args(&args);
                    format!("\"k\":\"adt\",\"kind\":\"{}\",\"name\":{},\"args\":{},\"variants\":[{}]", kind, esc(&name), ga, vs.join(","))
                }
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
                }
                RigidTy::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"elem\":{}", e) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, m == Mutability::Mut) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m == Mutability::Mut) }
                RigidTy::Tuple(ts) => { let v = arr(ts, |x| self.ty(x).to_string()); format!("\"k\":\"tuple\",\"elems\":{}", v) }
                RigidTy::FnDef(def, args) => {
                    let ga = self.generic_args(&args);
                    let inst = self.fninst(def, &args, 0);
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"fn\":{}", esc(&def.name()), ga, inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    // Upvar tuple is the last generic argument
                    let mut up = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() { for x in ts { up.push(self.ty(x).to_string()); } }
                    }
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::FnMut).ok();
                    let inst2 = Instance::resolve_closure(def, &args, ClosureKind::Fn).ok();
                    let key = match (inst, inst2) { (Some(i), _) => { let k = self.ikey(&i); k } (_, Some(i)) => self.ikey(&i), _ => String::new() };
                    format!("\"k\":\"closure\",\"name\":{},\"upvars\":[{}],\"inst\":{}", esc(&def.name()), up.join(","), esc(&key))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        }
    }
    fn alloc_id(&mut self, id: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&id) { return *i; }
        let n = self.alloc_out.len();
        self.allocs.insert(id, n);
        self.alloc_out.push(String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("\"k\":\"fn\",\"inst\":{},\"name\":{}", esc(&self.ikey(&i)), esc(&i.name())),
            GlobalAlloc::Static(d) => {
                let nm = d.name();
                let init = match d.eval_initializer() { Ok(a) => self.alloc(&a), Err(_) => "null".into() };
                format!("\"k\":\"static\",\"name\":{},\"init\":{}", esc(&nm), init)
            }
            GlobalAlloc::Memory(a) => format!("\"k\":\"mem\",\"a\":{}", self.alloc(&a)),
            _ => "\"k\":\"vtable\"".into(),
        };
        self.alloc_out[n] = format!("{{\"id\":{},{}}}", n, s);
        n
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut b = String::new();
        if a.bytes.len() > 65536 { return format!("{{\"big\":{}}}", a.bytes.len()); }
        for x in a.bytes.iter() { match x { Some(v) => { let _ = write!(b, "{v:02x}"); } None => b.push_str("__") } }
        let p = arr(a.provenance.ptrs.clone(), |(o, pr)| format!("[{},{}]", o, self.alloc_id(pr.0)));
        format!("{{\"bytes\":\"{}\",\"ptrs\":{}}}", b, p)
    }
    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
            let s = self.fninst(def, &args, 0);
            return format!("{{\"o\":\"const\",\"ty\":{},\"fn\":{}}}", tid, s);
        }
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => format!("\"a\":{}", self.alloc(a)),
            ConstantKind::ZeroSized => "\"zst\":true".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("\"int\":\"{n}\""), Err(_) => format!("\"tc\":{}", esc(&format!("{tc:?}"))) },
            other => format!("\"raw\":{}", esc(&format!("{other:?}"))),
        };
        format!("{{\"o\":\"const\",\"ty\":{},{}}}", tid, v)
    }
    fn iter_ty(&mut self, t: Ty) {
        if !self.iters.contains(&t) { self.iters.push(t); }
    }
    fn fninst(&mut self, def: FnDef, args: &GenericArgs, depth: u32) -> String {
        let ga = self.generic_args(args);
        let dn = def.name();
        if dn == "std::iter::Iterator::next" { self.next_def = Some(def); }
        if dn.starts_with("std::iter::Iterator::") {
            if let Some(GenericArgKind::Type(t)) = args.0.first() { self.iter_ty(*t); }
        }
        match Instance::resolve(def, args) {
            Ok(i) => {
                let k = self.ikey(&i);
                let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "other" };
                let (rn, rargs) = match i.ty().kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => (d.name(), self.generic_args(&a)),
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => (d.name(), { let _ = &a; "[]".into() }),
                    _ => (i.name(), "[]".into()),
                };
                self.enqueue(i, depth + 1);
                format!("{{\"name\":{},\"inst\":{},\"kind\":\"{}\",\"rname\":{},\"rargs\":{},\"args\":{},\"def\":{}}}", esc(&i.name()), esc(&k), kind, esc(&rn), rargs, ga, esc(&def.name()))
            }
            Err(_) => format!("{{\"name\":{},\"inst\":null,\"args\":{},\"def\":{}}}", esc(&def.name()), ga, esc(&def.name())),
        }
    }
    fn enqueue(&mut self, i: Instance, depth: u32) {
        if self.seen.contains(&i) { return; }
        let kname = i.def.krate().name;
        let local = kname == self.krate;
        if !local {
            if depth > MAX_DEPTH { return; }
            if skip_body(&i.name(), &kname) { return; }
        }
        self.seen.insert(i);
        self.queue.push_back((i, if local { 0 } else { depth }));
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = arr(p.projection.clone(), |e| match e {
            ProjectionElem::Deref => "[\"*\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            #[allow(unreachable_patterns)]
            _ => "[\"?\"]".into(),
        });
        format!("[{},{}]", p.local, pr)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            other => format!("{{\"o\":\"rtc\",\"s\":{}}}", esc(&format!("{other:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(m, p) => format!("[\"addr\",{},{}]", self.place(p), esc(&format!("{m:?}"))),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(body.locals()).map(|x| self.ty(x).to_string()).unwrap_or("null".into());
                // Closures and functions converted to pointers
                if let Ok(ft) = o.ty(body.locals()) {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = ft.kind() {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { self.enqueue(i, 0); }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{k:?}")), self.operand(o), self.ty(*t), f)
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",{},{},{}]", esc(&format!("{op:?}")), self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(a)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"elem\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                        format!("{{\"k\":\"adt\",\"ty\":{},\"v\":{},\"f\":{}}}", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()));
                        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                            if let Ok(i) = Instance::resolve_closure(*def, args, k) { self.enqueue(i, 0); break; }
                        }
                        format!("{{\"k\":\"closure\",\"ty\":{}}}", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("{{\"k\":\"rawptr\",\"ty\":{}}}", self.ty(*t)),
                    other => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{other:?}"))),
                };
                format!("[\"agg\",{},{}]", ks, arr(ops, |o| self.operand(o)))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"copy\",\"p\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            #[allow(unreachable_patterns)]
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }
    fn stmt(&mut self, s: &Statement, body: &Body) -> Option<String> {
        let ln = s.source_info.span.get_lines().start_line;
        Some(match &s.kind {
            StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, body), ln),
            StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{},{}]", self.place(place), variant_index.to_index(), ln),
            StatementKind::Intrinsic(i) => match i {
                NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{},{}]", self.operand(o), ln),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"copyno\",{},{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), ln),
            },
            _ => return None,
        })
    }
    fn term(&mut self, t: &Terminator, body: &Body, depth: u32) -> String {
        let ln = t.source_info.span.get_lines().start_line;
        let file = t.source_info.span.get_filename();
        let k = match &t.kind {
            TerminatorKind::Goto { target } => format!("\"t\":\"goto\",\"to\":{}", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = arr(targets.branches(), |(v, b)| format!("[\"{}\",{}]", v, b));
                let ty = discr.ty(body.locals()).map(|x| self.ty(x).to_string()).unwrap_or("null".into());
                format!("\"t\":\"switch\",\"on\":{},\"br\":{},\"else\":{},\"ty\":{}", self.operand(discr), br, targets.otherwise(), ty)
            }
            TerminatorKind::Resume => "\"t\":\"resume\"".into(),
            TerminatorKind::Abort => "\"t\":\"abort\"".into(),
            TerminatorKind::Return => "\"t\":\"return\"".into(),
            TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body.locals()).ok();
                let mut extra = String::new();
                if let Some(ty) = ty {
                    let i = Instance::resolve_drop_in_place(ty);
                    extra = format!(",\"ty\":{},\"inst\":{}", self.ty(ty), esc(&self.ikey(&i)));
                    self.enqueue_drop(i, depth);
                }
                format!("\"t\":\"drop\",\"p\":{},\"to\":{}{}", self.place(place), target, extra)
            }
            TerminatorKind::Call { func, args, destination, target, unwind: _ } => {
                let f = match func.ty(body.locals()).map(|x| x.kind()) {
                    Ok(TyKind::RigidTy(RigidTy::FnDef(def, ga))) => self.fninst(def, &ga, depth),
                    _ => format!("{{\"dyn\":{}}}", self.operand(func)),
                };
                let a = arr(args, |o| self.operand(o));
                let at = arr(args, |o| o.ty(body.locals()).map(|x| self.ty(x).to_string()).unwrap_or("null".into()));
                format!("\"t\":\"call\",\"f\":{},\"args\":{},\"aty\":{},\"dst\":{},\"to\":{}", f, a, at, self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ops) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                    AssertMessage::Overflow(_, a, b) => ("overflow", vec![a, b]),
                    AssertMessage::OverflowNeg(a) => ("overflow_neg", vec![a]),
                    AssertMessage::DivisionByZero(a) => ("div_zero", vec![a]),
                    AssertMessage::RemainderByZero(a) => ("rem_zero", vec![a]),
                    _ => ("other", vec![]),
                };
                let o = arr(ops, |o| self.operand(o));
                format!("\"t\":\"assert\",\"cond\":{},\"exp\":{},\"msg\":\"{}\",\"ops\":{},\"to\":{}", self.operand(cond), expected, m, o, target)
            }
            TerminatorKind::InlineAsm { .. } => "\"t\":\"asm\"".into(),
        };
        format!("{{{},\"ln\":{},\"file\":{}}}", k, ln, esc(&file))
    }
    fn enqueue_drop(&mut self, i: Instance, depth: u32) {
        // Drop glue leads to local Drop implementations
        if i.is_empty_shim() || self.seen.contains(&i) || depth > MAX_DEPTH { return; }
        self.seen.insert(i);
        self.queue.push_back((i, depth + 1));
    }
    fn dump_body(&mut self, i: Instance, depth: u32) -> Option<String> {
        if !i.has_body() { return None; }
        let body = i.body()?;
        if i.name().ends_with("IntoIterator>::into_iter") { self.iter_ty(body.locals()[0].ty); }
        let kname = i.def.krate().name;
        let local = kname == self.krate;
        let locals = arr(body.locals(), |l| self.ty(l.ty).to_string());
        let mut dbg = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { dbg.push(format!("[{},{}]", esc(&v.name.to_string()), p.local)); }
            }
        }
        let blocks = arr(body.blocks.iter(), |b| {
            let ss: Vec<String> = b.statements.iter().filter_map(|s| self.stmt(s, &body)).collect();
            format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), self.term(&b.terminator, &body, depth))
        });
        let (dn, ga) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => (d.name(), self.generic_args(&a)),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.name(), "[]".into()),
            _ => (i.name(), "[]".into()),
        };
        let isclosure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let sp = body.span;
        Some(format!(
            "{{\"r\":\"fn\",\"key\":{},\"name\":{},\"def\":{},\"args\":{},\"crate\":{},\"local\":{},\"closure\":{},\"shim\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"dbg\":[{}],\"file\":{},\"line\":{},\"blocks\":{}}}",
            esc(&self.ikey(&i)), esc(&i.name()), esc(&dn), ga, esc(&kname), local, isclosure, i.kind == InstanceKind::Shim,
            body.arg_locals().len(), body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals, dbg.join(","), esc(&sp.get_filename()), sp.get_lines().start_line, blocks
        ))
    }
}

fn analyze() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let krate = rustc_public::local_crate();
    let mut d = Dumper { tys: HashMap::new(), ty_out: vec![], allocs: HashMap::new(), alloc_out: vec![], queue: VecDeque::new(), iters: vec![], next_def: None, seen: HashSet::new(), krate: krate.name.clone() };
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    let mut roots = vec![];
    for it in items {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn | rustc_public::ItemKind::Ctor(_)) { continue; }
        if it.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(it) {
            roots.push(i.name());
            d.enqueue(i, 0);
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).expect("create"));
    let mut n = 0;
    let mut done = 0;
    loop {
        while let Some((i, depth)) = d.queue.pop_front() {
            if let Some(s) = d.dump_body(i, depth) { writeln!(f, "{s}").unwrap(); n += 1; }
        }
        let def = match d.next_def { Some(x) => x, None => break };
        if done == d.iters.len() { break; }
        let t = d.iters[done];
        done += 1;
        let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
        if let Ok(i) = Instance::resolve(def, &ga) {
            d.enqueue(i, MAX_DEPTH / 2);
            let (k, ti) = (d.ikey(&i), d.ty(t));
            writeln!(f, "{{\"r\":\"next\",\"ty\":{},\"inst\":{}}}", ti, esc(&k)).unwrap();
        }
    }
    for s in d.ty_out.iter() { writeln!(f, "{{\"r\":\"ty\",{}", &s[1..]).unwrap(); }
    for s in d.alloc_out.iter() { writeln!(f, "{{\"r\":\"alloc\",{}", &s[1..]).unwrap(); }
    writeln!(f, "{{\"r\":\"end\",\"fns\":{},\"crate\":{}}}", n, esc(&d.krate)).unwrap();
    f.flush().unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: <wrapper> <rustc> <args>
    let mut rustc = String::from("rustc");
    if args.len() > 1 && args[1].ends_with("rustc") { rustc = args.remove(1); }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target) && !args.iter().any(|a| a == "--test");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let r = rustc_public::run!(&args, analyze);
        match r { Ok(_) => {} Err(e) => { eprintln!("mirdump: {e:?}"); std::process::exit(1) } }
    } else {
        let s = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(s.code().unwrap_or(1));
    }
}
