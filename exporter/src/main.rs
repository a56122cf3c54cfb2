//! MIR exporter: a rustc driver (nightly, rustc_public) that dumps the monomorphic MIR of
//! everything reachable from the functions of the crate it compiles, with resolved callees,
//! type layouts and evaluated constants, as one JSON document.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER for the harness crate; for any other invocation it behaves
//! like rustc.  MIR_EXPORT_OUT = output file, MIR_EXPORT_DESCEND = comma separated crate names
//! whose bodies are dumped.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| match a {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        }),
        _ => None,
    }
}

struct Ex {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    inst_ids: HashMap<String, usize>,
    insts: Vec<Option<String>>,
    queue: VecDeque<(usize, Instance)>,
    alloc_ids: HashMap<AllocId, usize>,
    allocs: Vec<Option<String>>,
    descend: HashSet<String>,
    unsized_pairs: Vec<(Ty, Ty)>,
    virtuals: Vec<(usize, FnDef, GenericArgs)>,
    vmap: HashMap<(usize, usize), usize>,
}

impl Ex {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let s = self.ty_json(t);
        self.tys[id] = s;
        id
    }

    fn offsets(f: &FieldsShape) -> Vec<usize> {
        match f {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            FieldsShape::Union(n) => vec![0; n.get()],
            _ => vec![],
        }
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = format!("{}", t);
        let mut o = String::new();
        let _ = write!(o, "{{\"n\":{}", esc(&name));
        let shape: Option<LayoutShape> = t.layout().ok().map(|l| l.shape());
        if let Some(s) = &shape {
            if s.is_sized() {
                let _ = write!(o, ",\"size\":{},\"align\":{}", s.size.bytes(), s.abi_align);
            } else {
                let _ = write!(o, ",\"unsized\":1");
            }
        }
        let offs = shape.as_ref().map(|s| Self::offsets(&s.fields)).unwrap_or_default();
        let kind = t.kind();
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
                RigidTy::Char => o.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => {
                    let _ = write!(o, ",\"k\":\"int\",\"i\":{}", esc(&format!("{:?}", i)));
                }
                RigidTy::Uint(i) => {
                    let _ = write!(o, ",\"k\":\"uint\",\"i\":{}", esc(&format!("{:?}", i)));
                }
                RigidTy::Float(f) => {
                    let _ = write!(o, ",\"k\":\"float\",\"i\":{}", esc(&format!("{:?}", f)));
                }
                RigidTy::Str => o.push_str(",\"k\":\"str\""),
                RigidTy::Never => o.push_str(",\"k\":\"never\""),
                RigidTy::Array(e, c) => {
                    let e = self.ty(e);
                    let n = c.eval_target_usize().ok();
                    let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"len\":{}", e, n.map(|x| x.to_string()).unwrap_or("null".into()));
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e);
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, (m == Mutability::Mut) as u8);
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, (m == Mutability::Mut) as u8);
                }
                RigidTy::FnDef(d, args) => {
                    let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", esc(&d.name()));
                    if let Ok(i) = Instance::resolve(d, &args) {
                        let id = self.inst(i);
                        let _ = write!(o, ",\"inst\":{}", id);
                    }
                }
                RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
                RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
                RigidTy::Closure(d, args) => {
                    let _ = write!(o, ",\"k\":\"closure\",\"def\":{}", esc(&d.name()));
                    // upvars: last generic arg is the tupled upvars type
                    let mut fs = vec![];
                    if let Some(GenericArgKind::Type(u)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(us)) = u.kind() {
                            for u in us {
                                fs.push(self.ty(u));
                            }
                        }
                    }
                    o.push_str(",\"fields\":[");
                    for (i, f) in fs.iter().enumerate() {
                        let _ = write!(o, "{}[{},{},\"{}\"]", if i > 0 { "," } else { "" }, offs.get(i).copied().unwrap_or(0), f, i);
                    }
                    o.push(']');
                }
                RigidTy::Tuple(ts) => {
                    o.push_str(",\"k\":\"tuple\",\"fields\":[");
                    for (i, f) in ts.iter().enumerate() {
                        let f = self.ty(*f);
                        let _ = write!(o, "{}[{},{},\"{}\"]", if i > 0 { "," } else { "" }, offs.get(i).copied().unwrap_or(0), f, i);
                    }
                    o.push(']');
                }
                RigidTy::Adt(d, args) => {
                    let k = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let _ = write!(o, ",\"k\":\"{}\",\"def\":{},\"crate\":{}", k, esc(&d.name()), esc(&d.krate().name));
                    if format!("{:?}", d.repr()).contains("pack: Some") {
                        o.push_str(",\"packed\":1");
                    }
                    o.push_str(",\"args\":[");
                    let mut first = true;
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            let t = self.ty(*t);
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            let _ = write!(o, "{}", t);
                        }
                    }
                    o.push(']');
                    if d.kind() != AdtKind::Enum {
                        o.push_str(",\"fields\":[");
                        let v = d.variants();
                        if let Some(v) = v.first() {
                            for (i, f) in v.fields().iter().enumerate() {
                                let ft = f.ty_with_args(&args);
                                let ft = self.ty(ft);
                                let _ = write!(o, "{}[{},{},{}]", if i > 0 { "," } else { "" }, offs.get(i).copied().unwrap_or(0), ft, esc(&f.name));
                            }
                        }
                        o.push(']');
                    } else {
                        // enum
                        let shape = shape.clone();
                        o.push_str(",\"variants\":[");
                        for (vi, v) in d.variants().iter().enumerate() {
                            let voffs: Vec<usize> = match shape.as_ref().map(|s| &s.variants) {
                                Some(VariantsShape::Multiple { variants, .. }) => {
                                    variants[vi].offsets.iter().map(|o| o.bytes()).collect()
                                }
                                Some(VariantsShape::Single { .. }) => offs.clone(),
                                _ => vec![],
                            };
                            let dv = d.discriminant_for_variant(v.idx()).val;
                            let _ = write!(o, "{}{{\"n\":{},\"d\":{},\"fields\":[", if vi > 0 { "," } else { "" }, esc(&v.name()), dv);
                            for (i, f) in v.fields().iter().enumerate() {
                                let ft = f.ty_with_args(&args);
                                let ft = self.ty(ft);
                                let _ = write!(o, "{}[{},{},{}]", if i > 0 { "," } else { "" }, voffs.get(i).copied().unwrap_or(0), ft, esc(&f.name));
                            }
                            o.push_str("]}");
                        }
                        o.push(']');
                        match shape.as_ref().map(|s| &s.variants) {
                            Some(VariantsShape::Multiple { tag, tag_encoding, tag_field, .. }) => {
                                let toff = offs.get(*tag_field).copied().unwrap_or(0);
                                let dbg = format!("{:?}", tag);
                                let tsz = if dbg.contains("I8") { 1 } else if dbg.contains("I16") { 2 } else if dbg.contains("I32") { 4 } else { 8 };
                                match tag_encoding {
                                    TagEncoding::Direct => {
                                        let _ = write!(o, ",\"tag\":[\"direct\",{},{}]", toff, tsz);
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let _ = write!(
                                            o,
                                            ",\"tag\":[\"niche\",{},{},{},{},{},{}]",
                                            toff,
                                            tsz,
                                            untagged_variant.to_index(),
                                            niche_variants.start().to_index(),
                                            niche_variants.end().to_index(),
                                            niche_start
                                        );
                                    }
                                }
                            }
                            Some(VariantsShape::Single { index }) => {
                                let _ = write!(o, ",\"tag\":[\"single\",{}]", index.to_index());
                            }
                            _ => o.push_str(",\"tag\":[\"empty\"]"),
                        }
                    }
                }
                other => {
                    let s: String = format!("{:?}", other).chars().take(30).collect();
                    let _ = write!(o, ",\"k\":\"other\",\"dbg\":{}", esc(&s));
                }
            },
            other => {
                let s: String = format!("{:?}", other).chars().take(30).collect();
                let _ = write!(o, ",\"k\":\"other\",\"dbg\":{}", esc(&s));
            }
        }
        o.push('}');
        o
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = format!("{}#{:?}", i.mangled_name(), i.kind);
        if let Some(x) = self.inst_ids.get(&key) {
            return *x;
        }
        let id = self.insts.len();
        self.inst_ids.insert(key, id);
        self.insts.push(None);
        self.queue.push_back((id, i));
        id
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut o = String::from("\"bytes\":\"");
        let mut undef = vec![];
        for (i, b) in a.bytes.iter().enumerate() {
            match b {
                Some(b) => {
                    let _ = write!(o, "{:02x}", b);
                }
                None => {
                    o.push_str("00");
                    undef.push(i.to_string());
                }
            }
        }
        o.push('"');
        if !undef.is_empty() && undef.len() < 4096 {
            let _ = write!(o, ",\"undef\":[{}]", undef.join(","));
        } else if !undef.is_empty() {
            o.push_str(",\"undef\":\"all\"");
        }
        if !a.provenance.ptrs.is_empty() {
            o.push_str(",\"ptrs\":[");
            let ptrs = a.provenance.ptrs.clone();
            for (i, (off, p)) in ptrs.iter().enumerate() {
                let id = self.galloc(p.0);
                let _ = write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, off, id);
            }
            o.push(']');
        }
        o
    }

    fn galloc(&mut self, a: AllocId) -> usize {
        if let Some(x) = self.alloc_ids.get(&a) {
            return *x;
        }
        let id = self.allocs.len();
        self.alloc_ids.insert(a, id);
        self.allocs.push(None);
        let g = GlobalAlloc::from(a);
        let s = match g {
            GlobalAlloc::Memory(m) => {
                let j = self.alloc_json(&m);
                format!("{{\"k\":\"mem\",{}}}", j)
            }
            GlobalAlloc::Function(i) => {
                let i = self.inst(i);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", i)
            }
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let mut o = format!("{{\"k\":\"static\",\"name\":{},\"ty\":{}", esc(&s.name()), t);
                if let Ok(m) = s.eval_initializer() {
                    if m.bytes.len() < 65536 {
                        let j = self.alloc_json(&m);
                        let _ = write!(o, ",{}", j);
                    }
                }
                o.push('}');
                o
            }
            GlobalAlloc::VTable(t, _) => {
                let ti = self.ty(t);
                let mut o = format!("{{\"k\":\"vtable\",\"ty\":{}", ti);
                if let Some(va) = GlobalAlloc::from(a).vtable_allocation() {
                    if let GlobalAlloc::Memory(m) = GlobalAlloc::from(va) {
                        let j = self.alloc_json(&m);
                        let _ = write!(o, ",{}", j);
                    }
                }
                o.push('}');
                o
            }
            _ => "{\"k\":\"other\"}".to_string(),
        };
        self.allocs[id] = Some(s);
        id
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                let j = self.alloc_json(&a);
                format!("{{\"c\":{},{}}}", t, j)
            }
            ConstantKind::ZeroSized => format!("{{\"c\":{},\"zst\":1}}", t),
            ConstantKind::Ty(tc) => {
                if let Ok(v) = tc.eval_target_usize() {
                    let mut h = String::new();
                    for b in v.to_le_bytes() {
                        let _ = write!(h, "{:02x}", b);
                    }
                    format!("{{\"c\":{},\"bytes\":\"{}\"}}", t, h)
                } else {
                    format!("{{\"c\":{},\"unknown\":1}}", t)
                }
            }
            k => {
                let s: String = format!("{:?}", k).chars().take(200).collect();
                format!("{{\"c\":{},\"unknown\":{}}}", t, esc(&s))
            }
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, ",[\"f\",{},{}]", i, t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, *from_end as u8);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, *from_end as u8);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, ",[\"oc\",{}]", t);
                }
                #[allow(unreachable_patterns)]
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }

    fn operand(&mut self, p: &Operand) -> String {
        match p {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            #[allow(unreachable_patterns)]
            o => format!("{{\"rt\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let k = format!("{:?}", k);
                let m = if k.contains("Mut") { 1 } else { 0 };
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::AddressOf(k, p) => {
                let k = format!("{:?}", k);
                let m = if k.contains("Mut") { 1 } else { 0 };
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&d.name())),
            Rvalue::Cast(k, o, t) => {
                let extra = if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(..)) = k {
                    o.ty(locals).ok().and_then(|t| match t.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve_for_fn_ptr(d, &a).ok(),
                        _ => None,
                    })
                } else if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    o.ty(locals).ok().and_then(|t| match t.kind() {
                        TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                            Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok()
                        }
                        _ => None,
                    })
                } else {
                    None
                };
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let (Ok(a), b) = (o.ty(locals), *t) {
                        if let (Some(a), Some(b)) = (pointee(a), pointee(b)) {
                            if !self.unsized_pairs.contains(&(a, b)) {
                                self.unsized_pairs.push((a, b));
                            }
                        }
                    }
                }
                let st = o.ty(locals).ok().map(|t| self.ty(t));
                let op = self.operand(o);
                let t = self.ty(*t);
                let e = extra.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                format!(
                    "[\"cast\",{},{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    op,
                    t,
                    st.map(|x| x.to_string()).unwrap_or("null".into()),
                    e
                )
            }
            Rvalue::BinaryOp(b, x, y) => {
                let x = self.operand(x);
                let y = self.operand(y);
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), x, y)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let x = self.operand(x);
                let y = self.operand(y);
                format!("[\"cbin\",{},{},{}]", esc(&format!("{:?}", b)), x, y)
            }
            Rvalue::UnaryOp(b, x) => {
                let x = self.operand(x);
                format!("[\"un\",{},{}]", esc(&format!("{:?}", b)), x)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => match f {
                        Some(f) => format!("[\"adt\",{},{}]", v.to_index(), f),
                        None => format!("[\"adt\",{}]", v.to_index()),
                    },
                    AggregateKind::Closure(..) => "[\"closure\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    k => format!("[\"?\",{}]", esc(&format!("{:?}", k).chars().take(60).collect::<String>())),
                };
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                format!(
                    "[\"agg\",{},[{}],{}]",
                    ks,
                    ops.join(","),
                    t.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            #[allow(unreachable_patterns)]
            r => format!("[\"?\",{}]", esc(&format!("{:?}", r).chars().take(200).collect::<String>())),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", b.arg_locals().len());
        for (i, l) in locals.iter().enumerate() {
            let t = self.ty(l.ty);
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, t);
        }
        o.push(']');
        if let Some(s) = b.spread_arg() {
            let _ = write!(o, ",\"spread\":{}", s);
        }
        o.push_str(",\"names\":{");
        let mut first = true;
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local, esc(&d.name));
                }
            }
        }
        o.push('}');
        o.push_str(",\"blocks\":[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r, locals);
                        format!("[\"=\",{},{}]", p, r)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        format!("[\"sd\",{},{}]", p, variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.operand(&c.src);
                        let b = self.operand(&c.dst);
                        let n = self.operand(&c.count);
                        let t = c.src.ty(locals).ok().map(|t| self.ty(t));
                        format!("[\"cpy\",{},{},{},{}]", a, b, n, t.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let sp = bb.terminator.source_info.span;
            let loc = format!("{}:{}", sp.get_filename(), sp.get_lines().start_line);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(locals).ok().map(|t| self.ty(t));
                    let d = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!(
                        "[\"sw\",{},[{}],{},{}]",
                        d,
                        br.join(","),
                        targets.otherwise(),
                        dt.map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Resume => "[\"resume\"]".to_string(),
                TerminatorKind::Abort => "[\"abort\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(locals).ok();
                    let p = self.place(place);
                    let (ti, ii) = match pt {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            let empty = i.is_empty_shim();
                            (self.ty(t).to_string(), if empty { "null".to_string() } else { self.inst(i).to_string() })
                        }
                        None => ("null".into(), "null".into()),
                    };
                    format!("[\"drop\",{},{},{},{}]", p, target, ti, ii)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                            Ok(i) => {
                                let id = self.inst(i);
                                if let InstanceKind::Virtual { .. } = i.kind {
                                    if !self.virtuals.iter().any(|v| v.0 == id) {
                                        self.virtuals.push((id, d, a.clone()));
                                    }
                                }
                                id.to_string()
                            }
                            Err(_) => format!("{{\"unres\":{}}}", esc(&d.name())),
                        },
                        _ => self.operand(func),
                    };
                    let tys: Vec<String> =
                        args.iter().map(|a| a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into())).collect();
                    let args: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},[{}],{},{},[{}],{}]",
                        f,
                        args.join(","),
                        d,
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        tys.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m: String = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assert".into());
                    format!("[\"assert\",{},{},{},{}]", c, *expected as u8, target, esc(&m))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".to_string(),
                #[allow(unreachable_patterns)]
                t => format!("[\"?\",{}]", esc(&format!("{:?}", t))),
            };
            o.push_str(&t);
            let _ = write!(o, ",\"l\":{}}}", esc(&loc));
        }
        o.push(']');
        o
    }

    fn run(&mut self) {
        loop {
            self.run_queue();
            let pairs = self.unsized_pairs.clone();
            let virts = self.virtuals.clone();
            let mut new = false;
            for (vid, d, args) in &virts {
                let dynty = match args.0.first() {
                    Some(GenericArgKind::Type(t)) => *t,
                    _ => continue,
                };
                for (c, b) in &pairs {
                    if format!("{}", b) != format!("{}", dynty) {
                        continue;
                    }
                    let ct = self.ty(*c);
                    if self.vmap.contains_key(&(*vid, ct)) {
                        continue;
                    }
                    let mut a2 = args.clone();
                    a2.0[0] = GenericArgKind::Type(*c);
                    if let Ok(i) = Instance::resolve(*d, &a2) {
                        let id = self.inst(i);
                        self.vmap.insert((*vid, ct), id);
                        new = true;
                    }
                }
            }
            if !new && self.queue.is_empty() {
                break;
            }
        }
    }

    fn run_queue(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let name = i.name();
            let def = i.def.name();
            let krate = i.def.krate().name;
            let mut o = String::new();
            let kind = match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".to_string(),
                InstanceKind::Virtual { idx } => format!("virtual{}", idx),
                InstanceKind::Shim => "shim".to_string(),
                _ => "llvm".to_string(),
            };
            let _ = write!(
                o,
                "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\"",
                id,
                esc(&name),
                esc(&def),
                esc(&krate),
                kind
            );
            if i.kind == InstanceKind::Intrinsic {
                if let Some(n) = i.intrinsic_name() {
                    let _ = write!(o, ",\"intrinsic\":{}", esc(&n));
                }
            }
            let mut ta = vec![];
            for a in &i.args().0 {
                if let GenericArgKind::Type(t) = a {
                    ta.push(self.ty(*t).to_string());
                }
            }
            let _ = write!(o, ",\"targs\":[{}]", ta.join(","));
            let want = self.descend.contains(&krate) || i.kind == InstanceKind::Shim;
            if want && i.has_body() {
                if let Some(b) = i.body() {
                    let bj = self.body(&b);
                    let _ = write!(o, ",{}", bj);
                }
            }
            o.push('}');
            self.insts[id] = Some(o);
        }
    }
}

fn export() -> ControlFlow<(), ()> {
    let out = std::env::var("MIR_EXPORT_OUT").expect("MIR_EXPORT_OUT");
    let descend = std::env::var("MIR_EXPORT_DESCEND").unwrap_or_default();
    let mut ex = Ex {
        ty_ids: HashMap::new(),
        tys: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        queue: VecDeque::new(),
        alloc_ids: HashMap::new(),
        allocs: vec![],
        descend: descend.split(',').map(|s| s.to_string()).collect(),
        unsized_pairs: vec![],
        virtuals: vec![],
        vmap: HashMap::new(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() {
            continue;
        }
        if let ItemKind::Fn = it.kind() {
            if let Ok(i) = Instance::try_from(it) {
                let id = ex.inst(i);
                roots.push(id.to_string());
            }
        }
    }
    ex.run();
    let mut o = String::new();
    o.push_str("{\"roots\":[");
    o.push_str(&roots.join(","));
    let vm: Vec<String> = ex.vmap.iter().map(|((v, t), i)| format!("[{},{},{}]", v, t, i)).collect();
    o.push_str("],\n\"vmap\":[");
    o.push_str(&vm.join(","));
    o.push_str("],\n\"tys\":[\n");
    o.push_str(&ex.tys.join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    let al: Vec<String> = ex.allocs.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
    o.push_str(&al.join(",\n"));
    o.push_str("],\n\"insts\":[\n");
    let il: Vec<String> = ex.insts.iter().map(|x| x.clone().unwrap_or("null".into())).collect();
    o.push_str(&il.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write export");
    ControlFlow::Continue(())
}

use rustc_public::ItemKind;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WORKSPACE_WRAPPER we are called as: <self> <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args
        .iter()
        .position(|a| a == "--crate-name")
        .map(|p| args[p + 1] == "harness")
        .unwrap_or(false);
    if is_target && std::env::var("MIR_EXPORT_OUT").is_ok() {
        match rustc_public::run!(&args, export) {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        use std::os::unix::process::CommandExt;
        let real: Vec<String> = std::env::args().collect();
        let e = std::process::Command::new(&real[1]).args(&real[2..]).exec();
        panic!("exec: {}", e);
    }
}
