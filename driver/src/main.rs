//! rustc driver used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//! For the crates named in MIRDUMP_CRATES it dumps, after type checking, the monomorphised MIR of every
//! non-generic function of the crate and of everything reachable from it (resolved callees, evaluated
//! constants, type and layout tables) as JSON to $MIRDUMP_OUT/<crate>.json.
//! All other crates are compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::{self as rty, TyCtxt};
use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::target::MachineInfo;
use rustc_public_bridge::IndexedVal;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;


fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<Ty>,
    fns: HashMap<Instance, usize>,
    fn_out: Vec<Option<String>>,
    fn_queue: VecDeque<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_out: Vec<Option<String>>,
    alloc_queue: VecDeque<AllocId>,
    stop: Vec<String>,
    vtables: HashMap<(usize, String), String>,
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        self.ty_queue.push_back(t);
        i
    }
    fn func(&mut self, i: Instance) -> usize {
        if let Some(n) = self.fns.get(&i) {
            return *n;
        }
        let n = self.fn_out.len();
        self.fns.insert(i, n);
        self.fn_out.push(None);
        self.fn_queue.push_back(i);
        n
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(n) = self.allocs.get(&a) {
            return *n;
        }
        let n = self.alloc_out.len();
        self.allocs.insert(a, n);
        self.alloc_out.push(None);
        self.alloc_queue.push_back(a);
        n
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut s = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(s, "{:02x}", b);
                }
                None => s.push_str("__"),
            }
        }
        let ps: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc_id(p.0)))
            .collect();
        format!("\"b\":\"{}\",\"p\":{}", s, arr(ps))
    }
    fn gargs(&mut self, g: &GenericArgs) -> String {
        let v = g
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"n\":{}}}", n),
                    Err(_) => "null".into(),
                }),
            })
            .collect();
        arr(v)
    }
    fn layout(&mut self, t: Ty) -> (i64, Vec<usize>) {
        if let Ok(l) = t.layout() {
            let s = l.shape();
            let offs = match &s.fields {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                _ => vec![],
            };
            (if s.is_unsized() { -1 } else { s.size.bytes() as i64 }, offs)
        } else {
            (-1, vec![])
        }
    }
    /// how the variant of an enum value is encoded in memory: tag offset and size, encoding
    /// (null: the tag is the discriminant; else untagged variant, first and last niche variant,
    /// niche start), field offsets per variant
    fn enum_layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let FieldsShape::Arbitrary { offsets } = &s.fields else { return "null".into() };
        let VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } = &s.variants else { return "null".into() };
        let prim = match tag {
            Scalar::Initialized { value, .. } => value,
            Scalar::Union { value } => value,
        };
        let tsz = prim.size(&MachineInfo::target()).bytes();
        let enc = match tag_encoding {
            TagEncoding::Direct => "null".to_string(),
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                "[{},{},{},\"{}\"]",
                untagged_variant.to_index(),
                niche_variants.start().to_index(),
                niche_variants.end().to_index(),
                niche_start
            ),
        };
        let vs = arr(variants.iter().map(|v| arr(v.offsets.iter().map(|o| o.bytes().to_string()).collect())).collect());
        format!("{{\"o\":{},\"n\":{},\"e\":{},\"v\":{}}}", offsets[*tag_field].bytes(), tsz, enc, vs)
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let name = format!("{}", t);
        let (size, offs) = self.layout(t);
        let offs = arr(offs.iter().map(|x| x.to_string()).collect());
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    format!("\"k\":\"pat\",\"e\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"fs\":{}", arr(v))
                }
                RigidTy::FnDef(d, g) => {
                    let ga = self.gargs(&g);
                    let f = match Instance::resolve(d, &g) {
                        Ok(i) => self.func(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"ga\":{},\"f\":{}", q(&d.name().to_string()), ga, f)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, g) => {
                    // upvars: last generic arg is the tupled upvar types
                    let mut up = vec![];
                    if let Some(GenericArgKind::Type(tt)) = g.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = tt.kind() {
                            for t in ts {
                                up.push(self.ty(t).to_string());
                            }
                        }
                    }
                    format!("\"k\":\"closure\",\"def\":{},\"fs\":{}", q(&d.name().to_string()), arr(up))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Adt(d, g) => {
                    let ga = self.gargs(&g);
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for v in d.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| format!("[{},{}]", q(&f.name.to_string()), self.ty(f.ty_with_args(&g))))
                            .collect();
                        let discr = if d.kind() == AdtKind::Enum {
                            format!("{}", d.discriminant_for_variant(v.idx()).val)
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"fs\":{}}}", q(&v.name().to_string()), discr, arr(fs)));
                    }
                    format!(
                        "\"k\":\"{}\",\"def\":{},\"ga\":{},\"vs\":{},\"box\":{}",
                        kind,
                        q(&d.name().to_string()),
                        ga,
                        arr(vs),
                        d.is_box()
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        let lay = if k.starts_with("\"k\":\"enum\"") { format!(",\"lay\":{}", self.enum_layout(t)) } else { String::new() };
        format!("{{\"name\":{},{},\"sz\":{},\"off\":{}{}}}", q(&name), k, size, offs, lay)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", rustc_public_bridge::IndexedVal::to_index(v)),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.alloc(a);
                format!("{{\"t\":{},{}}}", t, a)
            }
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = self.alloc(a);
                    format!("{{\"t\":{},{}}}", t, a)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"t\":{},\"z\":1}}", t),
                _ => format!("{{\"t\":{},\"u\":1}}", t),
            },
            _ => format!("{{\"t\":{},\"u\":1}}", t),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", q(&format!("{:?}", r))),
        }
    }
    fn loc(&self, s: Span) -> String {
        let sp = rustc_internal::internal(self.tcx, s);
        let sp = sp.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", p.file.name.prefer_local_unconditionally());
        let f = match f.find("/repo/") {
            Some(i) => f[i + 6..].to_string(),
            None => f,
        };
        format!("{}:{}", f, p.line)
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let oo = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), oo, t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, g, _, f) => {
                        let t = self.ty(d.ty_with_args(g));
                        format!("[\"adt\",{},{},{}]", t, rustc_public_bridge::IndexedVal::to_index(v), f.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, g) => {
                        let t = self.ty(Ty::new_closure(*d, g.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, arr(ops))
            }
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("\"{}\":{}", l, q(&v.name.to_string())));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        self.unsize(b, r);
                        let l = self.loc(s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), q(&l)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "[\"sd\",{},{}]",
                        self.place(place),
                        rustc_public_bridge::IndexedVal::to_index(variant_index)
                    )),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(format!("[\"assume\",{}]", self.operand(o)))
                    }
                    StatementKind::Intrinsic(_) => ss.push("[\"copynonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let l = q(&self.loc(bb.terminator.source_info.span));
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let mut callee = "null".to_string();
                    let mut direct = false;
                    if let Ok(t) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = t.kind() {
                            if let Ok(i) = Instance::resolve(d, &g) {
                                callee = self.func(i).to_string();
                                direct = true;
                            }
                        }
                    }
                    let fo = if direct { "null".into() } else { self.operand(func) };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        callee,
                        fo,
                        arr(a),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        target,
                        q(msg.description().unwrap_or("?"))
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(ss), t, l));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{{{}}},\"spread\":{},\"blocks\":{}",
            b.arg_locals().len(),
            arr(locals),
            names.join(","),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(blocks)
        )
    }
    /// records the vtable methods for every coercion of a concrete pointee to a trait object
    fn unsize(&mut self, b: &Body, r: &Rvalue) {
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), o, t) = r {
            let Ok(st) = o.ty(b.locals()) else { return };
            let tcx = self.tcx;
            let src = rustc_internal::internal(tcx, st);
            let dst = rustc_internal::internal(tcx, *t);
            let (Some(s), Some(d)) = (pointee(src), pointee(dst)) else { return };
            let env = rty::TypingEnv::fully_monomorphized();
            let (s, d) = tcx.struct_lockstep_tails_for_codegen(s, d, env);
            if let rty::Dynamic(preds, ..) = d.kind() {
                if matches!(s.kind(), rty::Dynamic(..)) {
                    return;
                }
                let Some(principal) = preds.principal() else { return };
                let st = rustc_internal::stable(s);
                let si = self.ty(st);
                let pname = format!("{}", rustc_internal::stable(d));
                if self.vtables.contains_key(&(si, pname.clone())) {
                    return;
                }
                if !self.traced(&pname) {
                    return;
                }
                let tr = tcx.instantiate_bound_regions_with_erased(principal);
                let tr = rty::ExistentialTraitRef::with_self_ty(tr, tcx, s);
                let tr = tcx.erase_and_anonymize_regions(tr);
                let mut v = vec![];
                for e in tcx.vtable_entries(tr) {
                    v.push(match e {
                        rty::VtblEntry::Method(i) => {
                            let i = rustc_internal::stable(*i);
                            self.func(i).to_string()
                        }
                        _ => "null".into(),
                    });
                }
                self.vtables.insert((si, pname), arr(v));
            }
        }
    }
    fn traced(&self, name: &str) -> bool {
        !self.stop.iter().any(|p| name.contains(p.as_str()))
    }
    fn emit_fn(&mut self, i: Instance) -> String {
        let ii = rustc_internal::internal(self.tcx, i);
        let def = ii.def_id();
        let path = self.tcx.def_path_str(def);
        let krate = self.tcx.crate_name(def.krate).to_string();
        let name = i.name().to_string();
        let ga = self.gargs(&i.args());
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "llvm".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".to_string(),
        };
        let shim = match ii.def {
            rty::InstanceKind::Item(_) => "",
            rty::InstanceKind::Shim(rty::ShimKind::DropGlue(..)) => "drop",
            rty::InstanceKind::Shim(rty::ShimKind::Clone(..)) => "clone",
            rty::InstanceKind::Shim(rty::ShimKind::FnPtr(..)) => "fnptr",
            rty::InstanceKind::Shim(rty::ShimKind::ClosureOnce { .. }) => "closureonce",
            rty::InstanceKind::Shim(rty::ShimKind::Reify(..)) => "reify",
            rty::InstanceKind::Shim(rty::ShimKind::VTable(..)) => "vtable",
            _ => "other",
        };
        // the trait method implemented, if any: lets models match on the trait item
        let mut tm = "null".to_string();
        if let Some(t) = self.tcx.trait_item_of(def) {
            tm = q(&self.tcx.def_path_str(t));
        }
        let impl_self = match self.tcx.impl_of_assoc(def) {
            Some(im) => {
                let st = self.tcx.type_of(im).instantiate(self.tcx, ii.args.get(..self.tcx.generics_of(im).count()).map(|a| self.tcx.mk_args(a)).unwrap_or(rty::List::empty()));
                let st = self.tcx.normalize_erasing_regions(rty::TypingEnv::fully_monomorphized(), st);
                self.ty(rustc_internal::stable(st)).to_string()
            }
            None => "null".into(),
        };
        let span = self.loc(i.def_span());
        let mut s = format!(
            "{{\"name\":{},\"def\":{},\"krate\":{},\"kind\":\"{}\",\"shim\":\"{}\",\"ga\":{},\"tm\":{},\"iself\":{},\"l\":{}",
            q(&name), q(&path), q(&krate), kind, shim, ga, tm, impl_self, q(&span)
        );
        let descend = shim != "drop" && !kind.starts_with("virtual") && self.traced(&name) && self.traced(&path);
        if descend && i.has_body() {
            if let Some(b) = i.body() {
                let b = self.body(&b);
                let _ = write!(s, ",{}", b);
            }
        }
        s.push('}');
        s
    }
}

trait DefSpan {
    fn def_span(&self) -> Span;
}
impl DefSpan for Instance {
    fn def_span(&self) -> Span {
        rustc_public::CrateItem::try_from(*self).map(|c| c.span()).unwrap_or_else(|_| {
            // shims etc.; a call through a vtable has no body to ask for
            (!matches!(self.kind, InstanceKind::Virtual { .. })).then(|| self.body()).flatten().map(|b| b.span).unwrap_or_else(|| rustc_public::all_local_items()[0].span())
        })
    }
}

fn pointee<'tcx>(t: rty::Ty<'tcx>) -> Option<rty::Ty<'tcx>> {
    match t.kind() {
        rty::Ref(_, t, _) => Some(*t),
        rty::RawPtr(t, _) => Some(*t),
        rty::Adt(d, a) if d.is_box() => Some(a.type_at(0)),
        _ => None,
    }
}

fn dump(tcx: TyCtxt<'_>, krate: &str) {
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let stop = stop.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = Dump {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        fns: HashMap::new(),
        fn_out: vec![],
        fn_queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_out: vec![],
        alloc_queue: VecDeque::new(),
        stop,
        vtables: HashMap::new(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() == rustc_public::ItemKind::Fn && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                roots.push(d.func(i).to_string());
            }
        }
    }
    loop {
        if let Some(i) = d.fn_queue.pop_front() {
            let s = d.emit_fn(i);
            let n = d.fns[&i];
            d.fn_out[n] = Some(s);
        } else if let Some(t) = d.ty_queue.pop_front() {
            let s = d.emit_ty(t);
            let n = d.tys[&t];
            d.ty_out[n] = Some(s);
        } else if let Some(a) = d.alloc_queue.pop_front() {
            let s = match GlobalAlloc::from(a) {
                GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"f\":{}}}", d.func(i)),
                GlobalAlloc::Static(s) => match s.eval_initializer() {
                    Ok(a) => {
                        let n = q(&s.name().to_string());
                        let a = d.alloc(&a);
                        format!("{{\"k\":\"mem\",\"static\":{},{}}}", n, a)
                    }
                    Err(_) => "{\"k\":\"static\"}".into(),
                },
                GlobalAlloc::Memory(a) => {
                    let a = d.alloc(&a);
                    format!("{{\"k\":\"mem\",{}}}", a)
                }
                _ => "{\"k\":\"other\"}".into(),
            };
            let n = d.allocs[&a];
            d.alloc_out[n] = Some(s);
        } else {
            break;
        }
    }
    let un = |v: Vec<Option<String>>| -> String {
        let v: Vec<String> = v.into_iter().map(|x| x.unwrap_or("null".into())).collect();
        format!("[\n{}\n]", v.join(",\n"))
    };
    let vt: Vec<String> = d.vtables.iter().map(|((t, n), v)| format!("[{},{},{}]", t, q(n), v)).collect();
    let out = format!(
        "{{\"crate\":{},\"roots\":{},\"vtables\":{},\"tys\":{},\"allocs\":{},\"fns\":{}}}",
        q(krate),
        arr(roots),
        arr(vt),
        un(d.ty_out),
        un(d.alloc_out),
        un(d.fn_out)
    );
    let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let path = format!("{}/{}.json", dir, krate);
    std::fs::write(format!("{}.tmp", path), out).expect("write dump");
    std::fs::rename(format!("{}.tmp", path), path).expect("rename dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as wrapper: argv[1] is the real rustc
    let mut real = "rustc".to_string();
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = args.remove(1);
    }
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let mut name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = Some(w[1].clone());
        }
    }
    let probe = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    match name {
        Some(n) if !probe && crates.split(',').any(|c| c == n) => {
            args.push("-Zmir-opt-level=0".into());
            let nn = n.clone();
            let r = run_with_tcx!(&args, |tcx: TyCtxt<'_>| -> ControlFlow<(), ()> {
                dump(tcx, &nn);
                ControlFlow::Continue(())
            });
            if r.is_err() {
                std::process::exit(1);
            }
        }
        _ => {
            // plain compilation: hand over to the compiler itself
            let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
            std::process::exit(st.code().unwrap_or(1));
        }
    }
}
