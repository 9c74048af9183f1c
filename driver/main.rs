// MIR fact extractor: a rustc driver that runs the ordinary compiler front end
// on the crate it is given and writes its (drop-elaborated, unoptimised) MIR as
// JSON: every local body, closures, promoteds, and the std combinators those
// bodies call, instantiated and with every callee resolved by the compiler.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<(Ty<'tcx>, usize), usize>,
    adts: HashMap<DefId, String>,
    adt_order: Vec<DefId>,
    insts: HashMap<(Instance<'tcx>, usize), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    envs: Vec<DefId>,
    out: Vec<String>,
}

fn allow_std(path: &str) -> bool {
    // std/core/alloc functions whose own MIR is interpreted rather than modelled
    const OK: &[&str] = &[
        "std::option::Option::", "core::option::Option::",
        "std::result::Result::", "core::result::Result::",
        "<std::option::Option<", "<std::result::Result<",
        "<core::option::Option<", "<core::result::Result<",
    ];
    const DENY: &[&str] = &["::iter", "::hash", "::fmt", "IntoIterator", "FromIterator", "Debug", "::Sum", "Product",
        "Clone>", "Hash", "::copied", "::cloned", "expect", "::unwrap", "PartialEq", "PartialOrd", "Ord>", "get_or_insert",
        "::insert", "as_deref", "as_slice"];
    OK.iter().any(|p| path.starts_with(p)) && (!DENY.iter().any(|d| path.contains(d)) || path.contains("::unwrap_or"))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn env_ix(&mut self, root: DefId) -> usize {
        if let Some(i) = self.envs.iter().position(|d| *d == root) {
            return i;
        }
        self.envs.push(root);
        self.envs.len() - 1
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        self.adt_order.push(d);
        let a = self.tcx.adt_def(d);
        let mut s = String::new();
        let kind = if a.is_struct() { "struct" } else if a.is_enum() { "enum" } else { "union" };
        let _ = write!(s, "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"variants\":[", js(&self.path(d)), kind, d.is_local());
        let mut first = true;
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if a.is_enum() {
            a.discriminants(self.tcx).map(|(v, d)| (v, d.val)).collect()
        } else { vec![] };
        for (vi, v) in a.variants().iter_enumerated() {
            if !first { s.push(','); }
            first = false;
            let dv = discrs.iter().find(|(x, _)| *x == vi).map(|x| x.1).unwrap_or(0);
            let _ = write!(s, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", js(v.name.as_str()), dv);
            let mut ff = true;
            for f in v.fields.iter() {
                if !ff { s.push(','); }
                ff = false;
                let fty = self.tcx.type_of(f.did).instantiate_identity();
                let _ = write!(s, "[{},{}]", js(f.name.as_str()), js(&with_no_trimmed_paths!(format!("{}", fty.skip_norm_wip()))));
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        self.adts.insert(d, s);
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> usize {
        if let Some(i) = self.tymap.get(&(t, eix)) {
            return *i;
        }
        let ix = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert((t, eix), ix);
        let st = js(&with_no_trimmed_paths!(format!("{}", t)));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"w\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(i) => format!("\"k\":\"float\",\"w\":{}", i.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(d, args) => {
                self.adt(d.did());
                let mut v = vec![];
                for a in args.iter() {
                    if let Some(x) = a.as_type() {
                        v.push(self.ty(x, env, eix).to_string());
                    }
                }
                format!("\"k\":\"adt\",\"path\":{},\"args\":[{}]", js(&self.path(d.did())), v.join(","))
            }
            ty::Ref(_, x, m) => {
                let i = self.ty(*x, env, eix);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::RawPtr(x, m) => {
                let i = self.ty(*x, env, eix);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::Slice(x) => {
                let i = self.ty(*x, env, eix);
                format!("\"k\":\"slice\",\"to\":{}", i)
            }
            ty::Array(x, n) => {
                let i = self.ty(*x, env, eix);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"to\":{},\"n\":{}", i, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env, eix).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", v.join(","))
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let ii = self.enqueue(inst, env, eix);
                format!("\"k\":\"closure\",\"def\":{},\"inst\":{}", js(&self.path(*d)), ii)
            }
            ty::FnDef(d, args) => {
                let f = self.fnref(*d, args.skip_binder(), env, eix);
                format!("\"k\":\"fndef\",\"fn\":{}", f)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", js(&p))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tys[ix] = format!("{{{},\"s\":{}}}", body, st);
        ix
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        let did = inst.def_id();
        if !matches!(inst.def, InstanceKind::Item(_)) {
            return "null".into();
        }
        if !self.tcx.is_mir_available(did) {
            return "null".into();
        }
        if !did.is_local() {
            let p = with_no_trimmed_paths!(self.tcx.def_path_str(did));
            let krate = self.tcx.crate_name(did.krate);
            let std = matches!(krate.as_str(), "core" | "alloc" | "std");
            let is_closure = self.tcx.def_kind(did) == DefKind::Closure;
            if !std && !(krate.as_str() == "monolith") {
                return "null".into();
            }
            if std && !is_closure && !allow_std(&p) {
                return "null".into();
            }
        }
        use rustc_middle::ty::TypeVisitableExt;
        let e = if inst.args.has_param() { eix } else { usize::MAX };
        if let Some(i) = self.insts.get(&(inst, e)) {
            return i.to_string();
        }
        let id = self.out.len();
        self.out.push(String::new());
        self.insts.insert((inst, e), id);
        self.queue.push_back((id, inst, env, eix));
        id.to_string()
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let trait_ = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(x) = a.as_type() {
                targs.push(self.ty(x, env, eix).to_string());
            }
        }
        let mut ikind = "unresolved";
        let mut ipath = String::new();
        let mut inst_id = "null".to_string();
        let mut ilocal = d.is_local();
        let mut iself = String::new();
        let mut itrait = String::new();
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let mut ctor = "null".to_string();
        if is_ctor {
            ikind = "ctor";
            let p = tcx.parent(d);
            let (adt, vix) = if tcx.def_kind(p) == DefKind::Variant {
                let adt = tcx.adt_def(tcx.parent(p));
                (adt, adt.variant_index_with_id(p).as_usize())
            } else {
                (tcx.adt_def(p), 0)
            };
            self.adt(adt.did());
            ctor = format!("[{},{}]", js(&self.path(adt.did())), vix);
        } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let id = inst.def_id();
            ilocal = id.is_local();
            ipath = self.path(id);
            match inst.def {
                InstanceKind::Item(_) => ikind = "item",
                InstanceKind::Virtual(..) => ikind = "virtual",
                InstanceKind::Intrinsic(_) => ikind = "intrinsic",
                InstanceKind::LlvmIntrinsic(_) => ikind = "intrinsic",
                InstanceKind::Shim(_) => ikind = "shim",
            }
            if let Some(imp) = tcx.impl_of_assoc(id) {
                iself = with_no_trimmed_paths!(format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
                if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                    itrait = self.path(tr);
                }
            }
            if ikind == "item" {
                inst_id = self.enqueue(inst, env, eix);
            }
        }
        let krate = tcx.crate_name(d.krate).to_string();
        format!(
            "{{\"path\":{},\"crate\":{},\"name\":{},\"trait\":{},\"args\":[{}],\"ikind\":\"{}\",\"ipath\":{},\"iself\":{},\"itrait\":{},\"local\":{},\"inst\":{},\"ctor\":{}}}",
            js(&path), js(&krate), js(&name), trait_.map(|t| js(&t)).unwrap_or("null".into()), targs.join(","), ikind,
            js(&ipath), js(&iself), js(&itrait), ilocal, inst_id, ctor
        )
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, _env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => "{\"zst\":1}".into(),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                format!("{{\"i\":\"{}\"}}", bits)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", js(&self.path(d))),
                    GlobalAlloc::Memory(a) => {
                        // pointer to constant memory: dump bytes
                        let al = a.inner();
                        let n = al.len();
                        let o = off.bytes() as usize;
                        if al.provenance().ptrs().is_empty() && n >= o {
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o..n);
                            format!("{{\"pbytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
                        } else {
                            "{\"opaque\":\"ptr\"}".into()
                        }
                    }
                    GlobalAlloc::Function { instance } => format!("{{\"fnptr\":{}}}", js(&self.path(instance.def_id()))),
                    _ => "{\"opaque\":\"ptr\"}".into(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    if let ty::Ref(_, x, _) = t.kind() {
                        if x.is_str() {
                            if let Ok(s) = std::str::from_utf8(b) {
                                return format!("{{\"str\":{}}}", js(s));
                            }
                        }
                    }
                    format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
                } else {
                    "{\"opaque\":\"slice\"}".into()
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let al = a.inner();
                    if al.provenance().ptrs().is_empty() {
                        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..al.len());
                        return format!("{{\"raw\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    }
                    // &str stored in memory (fat pointer)
                    if let ty::Ref(_, x, _) = t.kind() {
                        if x.is_str() {
                            let o = offset.bytes() as usize;
                            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                            let len = b[8..16].iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64) as usize;
                            if let Some((_, prov)) = al.provenance().ptrs().iter().next() {
                                if let GlobalAlloc::Memory(sa) = tcx.global_alloc(prov.alloc_id()) {
                                    let sb = sa.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                    if let Ok(s) = std::str::from_utf8(sb) {
                                        return format!("{{\"str\":{}}}", js(s));
                                    }
                                }
                            }
                        }
                    }
                }
                "{\"opaque\":\"indirect\"}".into()
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.skip_binder(), env, eix);
            return format!("{{\"fn\":{}}}", f);
        }
        let tix = self.ty(t, env, eix);
        let mut extra = String::new();
        let v = match c.const_ {
            Const::Val(v, _) => self.constval(v, t, env),
            Const::Unevaluated(u, _) => {
                let upath = self.path(u.def);
                if let Some(p) = u.promoted {
                    return format!("{{\"ty\":{},\"promoted\":{},\"of\":{}}}", tix, p.as_usize(), js(&upath));
                }
                extra = format!(",\"name\":{}", js(&upath));
                match c.const_.eval(self.tcx, env, c.span) {
                    Ok(v) => self.constval(v, t, env),
                    Err(_) => "{\"opaque\":\"uneval\"}".into(),
                }
            }
            Const::Ty(_, _) => match c.const_.try_eval_scalar(self.tcx, env) {
                Some(Scalar::Int(i)) => format!("{{\"i\":\"{}\"}}", i.to_bits(i.size())),
                _ => match c.const_.eval(self.tcx, env, c.span) {
                    Ok(v) => self.constval(v, t, env),
                    Err(_) => "{\"opaque\":\"tyconst\"}".into(),
                },
            },
        };
        format!("{{\"ty\":{},\"v\":{}{}}}", tix, v, extra)
    }
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t, env, eix);
                    format!("[\"f\",{},{}]", f.as_usize(), ti)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, env, eix)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, env, eix)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(c, env, eix)),
            _ => "{\"rt\":1}".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, eix)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, env, eix), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, env, eix), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, env, eix)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t, env, eix);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o, env, eix), ti)
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0, env, eix), self.operand(&b.1, env, eix)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, env, eix)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, env, eix)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env, eix)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adt(*d);
                        format!("[\"adt\",{},{},{}]", js(&self.path(*d)), vi.as_usize(), active.map(|x| x.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let i = self.enqueue(inst, env, eix);
                        format!("[\"closure\",{},{}]", js(&self.path(*d)), i)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, env, eix)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, eix: usize) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty, env, eix).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p, env, eix);
                names.push(format!("[{},{}]", js(v.name.as_str()), pl));
            }
        }
        let _ = write!(s, "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[", b.arg_count,
            b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1), locals.join(","), names.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { s.push(','); }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let line = self.line(st.source_info.span).1;
                let e = match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        // record cast source type
                        if let Rvalue::Cast(k, o, t) = r {
                            let ti = self.ty(*t, env, eix);
                            let st = o.ty(&b.local_decls, self.tcx);
                            let si = self.ty(st, env, eix);
                            let kk = js(&format!("{:?}", k));
                            Some(format!("[{},[\"cast\",{},{},{},{}],{}]", self.place(p, env, eix), kk, self.operand(o, env, eix), ti, si, line))
                        } else if let Rvalue::BinaryOp(op, bx) = r {
                            let t0 = bx.0.ty(&b.local_decls, self.tcx);
                            let ti = self.ty(t0, env, eix);
                            Some(format!("[{},[\"bin\",\"{:?}\",{},{},{}],{}]", self.place(p, env, eix), op,
                                self.operand(&bx.0, env, eix), self.operand(&bx.1, env, eix), ti, line))
                        } else if let Rvalue::UnaryOp(op, o) = r {
                            let t0 = o.ty(&b.local_decls, self.tcx);
                            let ti = self.ty(t0, env, eix);
                            Some(format!("[{},[\"un\",\"{:?}\",{},{}],{}]", self.place(p, env, eix), op, self.operand(o, env, eix), ti, line))
                        } else {
                            Some(format!("[{},{},{}]", self.place(p, env, eix), self.rvalue(r, env, eix), line))
                        }
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[{},[\"setdiscr\",{}],{}]", self.place(place, env, eix), variant_index.as_usize(), line))
                    }
                    _ => None,
                };
                if let Some(e) = e {
                    if !first { s.push(','); }
                    first = false;
                    s.push_str(&e);
                }
            }
            s.push_str("],\"t\":");
            let t = bb.terminator();
            let line = self.line(t.source_info.span).1;
            let e = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let ti = self.ty(dt, env, eix);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr, env, eix), v.join(","), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let ti = self.ty(pt, env, eix);
                    format!("[\"drop\",{},{},{}]", self.place(place, env, eix), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node, env, eix)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); self.ty(t, env, eix).to_string() }).collect();
                    let rt = destination.ty(&b.local_decls, self.tcx).ty;
                    let rti = self.ty(rt, env, eix);
                    let mac = t.source_info.span.ctxt().outer_expn_data().macro_def_id.map(|d| self.path(d)).unwrap_or_default();
                    format!("[\"call\",{},[{}],{},{},[{}],{},{}]", self.operand(func, env, eix), v.join(","),
                        self.place(destination, env, eix), target.map(|t| t.as_usize() as i64).unwrap_or(-1), at.join(","), rti, js(&mac))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow_{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow_neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(cond, env, eix), expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
            };
            let _ = write!(s, "{},\"l\":{},\"u\":{}}}", e, line, bb.is_cleanup);
        }
        s.push(']');
        s
    }
    fn run_inst(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>, eix: usize) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let body: &Body<'tcx> = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => tcx.optimized_mir(did),
            _ => tcx.mir_for_ctfe(did),
        };
        let mono: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => body.clone(),
        };
        let bs = self.body(&mono, env, eix);
        let mut proms = vec![];
        for p in tcx.promoted_mir(did).iter() {
            let pm = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, p.clone())) {
                Ok(b) => b,
                Err(_) => p.clone(),
            };
            let x = self.body(&pm, env, eix);
            proms.push(format!("{{{}}}", x));
        }
        let (file, line) = self.line(tcx.def_span(did));
        let base = tcx.typeck_root_def_id(did);
        let mut iself = String::new();
        let mut itrait = String::new();
        if let Some(imp) = tcx.impl_of_assoc(base) {
            iself = with_no_trimmed_paths!(format!("{}", tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                itrait = self.path(tr);
            }
        }
        let dtrait = tcx.trait_of_assoc(base).map(|t| self.path(t)).unwrap_or_default();
        let name = tcx.opt_item_name(base).map(|s| s.to_string()).unwrap_or_default();
        let args: Vec<String> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| js(&with_no_trimmed_paths!(format!("{}", t)))).collect();
        let identity = did.is_local() && inst.args == ty::GenericArgs::identity_for_item(tcx, did);
        let krate = tcx.crate_name(did.krate).to_string();
        let s = format!(
            "{{\"id\":{},\"path\":{},\"name\":{},\"crate\":{},\"local\":{},\"closure\":{},\"iself\":{},\"itrait\":{},\"dtrait\":{},\"gargs\":[{}],\"identity\":{},\"file\":{},\"line\":{},\"kind\":{},\"vis\":{},{},\"promoted\":[{}]}}",
            id, js(&self.path(did)), js(&name), js(&krate), did.is_local(), tcx.def_kind(did) == DefKind::Closure, js(&iself), js(&itrait), js(&dtrait),
            args.join(","), identity, js(&file), line, js(&format!("{:?}", tcx.def_kind(did))),
            js(&if tcx.def_kind(did) == DefKind::Closure { "closure".to_string() } else { format!("{:?}", tcx.visibility(did).is_public()) }), bs, proms.join(",")
        );
        self.out[id] = s;
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), adts: HashMap::new(), adt_order: vec![], insts: HashMap::new(),
            queue: VecDeque::new(), envs: vec![], out: vec![] };
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        let mut nroots = 0;
        for k in keys {
            let did = k.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            nroots += 1;
            let env = TypingEnv::post_analysis(tcx, did);
            let eix = cx.env_ix(did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            cx.enqueue(inst, env, eix);
            while let Some((id, inst, env, eix)) = cx.queue.pop_front() {
                cx.run_inst(id, inst, env, eix);
            }
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"roots\":{},\"tys\":[\n{}\n],\"adts\":[\n{}\n],\"insts\":[\n{}\n]}}",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), nroots,
            cx.tys.join(",\n"),
            cx.adt_order.iter().map(|d| cx.adts[d].clone()).collect::<Vec<_>>().join(",\n"),
            cx.out.join(",\n"));
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        std::fs::write(format!("{}/{}.json", self.out, name), s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: args[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    if out.is_empty() || is_build_script || !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a.starts_with("--print")) {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
