// MIR fact extractor for the ntex-amqp static checks.
//
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`: behaves like rustc, and for every
// workspace library crate additionally writes the type-checked program (built MIR, resolved
// callees, ADT tables) as JSON to $VP_FACTS_DIR/<crate>.json.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstValue, Operand, Place, PlaceTy, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Dump;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    adts: BTreeMap<String, DefId>,
    adts_done: BTreeSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn fix(&self, s: String) -> String {
        s.replace("crate::", &format!("{}::", self.krate))
    }
    fn path(&self, d: DefId) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(
            self.tcx.def_path_str(d)
        )));
        self.fix(s)
    }
    fn did(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:x}", h.0.to_smaller_hash())
            + &format!("{:x}", h.local_hash().as_u64() & 0xffff)
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(format!("{t}"))));
        self.fix(s)
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(a, _) = t.kind() {
                    let p = self.path(a.did());
                    self.adts.entry(p).or_insert(a.did());
                }
            }
        }
    }
    /// type as json: string and, peeled of references/boxes, the ADT or closure at the head
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_ty(t);
        let mut p = t;
        let mut refs = 0;
        loop {
            match p.kind() {
                ty::Ref(_, i, _) => {
                    p = *i;
                    refs += 1;
                }
                ty::RawPtr(i, _) => {
                    p = *i;
                    refs += 1;
                }
                _ => break,
            }
        }
        let (k, h) = match p.kind() {
            ty::Adt(a, _) => ("adt", self.path(a.did())),
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                ("clo", self.did(*d))
            }
            ty::FnDef(d, _) => ("fndef", self.path(*d)),
            ty::Tuple(_) => ("tuple", String::new()),
            ty::Param(_) => ("param", String::new()),
            ty::Dynamic(..) => ("dyn", String::new()),
            ty::Slice(_) => ("slice", String::new()),
            ty::Array(..) => ("array", String::new()),
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char | ty::Str => {
                ("prim", String::new())
            }
            ty::Alias(..) => ("alias", String::new()),
            _ => ("other", String::new()),
        };
        format!(
            "{{\"s\":{},\"k\":\"{}\",\"h\":{},\"r\":{}}}",
            esc(&self.tystr(t)),
            k,
            esc(&h),
            refs
        )
    }
    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }
    fn macros(&self, sp: Span) -> Vec<String> {
        let mut v = Vec::new();
        for e in sp.macro_backtrace() {
            v.push(format!("{}", e.kind.descr()));
        }
        v
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (adt, var, name) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = a.variant(v);
                            self.note_ty(pt.ty);
                            (
                                self.path(a.did()),
                                if a.is_enum() { vd.name.to_string() } else { String::new() },
                                vd.fields[f].name.to_string(),
                            )
                        }
                        ty::Tuple(_) => ("()".into(), String::new(), format!("{}", f.as_u32())),
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            (format!("clo:{}", self.did(*d)), String::new(), format!("{}", f.as_u32()))
                        }
                        _ => ("?".into(), String::new(), format!("{}", f.as_u32())),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", esc(&adt), esc(&var), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => n.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, "[\"d\",{}]", esc(&name));
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return format!("{{\"fn\":{}}}", self.callee(env, *d, args.skip_binder()));
        }
        let mut o = format!("{{\"ty\":{}", self.ty(t));
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(o, ",\"path\":{}", esc(&self.path(u.def)));
            if u.promoted.is_some() {
                o.push_str(",\"promoted\":true");
            }
        }
        let generic = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_non_region_param()
        };
        if !generic {
            if let Ok(v) = c.eval(tcx, env, sp) {
                match v {
                    ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let mut done = false;
                        if let ty::Int(_) = t.kind() {
                            let _ = write!(o, ",\"v\":{}", i.to_int(i.size()));
                            done = true;
                        }
                        if !done {
                            let _ = write!(o, ",\"v\":{}", bits);
                        }
                    }
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) => {
                        // b"..." literals
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, n) = inner.kind() {
                                if let (ty::Uint(ty::UintTy::U8), Some(n)) = (e.kind(), n.try_to_target_usize(tcx)) {
                                    let (prov, off) = ptr.into_raw_parts();
                                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                        let st = off.bytes() as usize;
                                        let en = st + n as usize;
                                        if en <= a.inner().len() {
                                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..en);
                                            let v: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                                            let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    ConstValue::Slice { .. } => {
                        if let ty::Ref(_, i, _) = t.kind() {
                            if matches!(i.kind(), ty::Str) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                                }
                            } else if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let v: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                                let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Const::Ty(_, c) = c {
            let _ = write!(o, ",\"tyconst\":{}", esc(&format!("{c}")));
        }
        o.push('}');
        o
    }

    fn callee(
        &mut self,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let mut o = format!("{{\"id\":{},\"path\":{}", esc(&self.did(d)), esc(&path));
        let mut a = Vec::new();
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                a.push(self.ty(t));
            }
        }
        let _ = write!(o, ",\"targs\":[{}]", a.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, eargs) {
                let rd = i.def_id();
                let kind = format!("{:?}", i.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let _ = write!(
                    o,
                    ",\"rid\":{},\"rpath\":{},\"rkind\":{}",
                    esc(&self.did(rd)),
                    esc(&self.path(rd)),
                    esc(&kind)
                );
                let mut a = Vec::new();
                for g in i.args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(self.ty(t));
                    }
                }
                let _ = write!(o, ",\"rtargs\":[{}]", a.join(","));
            }
        } else {
            let _ = write!(o, ",\"ctor\":{}", esc(&format!("{:?}", tcx.def_kind(d))));
            if let DefKind::Ctor(..) = tcx.def_kind(d) {
                let v = tcx.parent(d);
                let (adt, var) = match tcx.def_kind(v) {
                    DefKind::Variant => {
                        let e = tcx.parent(v);
                        (self.path(e), tcx.item_name(v).to_string())
                    }
                    _ => (self.path(v), String::new()),
                };
                let _ = write!(o, ",\"cadt\":{},\"cvar\":{}", esc(&adt), esc(&var));
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(b, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(env, &c.const_, c.span)),
            _ => "{\"u\":1}".into(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, b, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(env, b, o),
                esc(&format!("{n}"))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(b, p),
                matches!(k, mir::BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(b, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(b, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{k:?}")),
                self.operand(env, b, o),
                {
                    let f = o.ty(b, self.tcx);
                    self.ty(f)
                },
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, x) => format!(
                "[\"bin\",\"{:?}\",{},{},{}]",
                op,
                self.operand(env, b, &x.0),
                self.operand(env, b, &x.1),
                {
                    let f = x.0.ty(b, self.tcx);
                    self.ty(f)
                }
            ),
            Rvalue::UnaryOp(op, x) => {
                format!("[\"un\",\"{:?}\",{}]", op, self.operand(env, b, x))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(b, p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut names: Vec<String> = Vec::new();
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"array\",\"\",\"\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\",\"()\",\"\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adts.entry(p.clone()).or_insert(*d);
                        let vd = a.variant(*v);
                        if let Some(f) = active {
                            names.push(vd.fields[*f].name.to_string());
                        } else {
                            for f in vd.fields.iter() {
                                names.push(f.name.to_string());
                            }
                        }
                        format!(
                            "\"adt\",{},{}",
                            esc(&p),
                            esc(&if a.is_enum() { vd.name.to_string() } else { String::new() })
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        format!("\"clo\",{},{}", esc(&self.did(*d)), esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "\"rawptr\",\"\",\"\"".to_string(),
                };
                let mut o = format!("[\"agg\",{kind},[");
                for (i, x) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let n = names.get(i).cloned().unwrap_or_else(|| format!("{i}"));
                    let _ = write!(o, "[{},{}]", esc(&n), self.operand(env, b, x));
                }
                o.push_str("]]");
                o
            }
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}").chars().take(60).collect::<String>())),
        }
    }

    fn body(&mut self, ld: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
        let mut o = String::new();
        let (file, line) = self.line(b.span);
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"argc\":{}",
            esc(&self.did(d)),
            esc(&self.path(d)),
            esc(&format!("{:?}", tcx.def_kind(d))),
            esc(&file),
            line,
            b.arg_count
        );
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            let _ = write!(o, ",\"eff_pub\":{}", tcx.effective_visibilities(()).is_reachable(ld));
            let _ = write!(o, ",\"isasync\":{}", tcx.asyncness(d).is_async());
        }
        if let Some(p) = tcx.opt_parent(d) {
            let _ = write!(o, ",\"parent\":{}", esc(&self.did(p)));
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.skip_binder();
                    let _ = write!(o, ",\"impl_trait\":{}", esc(&self.path(tr.def_id)));
                }
                let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(p));
                if tcx.def_kind(d) == DefKind::AssocFn {
                    let _ = write!(o, ",\"name\":{}", esc(&tcx.item_name(d).to_string()));
                }
            } else if let DefKind::Trait = tcx.def_kind(p) {
                let _ = write!(o, ",\"in_trait\":{}", esc(&self.path(p)));
            }
        }
        if matches!(
            dk,
            DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::Const { .. }
        ) {
            let _ = write!(o, ",\"name\":{}", esc(&tcx.item_name(d).to_string()));
        }
        if b.coroutine.is_some() {
            o.push_str(",\"coroutine\":true");
        }
        // captured variables
        if matches!(dk, DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let ups: Vec<String> = tcx
                .closure_captures(ld)
                .iter()
                .map(|c| {
                    format!(
                        "[{},{}]",
                        esc(&c.to_string(tcx)),
                        esc(&format!("{:?}", c.info.capture_kind).chars().take(12).collect::<String>())
                    )
                })
                .collect();
            let _ = write!(o, ",\"upvars\":[{}]", ups.join(","));
        }
        // locals
        o.push_str(",\"locals\":[");
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&self.ty(l.ty));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_u32(), esc(&v.name.to_string()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let (_, line) = self.line(s.source_info.span);
                let t = match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(b, &x.0);
                        let r = self.rvalue(env, b, &x.1);
                        format!("[\"=\",{p},{r},{line}]")
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pt = place.ty(b, tcx).ty;
                        let n = match pt.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        format!("[\"setd\",{},{},{line}]", self.place(b, place), esc(&n))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            if let Some(t) = &bb.terminator {
                let (_, line) = self.line(t.source_info.span);
                let s = match &t.kind {
                    TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(b, tcx);
                        let v: Vec<String> = targets
                            .iter()
                            .map(|(v, t)| format!("[{},{}]", v, t.as_u32()))
                            .collect();
                        format!(
                            "[\"switch\",{},{},[{}],{},{line}]",
                            self.operand(env, b, discr),
                            self.ty(dt),
                            v.join(","),
                            targets.otherwise().as_u32()
                        )
                    }
                    TerminatorKind::Return => "[\"ret\"]".to_string(),
                    TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                        "[\"unwind\"]".to_string()
                    }
                    TerminatorKind::Drop { place, target, replace, .. } => {
                        let pt = place.ty(b, tcx).ty;
                        format!(
                            "[\"drop\",{},{},{},{},{line}]",
                            self.place(b, place),
                            self.ty(pt),
                            target.as_u32(),
                            replace
                        )
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(env, b, func);
                        let a: Vec<String> =
                            args.iter().map(|x| self.operand(env, b, &x.node)).collect();
                        let ats: Vec<String> = args
                            .iter()
                            .map(|x| {
                                let t = x.node.ty(b, tcx);
                                self.ty(t)
                            })
                            .collect();
                        let m: Vec<String> =
                            self.macros(t.source_info.span).iter().map(|m| esc(m)).collect();
                        format!(
                            "[\"call\",{f},[{}],{},{},{line},[{}],[{}]]",
                            a.join(","),
                            self.place(b, destination),
                            target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                            m.join(","),
                            ats.join(",")
                        )
                    }
                    TerminatorKind::TailCall { .. } => "[\"tailcall\"]".to_string(),
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let (k, ops) = match &**msg {
                            mir::AssertKind::BoundsCheck { len, index } => (
                                "bounds".to_string(),
                                vec![self.operand(env, b, len), self.operand(env, b, index)],
                            ),
                            mir::AssertKind::Overflow(op, x, y) => (
                                format!("overflow:{op:?}"),
                                vec![self.operand(env, b, x), self.operand(env, b, y)],
                            ),
                            mir::AssertKind::OverflowNeg(x) => {
                                ("overflow:Neg".to_string(), vec![self.operand(env, b, x)])
                            }
                            mir::AssertKind::DivisionByZero(x) => {
                                ("div0".to_string(), vec![self.operand(env, b, x)])
                            }
                            mir::AssertKind::RemainderByZero(x) => {
                                ("rem0".to_string(), vec![self.operand(env, b, x)])
                            }
                            _ => ("other".to_string(), vec![]),
                        };
                        format!(
                            "[\"assert\",{},{},{},[{}],{},{line}]",
                            self.operand(env, b, cond),
                            expected,
                            esc(&k),
                            ops.join(","),
                            target.as_u32()
                        )
                    }
                    TerminatorKind::Yield { resume, resume_arg, .. } => {
                        format!("[\"yield\",{},{},{line}]", resume.as_u32(), self.place(b, resume_arg))
                    }
                    TerminatorKind::CoroutineDrop => "[\"unwind\"]".to_string(),
                    TerminatorKind::FalseEdge { real_target, .. } => {
                        format!("[\"goto\",{}]", real_target.as_u32())
                    }
                    TerminatorKind::FalseUnwind { real_target, .. } => {
                        format!("[\"goto\",{}]", real_target.as_u32())
                    }
                    TerminatorKind::InlineAsm { .. } => "[\"asm\"]".to_string(),
                };
                o.push_str(&s);
            } else {
                o.push_str("null");
            }
            o.push_str(&format!(",\"cl\":{}}}", bb.is_cleanup));
        }
        o.push_str("]}");
        o
    }

    fn adt_json(&mut self, p: &str, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut o = format!(
            "{}:{{\"enum\":{},\"local\":{},\"variants\":[",
            esc(p),
            a.is_enum(),
            d.is_local()
        );
        let discrs: Vec<u128> = if a.is_enum() {
            a.discriminants(tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        let workspace = {
            let k = tcx.crate_name(d.krate).to_string();
            k == "ntex_amqp" || k == "ntex_amqp_codec"
        };
        for (i, v) in a.variants().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(
                o,
                "{{\"name\":{},\"discr\":{},\"fields\":[",
                esc(&v.name.to_string()),
                discrs.get(i).copied().unwrap_or(0)
            );
            if workspace {
                for (j, f) in v.fields.iter().enumerate() {
                    if j > 0 {
                        o.push(',');
                    }
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(ft);
                    let _ = write!(
                        o,
                        "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                        esc(&f.name.to_string()),
                        t,
                        tcx.visibility(f.did).is_public()
                    );
                }
            }
            o.push_str("]}");
        }
        o.push(']');
        if workspace {
            if let Some(dt) = tcx.adt_destructor(d) {
                let _ = write!(o, ",\"drop\":{}", esc(&self.did(dt.did)));
            }
            let (f, l) = self.line(tcx.def_span(d));
            let _ = write!(o, ",\"file\":{},\"line\":{}", esc(&f), l);
        }
        o.push('}');
        o
    }
}

impl Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let dir = match std::env::var("VP_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let is_lib = tcx
            .crate_types()
            .iter()
            .any(|t| matches!(t, rustc_structures::CrateType::Rlib));
        if !is_lib || !(krate == "ntex_amqp" || krate == "ntex_amqp_codec" || krate == "vp_fixture") {
            return Compilation::Continue;
        }
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // make type errors surface through the ordinary pipeline
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = Vec::new();
        for &ld in &owners {
            let dk = tcx.def_kind(ld);
            if !matches!(
                dk,
                DefKind::Fn
                    | DefKind::AssocFn
                    | DefKind::Closure
                    | DefKind::SyntheticCoroutineBody
                    | DefKind::AssocConst { .. }
                    | DefKind::Const { .. }
            ) {
                continue;
            }
            let b = tcx.mir_built(ld).borrow().clone();
            bodies.push((ld, b));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            krate: krate.clone(),
            adts: BTreeMap::new(),
            adts_done: BTreeSet::new(),
        };
        let mut out = format!("{{\"crate\":{},\"fns\":[\n", esc(&krate));
        for (i, (ld, b)) in bodies.iter().enumerate() {
            if i > 0 {
                out.push_str(",\n");
            }
            out.push_str(&cx.body(*ld, b));
        }
        out.push_str("\n],\"adts\":{\n");
        let mut first = true;
        loop {
            let todo: Vec<(String, DefId)> = cx
                .adts
                .iter()
                .filter(|(k, _)| !cx.adts_done.contains(*k))
                .map(|(k, v)| (k.clone(), *v))
                .collect();
            if todo.is_empty() {
                break;
            }
            for (k, v) in todo {
                cx.adts_done.insert(k.clone());
                if !first {
                    out.push_str(",\n");
                }
                first = false;
                let j = cx.adt_json(&k, v);
                out.push_str(&j);
            }
        }
        out.push_str("\n}}\n");
        let f = format!("{dir}/{krate}.json");
        std::fs::write(&f, out).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
