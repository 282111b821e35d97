// Static-analysis front end: a rustc driver that dumps the type-checked MIR of a crate as JSON.
// It never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};

/// Paths by definition site, never shortened: the same name in every crate.
macro_rules! plain { ($e:expr) => { with_no_visible_paths!(with_no_trimmed_paths!($e)) }; }
use rustc_middle::ty::{self, AdtDef, Ty, TyCtxt};
use std::collections::BTreeMap;
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, AdtDef<'tcx>>,
    ext: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let s = plain!(tcx.def_path_str(d));
        if d.is_local() && !s.starts_with('<') {
            format!("{krate}::{s}")
        } else {
            s
        }
    }
    /// A name that identifies the function without its generic arguments.
    fn fname(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            let parent = tcx.parent(d);
            let dis = tcx.def_key(d).disambiguated_data.disambiguator;
            return format!("{}::{{closure#{}}}", self.fname(parent), dis);
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or("{anon}".into());
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } => {
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        let self_ty = tcx.type_of(parent).instantiate_identity();
                        let st = self.tname(self_ty);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(parent).instantiate_identity();
                            let trn = self.path(tr.def_id);
                            let mut targs = String::new();
                            let rest: Vec<String> =
                                tr.args.iter().skip(1).filter_map(|a| a.as_type()).map(|t| self.tname(t)).collect();
                            if !rest.is_empty() {
                                targs = format!("<{}>", rest.join(","));
                            }
                            format!("<{st} as {trn}{targs}>::{name}")
                        } else {
                            format!("{st}::{name}")
                        }
                    }
                    _ => format!("{}::{name}", self.path(parent)),
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::Fn | DefKind::Ctor(..) => self.path(d),
            _ => self.path(d),
        }
    }
    fn tname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", m.prefix_str(), self.tname(*t)),
            ty::Param(p) => format!("{}", p.name),
            _ => plain!(format!("{t}")),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        // record ADTs
        let mut stack = vec![t];
        let mut n = 0;
        while let Some(t) = stack.pop() {
            n += 1;
            if n > 50 {
                break;
            }
            match t.kind() {
                ty::Adt(a, args) => {
                    let p = self.path(a.did());
                    self.adts.entry(p).or_insert(*a);
                    for x in args.iter() {
                        if let Some(x) = x.as_type() {
                            stack.push(x)
                        }
                    }
                }
                ty::Ref(_, t, _) => stack.push(*t),
                ty::Tuple(ts) => stack.extend(ts.iter()),
                ty::Array(t, _) | ty::Slice(t) => stack.push(*t),
                _ => {}
            }
        }
        esc(&plain!(format!("{t}")))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display().to_string()
            }
            o => format!("{o:?}"),
        };
        esc(&format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![format!("{}", p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                PlaceElem::Deref => out.push("[\"*\"]".into()),
                PlaceElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    out.push(format!("[\"f\",{}]", esc(&name)))
                }
                PlaceElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    out.push(format!("[\"v\",{}]", esc(&name)))
                }
                PlaceElem::Index(l) => out.push(format!("[\"i\",{}]", l.as_usize())),
                PlaceElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(format!("[\"ci\",{offset},{from_end}]"))
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    out.push(format!("[\"ss\",{from},{to},{from_end}]"))
                }
                _ => {}
            }
            pt = pt.projection_ty(tcx, el);
        }
        arr(out)
    }
    /// Combinators of Option/Result/bool/Ordering are analysed like local functions, through their own MIR.
    fn note_ext(&mut self, did: DefId, name: &str) {
        let pre = ["core::option::Option::", "core::result::Result::", "core::cmp::Ordering::", "core::ops::control_flow::ControlFlow::", "core::bool::", "bool::", "libspecr::option::", "<core::option::Option as libspecr::"];
        if !did.is_local() && pre.iter().any(|p| name.starts_with(p)) && !self.ext.contains(&did) {
            self.ext.push(did);
        }
    }
    fn fnref(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let name = self.fname(did);
        let mut ga = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                ga.push(self.ty(t));
            } else if let Some(k) = a.as_const() && !did.is_local() && let Some(n) = k.try_to_target_usize(tcx) {
                ga.push(esc(&format!("#{n}")));
            }
        }
        let mut res = String::from("null");
        let mut tr = String::from("null");
        let mut rga = String::from("null");
        self.note_ext(did, &name);
        if let Some(t) = tcx.trait_of_assoc(did) {
            tr = esc(&self.path(t));
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, eargs) {
                let d = inst.def_id();
                if d != did {
                    let rn = self.fname(d);
                    self.note_ext(d, &rn);
                    res = esc(&rn);
                    let mut v = vec![];
                    for a in inst.args.iter() {
                        if let Some(t) = a.as_type() { v.push(self.ty(t)); }
                    }
                    rga = arr(v);
                }
            }
        }
        format!("{{\"fn\":{},\"ga\":{},\"tr\":{},\"res\":{},\"rga\":{}}}", esc(&name), arr(ga), tr, res, rga)
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, body)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(d, args) = t.kind() {
                    return self.fnref(*d, args, owner);
                }
                let tys = self.ty(t);
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        return format!(
                            "{{\"promoted\":{},\"idx\":{},\"ty\":{}}}",
                            esc(&self.fname(u.def)),
                            p.as_usize(),
                            tys
                        );
                    }
                    let mut ga = vec![];
                    for a in u.args.iter() {
                        if let Some(t) = a.as_type() {
                            ga.push(self.ty(t));
                        }
                    }
                    let mut res = String::from("null");
                    if self.tcx.trait_of_assoc(u.def).is_some() {
                        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
                        let eargs = self.tcx.erase_and_anonymize_regions(u.args);
                        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, u.def, eargs) {
                            if inst.def_id() != u.def {
                                res = esc(&self.fname(inst.def_id()));
                            }
                        }
                    }
                    let mut val = String::from("null");
                    if t.is_integral() || t.is_bool() || t.is_char() || matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
                        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                            val = esc(&plain!(format!("{}", Const::Val(v, t))));
                        }
                    }
                    if let ty::Adt(d, _) = t.kind() && self.tcx.item_name(d.did()).as_str() == "Symbol" && self.tcx.crate_name(d.did().krate).as_str() == "rustc_span" {
                        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
                        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) && let Some(n) = v.try_to_scalar().and_then(|n| n.to_u32().discard_err()) && n < 2000 {
                            val = esc(&format!("\"{}\"", rustc_span::Symbol::new(n).as_str()));
                        }
                    }
                    return format!(
                        "{{\"const\":{},\"ga\":{},\"res\":{},\"ty\":{},\"val\":{}}}",
                        esc(&self.fname(u.def)),
                        arr(ga),
                        res,
                        tys,
                        val
                    );
                }
                if let Const::Val(v, _) = c.const_
                    && let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar()
                    && let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(p.provenance.alloc_id())
                {
                    return format!("{{\"static\":{},\"ty\":{}}}", esc(&self.fname(d)), tys);
                }
                let mut s = plain!(format!("{}", c.const_));
                // the index of an interned string: also print the string
                if let Some(n) = s.strip_suffix("_u32 is 0..=4294967040").and_then(|n| n.strip_prefix("const ").unwrap_or(n).parse::<u32>().ok()) {
                    if n < 2000 {
                        s = format!("{s} sym:{}", rustc_span::Symbol::new(n).as_str());
                    }
                }
                format!("{{\"lit\":{},\"ty\":{}}}", esc(&s), tys)
            }
            #[allow(unreachable_patterns)]
            o => format!("{{\"lit\":{},\"ty\":\"?\"}}", esc(&format!("{o:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, owner)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o, body, owner), esc(&format!("{n}")))
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{k:?}")),
                self.operand(o, body, owner),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{op:?}")),
                self.operand(&b.0, body, owner),
                self.operand(&b.1, body, owner)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(o, body, owner))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let n = match t.kind() {
                    ty::Adt(a, _) => self.path(a.did()),
                    _ => "?".into(),
                };
                self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), esc(&n))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut os = vec![];
                for o in ops.iter() {
                    os.push(self.operand(o, body, owner));
                }
                let os = arr(os);
                match &**k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adts.entry(p.clone()).or_insert(a);
                        let var = a.variant(*v);
                        let fs: Vec<String> = match active {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!("[\"adt\",{},{},{},{}]", esc(&p), esc(var.name.as_str()), arr(fs), os)
                    }
                    AggregateKind::Closure(d, _) => {
                        if !d.is_local() && !self.ext.contains(d) {
                            self.ext.push(*d);
                        }
                        format!("[\"closure\",{},{}]", esc(&self.fname(*d)), os)
                    }
                    AggregateKind::Tuple => format!("[\"tuple\",{os}]"),
                    AggregateKind::Array(_) => format!("[\"array\",{os}]"),
                    k => format!("[\"agg\",{},{os}]", esc(&format!("{k:?}"))),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, body)),
            o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
        }
    }
    fn body(&mut self, name: &str, body: &Body<'tcx>, owner: DefId, promoted: Option<usize>) -> String {
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut upv = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !p.projection.is_empty() && p.local.as_usize() == 1 {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, body)));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        sts.push(format!(
                            "[{},{},{}]",
                            self.place(p, body),
                            self.rvalue(r, body, owner),
                            self.span(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => sts.push(format!(
                        "[{},[\"setdiscr\",{}],{}]",
                        self.place(place, body),
                        variant_index.as_usize(),
                        self.span(s.source_info.span)
                    )),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[{},{}]", esc(&val.to_string()), bb.as_usize()));
                    }
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, body, owner),
                        arr(v),
                        targets.otherwise().as_usize(),
                        self.ty(dty)
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    if format!("{t}").contains("Guard") {
                        format!("[\"drop\",{},{}]", self.place(place, body), target.as_usize())
                    } else {
                        format!("[\"goto\",{}]", target.as_usize())
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, owner);
                    let mut a = vec![];
                    for x in args.iter() {
                        a.push(self.operand(&x.node, body, owner));
                    }
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination, body),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(cond, body, owner),
                    expected,
                    esc(&format!("{msg:?}").chars().take(60).collect::<String>()),
                    target.as_usize()
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let cu = bb.is_cleanup;
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cu\":{}}}", arr(sts), ts, sp, cu));
        }
        let nm: Vec<String> = names.iter().map(|(k, v)| format!("\"{k}\":{}", esc(v))).collect();
        let sp = self.span(body.span);
        let mut gens = vec![];
        for a in ty::GenericArgs::identity_for_item(self.tcx, self.tcx.typeck_root_def_id(owner)).iter() {
            if let Some(t) = a.as_type() { gens.push(esc(&format!("{t}"))); }
        }
        let kind = plain!(self.tcx.def_kind(owner).descr(owner).to_string());
        let vis = matches!(self.tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn)
            && self.tcx.visibility(owner).is_public();
        let derived = self.tcx.opt_parent(owner).is_some_and(|p| {
            matches!(self.tcx.def_kind(p), DefKind::Impl { .. }) && self.tcx.is_automatically_derived(p)
        });
        format!(
            "{{\"name\":{},\"promoted\":{},\"kind\":{},\"pub\":{},\"derived\":{},\"span\":{},\"gen\":{},\"argc\":{},\"locals\":{},\"names\":{{{}}},\"upv\":{},\"blocks\":{}}}",
            esc(name),
            promoted.map(|p| p.to_string()).unwrap_or("null".into()),
            esc(&kind),
            vis,
            derived,
            sp,
            arr(gens),
            body.arg_count,
            arr(locals),
            nm.join(","),
            arr(upv),
            arr(blocks)
        )
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_DIR") else { return rustc_driver::Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx { tcx, adts: BTreeMap::new(), ext: vec![] };
        let mut bodies = vec![];
        for d in tcx.mir_keys(()).iter() {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            let body = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    tcx.mir_for_ctfe(did)
                }
                _ => continue,
            };
            let name = cx.fname(did);
            bodies.push(cx.body(&name, body, did, None));
            for (i, p) in tcx.promoted_mir(did).iter().enumerate() {
                bodies.push(cx.body(&name, p, did, Some(i)));
            }
        }
        let mut i = 0;
        while i < cx.ext.len() && i < 400 {
            let did = cx.ext[i];
            i += 1;
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) || !tcx.is_mir_available(did) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let name = cx.fname(did);
            let n0 = cx.ext.len();
            bodies.push(cx.body(&name, body, did, None));
            let _ = n0;
        }
        // make sure that all local ADTs are recorded
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let p = cx.path(did);
                cx.adts.insert(p, tcx.adt_def(did));
            }
        }
        let mut adts = vec![];
        let list: Vec<_> = cx.adts.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (p, a) in list {
            let mut vs = vec![];
            let discrs: Vec<String> = if a.is_enum() {
                a.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
            } else {
                vec!["0".into()]
            };
            for (i, v) in a.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity();
                    let fts = esc(&plain!(format!("{ft}")));
                    fs.push(format!("[{},{}]", esc(f.name.as_str()), fts));
                }
                vs.push(format!(
                    "{{\"n\":{},\"d\":{},\"f\":{}}}",
                    esc(v.name.as_str()),
                    esc(discrs.get(i).map(|s| s.as_str()).unwrap_or("0")),
                    arr(fs)
                ));
            }
            adts.push(format!(
                "{}:{{\"enum\":{},\"local\":{},\"v\":{}}}",
                esc(&p),
                a.is_enum(),
                a.did().is_local(),
                arr(vs)
            ));
        }
        // trait impls of local types: used for coverage rules
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(did) {
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity();
                    let st = cx.tname(tr.self_ty());
                    impls.push(format!("[{},{}]", esc(&cx.path(tr.def_id)), esc(&st)));
                }
            }
        }
        let out = format!(
            "{{\"crate\":{},\"bodies\":[\n{}\n],\"adts\":{{\n{}\n}},\"impls\":{}}}\n",
            esc(&krate),
            bodies.join(",\n"),
            adts.join(",\n"),
            arr(impls)
        );
        std::fs::write(format!("{dir}/{krate}.json"), out).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let dump = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "build_script_build");
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::run_compiler(&args, &mut Cb);
}
