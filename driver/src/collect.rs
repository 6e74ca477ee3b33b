use crate::json::J;
use rustc_data_structures::fx::{FxHashMap, FxHashSet, FxIndexMap};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArg, GenericArgs, GenericArgsRef, Instance, InstanceKind, ParamEnv,
    ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, TypingMode,
};
use rustc_span::Span;
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Node<'tcx> {
    Inst(Instance<'tcx>),
    Drop(Ty<'tcx>),
    /// trait method that cannot be resolved here: (method, args, is_dyn)
    Unres(DefId, GenericArgsRef<'tcx>, bool),
    FnPtr(Ty<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: FxIndexMap<(Node<'tcx>, ParamEnv<'tcx>), ()>,
    done: Vec<J>,
    types: FxIndexMap<Ty<'tcx>, ()>,
    type_recs: Vec<J>,
    ws: FxHashMap<CrateNum, String>,
    roots: FxHashMap<usize, DefId>,
    named: FxHashSet<DefId>,
}

fn pstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tstr<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut ws = FxHashMap::default();
    for &c in tcx.crates(()) {
        let n = tcx.crate_name(c).to_string();
        if n.starts_with("knaster") && n != "knaster_macros" {
            ws.insert(c, n);
        }
    }
    ws.insert(LOCAL_CRATE, "vharness".into());
    let mut cx = Cx {
        tcx,
        ids: Default::default(),
        done: vec![],
        types: Default::default(),
        type_recs: vec![],
        ws,
        roots: Default::default(),
        named: Default::default(),
    };
    let (mut size_ty, mut size_ty2) = (None, None);
    for id in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(id) == DefKind::TyAlias && tcx.item_name(id.to_def_id()).as_str() == "VSize" {
            size_ty = Some(tcx.type_of(id).instantiate_identity().skip_norm_wip());
        }
        if tcx.def_kind(id) == DefKind::TyAlias && tcx.item_name(id.to_def_id()).as_str() == "VSize2" {
            size_ty2 = Some(tcx.type_of(id).instantiate_identity().skip_norm_wip());
        }
    }
    let size_ty = [size_ty.expect("VSize alias in harness"), size_ty2.expect("VSize2 alias in harness")];
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    let mut crates: Vec<_> = cx.ws.clone().into_iter().collect();
    crates.sort_by(|a, b| a.1.cmp(&b.1));
    for (c, _) in &crates {
        let n = if *c == LOCAL_CRATE {
            tcx.iter_local_def_id().count()
        } else {
            tcx.num_extern_def_ids(*c)
        };
        for i in 0..n {
            let d = DefId { krate: *c, index: DefIndex::from_usize(i) };
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => fns.push(d),
                DefKind::Closure => {}
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(d),
                DefKind::Impl { .. } => impls.push(d),
                DefKind::Trait => traits.push(d),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => consts.push(d),
                _ => {}
            }
        }
    }
    // What other crates can name.
    let mut mods: Vec<DefId> = crates.iter().filter(|c| c.0 != LOCAL_CRATE).map(|c| c.0.as_def_id()).collect();
    let mut seen = 0;
    while seen < mods.len() {
        for ch in tcx.module_children(mods[seen]) {
            if let (true, Some(d)) = (ch.vis.is_public(), ch.res.opt_def_id()) {
                cx.named.insert(d);
                if tcx.def_kind(d) == DefKind::Mod && cx.ws.contains_key(&d.krate) && !d.is_local() && !mods.contains(&d) {
                    mods.push(d);
                }
            }
        }
        seen += 1;
    }
    // Roots.
    let mut root_recs = vec![];
    for &d in &fns {
        let (args, env) = cx.root_args(d, size_ty);
        let is_trait_req = tcx
            .trait_of_assoc(d)
            .is_some_and(|_| !tcx.defaultness(d).has_value());
        let mut rec = cx.fn_item(d);
        if !is_trait_req {
            let inst = Instance { def: InstanceKind::Item(d), args };
            let id = cx.id(Node::Inst(inst), env);
            cx.roots.insert(id, d);
            rec.push(("inst", J::I(id as i128)));
        }
        root_recs.push(J::O(rec));
    }
    // Closure of the call graph.
    let mut i = 0;
    while i < cx.ids.len() {
        let (n, env) = *cx.ids.get_index(i).unwrap().0;
        let rec = cx.process(i, n, env);
        cx.done.push(rec);
        i += 1;
    }
    let mut adt_recs = vec![];
    for d in adts {
        adt_recs.push(cx.adt_item(d));
    }
    let mut impl_recs = vec![];
    for d in impls {
        impl_recs.push(cx.impl_item(d));
    }
    let mut trait_recs = vec![];
    for d in traits {
        let items: Vec<J> = tcx
            .associated_items(d)
            .in_definition_order()
            .map(|it| {
                J::A(vec![
                    J::s(pstr(tcx, it.def_id)),
                    J::B(it.defaultness(tcx).has_value()),
                    J::s(format!("{:?}", tcx.def_kind(it.def_id))),
                ])
            })
            .collect();
        trait_recs.push(J::O(vec![("path", J::s(pstr(tcx, d))), ("items", J::A(items))]));
    }
    let const_recs: Vec<J> = consts
        .iter()
        .map(|&d| {
            let mut v = vec![("path", J::s(pstr(tcx, d))), ("kind", J::s(format!("{:?}", tcx.def_kind(d))))];
            if !tcx.generics_of(d).requires_monomorphization(tcx)
                && !matches!(tcx.def_kind(d), DefKind::Static { .. })
                && tcx.trait_of_assoc(d).is_none()
                && let Ok(cv) = tcx.const_eval_poly(d)
            {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                v.push(("val", J::s(cst_str(Const::Val(cv, t)))));
            }
            J::O(v)
        })
        .collect();
    let top = J::O(vec![
        ("crates", J::A(crates.iter().map(|c| J::s(c.1.clone())).collect())),
        ("fns", J::A(root_recs)),
        ("insts", J::A(std::mem::take(&mut cx.done))),
        ("types", J::A(std::mem::take(&mut cx.type_recs))),
        ("adts", J::A(adt_recs)),
        ("impls", J::A(impl_recs)),
        ("traits", J::A(trait_recs)),
        ("consts", J::A(const_recs)),
    ]);
    let tmp = format!("{out}.tmp{}", std::process::id());
    let mut w = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&tmp).unwrap());
    top.write(&mut w).unwrap();
    w.flush().unwrap();
    drop(w);
    std::fs::rename(&tmp, out).unwrap();
}

fn cst_str(c: Const<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{c}"))))
}

impl<'tcx> Cx<'tcx> {
    fn id(&mut self, n: Node<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let has_param = match n {
            Node::Inst(i) => i.has_param(),
            Node::Drop(t) => t.has_param(),
            Node::Unres(_, a, _) => a.has_param(),
            Node::FnPtr(t) => t.has_param(),
        };
        let pe = if has_param { env.param_env } else { ParamEnv::empty() };
        self.ids.insert_full((n, pe), ()).0
    }

    /// Generic arguments for a root: Float-bounded parameters become f32, Size-bounded parameters
    /// become U2 (the first) and U3 (the others), everything else stays symbolic. Returns the environment with the same
    /// substitution applied.
    fn root_args(&self, d: DefId, size_ty: [Ty<'tcx>; 2]) -> (GenericArgsRef<'tcx>, TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let penv = tcx.param_env(d);
        let mut fl: Vec<ty::ParamTy> = vec![];
        let mut sz: Vec<ty::ParamTy> = vec![];
        for c in penv.caller_bounds() {
            if let Some(tc) = c.as_trait_clause() {
                let tc = tc.skip_binder();
                if let ty::Param(p) = tc.self_ty().kind() {
                    let tp = tcx.item_name(tc.def_id());
                    let kr = tcx.crate_name(tc.def_id().krate);
                    if tp.as_str() == "Float" && kr.as_str().starts_with("knaster") {
                        fl.push(*p);
                    }
                    if tp.as_str() == "Size" && kr.as_str().starts_with("knaster") {
                        sz.push(*p);
                    }
                }
            }
        }
        sz.sort_by_key(|p| p.index);
        sz.dedup();
        let args = GenericArgs::for_item(tcx, d, |p, _| {
            let id: GenericArg<'tcx> = tcx.mk_param_from_def(p);
            if let Some(t) = id.as_type()
                && let ty::Param(pt) = t.kind()
            {
                if fl.contains(pt) {
                    return tcx.types.f32.into();
                }
                if let Some(i) = sz.iter().position(|x| x == pt) {
                    return size_ty[(i > 0) as usize].into();
                }
            }
            id
        });
        let args = tcx.erase_and_anonymize_regions(args);
        let mk = |args: GenericArgsRef<'tcx>| {
            let bounds: Vec<_> = penv
                .caller_bounds()
                .map(|c| EarlyBinder::bind(tcx, c).instantiate(tcx, args).skip_norm_wip())
                .collect();
            let bounds: Vec<_> = bounds
                .into_iter()
                .map(|c| tcx.erase_and_anonymize_regions(c))
                .collect();
            TypingEnv::new(ParamEnv::new(tcx, bounds), TypingMode::Codegen)
        };
        if tcx.instantiate_and_check_impossible_clauses((d, args)) {
            let idargs = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
            return (idargs, mk(idargs));
        }
        if args.has_param() {
            (args, mk(args))
        } else {
            (args, TypingEnv::fully_monomorphized())
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get_index_of(&t) {
            return i;
        }
        let i = self.types.insert_full(t, ()).0;
        self.type_recs.push(J::Null);
        debug_assert_eq!(self.type_recs.len(), i + 1);
        let mut v = vec![("s", J::s(tstr(t)))];
        let tcx = self.tcx;
        match *t.kind() {
            ty::Adt(a, args) => {
                v.push(("k", J::s("adt")));
                v.push(("p", J::s(pstr(tcx, a.did()))));
                let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                v.push(("a", J::A(a)));
            }
            ty::Ref(_, x, m) => {
                v.push(("k", J::s(if m.is_mut() { "refmut" } else { "ref" })));
                let a = self.ty(x);
                v.push(("a", J::A(vec![a])));
            }
            ty::RawPtr(x, m) => {
                v.push(("k", J::s(if m.is_mut() { "ptrmut" } else { "ptr" })));
                let a = self.ty(x);
                v.push(("a", J::A(vec![a])));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                v.push(("k", J::s(if t.is_slice() { "slice" } else { "array" })));
                let a = self.ty(x);
                v.push(("a", J::A(vec![a])));
            }
            ty::Tuple(xs) => {
                v.push(("k", J::s("tuple")));
                let a: Vec<J> = xs.iter().map(|t| self.ty(t)).collect();
                v.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                v.push(("k", J::s("closure")));
                v.push(("p", J::s(pstr(tcx, d))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                v.push(("a", J::A(a)));
            }
            ty::FnDef(d, _) => {
                v.push(("k", J::s("fndef")));
                v.push(("p", J::s(pstr(tcx, d))));
            }
            ty::FnPtr(..) => v.push(("k", J::s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                v.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    v.push(("p", J::s(pstr(tcx, p))));
                }
            }
            ty::Param(_) => v.push(("k", J::s("param"))),
            ty::Alias(..) => v.push(("k", J::s("alias"))),
            ty::Never => v.push(("k", J::s("never"))),
            ty::Bool => v.push(("k", J::s("bool"))),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char | ty::Str => v.push(("k", J::s("prim"))),
            _ => v.push(("k", J::s("other"))),
        }
        self.type_recs[i] = J::O(v);
        i
    }

    fn is_ws(&self, d: DefId) -> bool {
        self.ws.contains_key(&d.krate)
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        J::A(vec![
            J::s(p.file.name.prefer_local_unconditionally().to_string()),
            J::I(p.line as i128),
        ])
    }
    fn line(&self, s: Span) -> J {
        let s = s.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        J::I(p.line as i128)
    }

    fn fn_item(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let mut v = vec![
            ("path", J::s(pstr(tcx, d))),
            ("name", J::s(tcx.item_name(d).to_string())),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("unsafe", J::B(!sig.safety().is_safe())),
            ("pub", J::B(tcx.visibility(d).is_public())),
            ("vis", J::s(format!("{:?}", tcx.visibility(d)))),
            ("inputs", J::A(sig.inputs().iter().map(|t| J::s(tstr(*t))).collect())),
            ("output", J::s(tstr(sig.output()))),
            ("span", self.span(tcx.def_span(d))),
        ];
        let bounds: Vec<J> = tcx
            .param_env(d)
            .caller_bounds()
            .map(|c| with_no_trimmed_paths!(format!("{c}")))
            .filter(|c| c.ends_with("UGen") || c.contains("UGen<") || c.ends_with("marker::Send"))
            .map(J::s)
            .collect();
        v.push(("bounds", J::A(bounds)));
        v.push(("named", J::B(self.named.contains(&d))));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("of_trait", J::s(pstr(tcx, tr))));
            v.push(("default", J::B(tcx.defaultness(d).has_value())));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            v.push(("impl_self", J::s(tstr(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            if let Some(a) = tcx.type_of(im).instantiate_identity().skip_norm_wip().ty_adt_def() {
                v.push(("impl_adt", J::s(pstr(tcx, a.did()))));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                v.push(("impl_trait", J::s(pstr(tcx, tr.skip_binder().def_id))));
                if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
                    v.push(("tm", J::s(pstr(tcx, ti))));
                }
            }
        }
        v
    }

    fn adt_item(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vars = vec![];
        let discrs: Vec<i128> = if a.is_enum() {
            a.discriminants(tcx).map(|(_, d)| d.val as i128).collect()
        } else {
            vec![]
        };
        for (vi, va) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &va.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tid = self.ty(t);
                fs.push(J::O(vec![
                    ("name", J::s(f.name.to_string())),
                    ("ty", tid),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vars.push(J::O(vec![("name", J::s(va.name.to_string())), ("fields", J::A(fs)), ("d", J::I(discrs.get(vi.as_usize()).copied().unwrap_or(0)))]));
        }
        J::O(vec![
            ("path", J::s(pstr(tcx, d))),
            ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("pub", J::B(tcx.visibility(d).is_public())),
            ("named", J::B(self.named.contains(&d))),
            ("drop", J::B(tcx.adt_destructor(d).is_some())),
            ("span", self.span(tcx.def_span(d))),
            ("variants", J::A(vars)),
        ])
    }

    fn impl_item(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let mut v = vec![
            ("self", J::s(tstr(self_ty))),
            ("selft", self.ty(self_ty)),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("span", self.span(tcx.def_span(d))),
        ];
        if let Some(a) = self_ty.ty_adt_def() {
            v.push(("adt", J::s(pstr(tcx, a.did()))));
        }
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
            let tr = tr.skip_binder();
            v.push(("trait", J::s(pstr(tcx, tr.def_id))));
            v.push((
                "trait_args",
                J::A(tr.args.types().map(|t| J::s(tstr(t))).collect()),
            ));
            v.push(("negative", J::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative)));
            v.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
            v.push(("derived", J::B(tcx.is_automatically_derived(d))));
        }
        let bounds: Vec<J> = tcx
            .param_env(d)
            .caller_bounds()
            .map(|c| J::s(with_no_trimmed_paths!(format!("{c}"))))
            .collect();
        v.push(("bounds", J::A(bounds)));
        let items: Vec<J> = tcx
            .associated_items(d)
            .in_definition_order()
            .map(|it| {
                let val = if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                    J::s(tstr(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()))
                } else {
                    J::Null
                };
                J::A(vec![
                    J::s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                    J::s(pstr(tcx, it.def_id)),
                    it.trait_item_def_id().map(|t| J::s(pstr(tcx, t))).unwrap_or(J::Null),
                    val,
                ])
            })
            .collect();
        v.push(("items", J::A(items)));
        J::O(v)
    }

    fn process(&mut self, id: usize, n: Node<'tcx>, pe: ParamEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::new(pe, TypingMode::Codegen);
        match n {
            Node::FnPtr(t) => J::O(vec![("k", J::s("fnptr")), ("p", J::s(tstr(t)))]),
            Node::Unres(d, args, is_dyn) => {
                let selft = args.types().next();
                let mut v = vec![
                    ("k", J::s(if is_dyn { "dyn" } else { "unres" })),
                    ("p", J::s(pstr(tcx, d))),
                    ("crate", J::s(tcx.crate_name(d.krate).to_string())),
                    ("name", J::s(tcx.item_name(d).to_string())),
                ];
                if let Some(t) = selft {
                    v.push(("self", self.ty(t)));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    v.push(("trait", J::s(pstr(tcx, tr))));
                }
                J::O(v)
            }
            Node::Drop(t) => self.process_drop(t, env),
            Node::Inst(i) => self.process_inst(id, i, env),
        }
    }

    fn drop_node(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        if !t.needs_drop(self.tcx, env) {
            return None;
        }
        Some(self.id(Node::Drop(t), env))
    }

    fn process_drop(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut callees: Vec<usize> = vec![];
        let mut leaf = J::Null;
        let mut kids: Vec<Ty<'tcx>> = vec![];
        match *t.kind() {
            ty::Adt(a, args) => {
                if let Some(d) = tcx.adt_destructor(a.did()) {
                    callees.push(self.resolve(d.did, args, env));
                }
                if t.is_box() {
                    kids.push(t.expect_boxed_ty());
                }
                if !a.is_union() {
                    for f in a.all_fields() {
                        let ft = f.ty(tcx, args);
                        if let Ok(ft) = tcx.try_normalize_erasing_regions(env, ft) {
                            kids.push(ft);
                        } else {
                            leaf = J::s("normfail");
                        }
                    }
                }
            }
            ty::Tuple(ts) => kids.extend(ts.iter()),
            ty::Slice(x) | ty::Array(x, _) => kids.push(x),
            ty::Closure(_, args) => kids.extend(args.as_closure().upvar_tys().iter()),
            ty::Dynamic(..) => leaf = J::s("dyn"),
            ty::Param(_) => leaf = J::s("param"),
            ty::Alias(..) => leaf = J::s("alias"),
            _ => leaf = J::s("other"),
        }
        for k in kids {
            if let Some(x) = self.drop_node(k, env) {
                callees.push(x);
            }
        }
        let mut v = vec![
            ("k", J::s("drop")),
            ("t", self.ty(t)),
            ("c", J::A(callees.into_iter().map(|c| J::I(c as i128)).collect())),
        ];
        if !matches!(leaf, J::Null) {
            v.push(("leaf", leaf));
        }
        J::O(v)
    }

    /// Resolve a callee to a node.
    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(vd, _) => self.id(Node::Unres(vd, i.args, true), env),
                InstanceKind::Shim(ShimKind::DropGlue(_, t)) => {
                    let t = t.unwrap_or_else(|| i.args.type_at(0));
                    self.id(Node::Drop(t), env)
                }
                _ => self.id(Node::Inst(i), env),
            },
            _ => {
                if tcx.is_lang_item(d, rustc_attr_ir::lang_items::LangItem::DropGlue) {
                    return self.id(Node::Drop(args.type_at(0)), env);
                }
                self.id(Node::Unres(d, args, false), env)
            }
        }
    }

    fn process_inst(&mut self, id: usize, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let is_ws = self.is_ws(d);
        let mut v: Vec<(&'static str, J)> = vec![
            ("p", J::s(pstr(tcx, d))),
            ("crate", J::s(tcx.crate_name(d.krate).to_string())),
            ("name", J::s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
        ];
        let a: Vec<J> = i.args.types().map(|t| self.ty(t)).collect();
        v.push(("a", J::A(a)));
        if is_ws {
            v.push(("ws", J::B(true)));
            v.push(("span", self.span(tcx.def_span(d))));
        }
        if self.roots.contains_key(&id) {
            v.push(("root", J::B(true)));
        }
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = EarlyBinder::bind(tcx, tcx.type_of(im).instantiate_identity().skip_norm_wip())
                    .instantiate(tcx, i.args)
                    .skip_norm_wip();
                let t = self.ty(st);
                v.push(("self", t));
                if tcx.impl_opt_trait_ref(im).is_some()
                    && let Some(ti) = tcx.associated_item(d).trait_item_def_id()
                {
                    v.push(("tm", J::s(pstr(tcx, ti))));
                }
            } else if tcx.trait_of_assoc(d).is_some() {
                v.push(("tm", J::s(pstr(tcx, d))));
                let t = self.ty(i.args.type_at(0));
                v.push(("self", t));
            }
        }
        let kind = match i.def {
            InstanceKind::Item(_) => "fn",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(_) => "shim",
        };
        let mut kind = kind.to_string();
        if kind == "shim" {
            v.push(("shim", J::s(format!("{:?}", i.def).split('(').nth(1).unwrap_or("").to_string())));
        }
        if kind == "fn" {
            if tcx.is_foreign_item(d) {
                kind = "foreign".into();
            } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && tcx
                    .fn_sig(d)
                    .instantiate_identity()
                    .skip_norm_wip()
                    .skip_binder()
                    .output()
                    .is_never()
                && !is_ws
            {
                kind = "diverge".into();
            } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                kind = "ctor".into();
            } else if tcx.intrinsic(d).is_some_and(|x| x.must_be_overridden) {
                kind = "intrinsic".into();
            } else if !tcx.is_mir_available(d) {
                kind = "nomir".into();
            }
        }
        if kind != "fn" && kind != "shim" {
            v.push(("k", J::s(kind)));
            return J::O(v);
        }
        if let InstanceKind::Shim(ShimKind::VTable(_) | ShimKind::ThreadLocal(_)) = i.def {
            v.push(("k", J::s("leafshim")));
            return J::O(v);
        }
        let body: Body<'tcx> = tcx.instance_mir(i.def).clone();
        let body = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => {
                v.push(("k", J::s("normfail")));
                return J::O(v);
            }
        };
        v.push(("k", J::s(kind)));
        let full = is_ws
            || matches!(i.def, InstanceKind::Shim(ShimKind::ClosureOnce { .. }))
            || i.args.iter().any(|a| {
                a.walk().any(|x| {
                    x.as_type().is_some_and(|t| match t.kind() {
                        ty::Closure(d, _) | ty::FnDef(d, _) => self.is_ws(*d),
                        _ => false,
                    })
                })
            });
        if full {
            let b = self.body(&body, env);
            v.push(("body", b));
        } else {
            let mut cs: FxIndexMap<usize, ()> = Default::default();
            let mut refs: FxIndexMap<usize, ()> = Default::default();
            for bb in body.basic_blocks.iter() {
                if bb.is_cleanup {
                    continue;
                }
                for st in &bb.statements {
                    if let StatementKind::Assign(b) = &st.kind {
                        self.reified(&b.1, &body, env, &mut refs);
                    }
                }
                match &bb.terminator().kind {
                    TerminatorKind::Call { func, args, .. } => {
                        let c = self.callee(func, &body, env);
                        cs.insert(c, ());
                        for a in args {
                            self.reif_op(&a.node, &body, env, &mut refs);
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        let t = place.ty(&body, tcx).ty;
                        if let Some(x) = self.drop_node(t, env) {
                            cs.insert(x, ());
                        }
                    }
                    TerminatorKind::InlineAsm { .. } => v.push(("asm", J::B(true))),
                    _ => {}
                }
            }
            v.push(("c", J::A(cs.keys().map(|c| J::I(*c as i128)).collect())));
            if !refs.is_empty() {
                v.push(("r", J::A(refs.keys().map(|c| J::I(*c as i128)).collect())));
            }
        }
        J::O(v)
    }

    fn reified(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, out: &mut FxIndexMap<usize, ()>) {
        if let Rvalue::Cast(_, op, _) = r {
            self.reif_op(op, body, env, out);
        }
    }
    fn reif_op(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, out: &mut FxIndexMap<usize, ()>) {
        let t = op.ty(body, self.tcx);
        match *t.kind() {
            ty::FnDef(d, args) => {
                let x = self.resolve(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env);
                out.insert(x, ());
            }
            ty::Closure(d, args) => {
                let inst = Instance { def: InstanceKind::Item(d), args: self.tcx.erase_and_anonymize_regions(args) };
                let x = self.id(Node::Inst(inst), env);
                out.insert(x, ());
            }
            _ => {}
        }
    }

    fn callee(&mut self, func: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = func.ty(body, self.tcx);
        match *t.kind() {
            ty::FnDef(d, args) => {
                self.resolve(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env)
            }
            _ => {
                let t = self.tcx.erase_and_anonymize_regions(t);
                self.id(Node::FnPtr(t), env)
            }
        }
    }

    /// For calls that put everything an iterator yields into a vector: what the equivalent loop calls.
    fn loops(&mut self, func: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        use rustc_attr_ir::lang_items::LangItem;
        let tcx = self.tcx;
        let ty::FnDef(d, args) = *func.ty(b, tcx).kind() else { return J::Null };
        let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
        let p = pstr(tcx, d);
        let (vec, src, into) = match p.as_str() {
            "core::iter::traits::iterator::Iterator::collect" => (args.type_at(1), args.type_at(0), false),
            "core::iter::traits::collect::Extend::extend" => (args.type_at(0), args.type_at(2), true),
            "core::iter::traits::collect::FromIterator::from_iter" => (args.type_at(0), args.type_at(2), true),
            _ => return J::Null,
        };
        match vec.kind() {
            ty::Adt(a, _) if pstr(tcx, a.did()) == "alloc::vec::Vec" => {}
            _ => return J::Null,
        }
        let (Some(nx), Some(ii)) = (
            tcx.lang_items().get(LangItem::IteratorNext),
            tcx.lang_items().get(LangItem::IntoIterIntoIter),
        ) else {
            return J::Null;
        };
        let mut it = src;
        let mut ic = J::Null;
        if into {
            let a = tcx.mk_args(&[src.into()]);
            let o = tcx.fn_sig(ii).instantiate(tcx, a).skip_norm_wip().skip_binder().output();
            let o = tcx.erase_and_anonymize_regions(o);
            let Ok(o) = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(o)) else { return J::Null };
            it = o;
            ic = J::I(self.resolve(ii, a, env) as i128);
        }
        let a = tcx.mk_args(&[it.into()]);
        let o = tcx.fn_sig(nx).instantiate(tcx, a).skip_norm_wip().skip_binder().output();
        let o = tcx.erase_and_anonymize_regions(o);
        let Ok(o) = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(o)) else { return J::Null };
        let n = self.resolve(nx, a, env);
        let re = tcx.lifetimes.re_erased;
        let rit = Ty::new_mut_ref(tcx, re, it);
        let rvec = Ty::new_mut_ref(tcx, re, vec);
        let ts = [it, rit, o, vec, rvec].map(|t| self.ty(tcx.erase_and_anonymize_regions(t)));
        let [t0, t1, t2, t3, t4] = ts;
        let ty::Adt(_, oa) = o.kind() else { return J::Null };
        let t5 = self.ty(oa.type_at(0));
        J::A(vec![J::I(n as i128), ic, t0, t1, t2, t3, t4, t5])
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut refs: FxIndexMap<usize, ()> = Default::default();
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<J> = vec![];
        for vi in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = vi.value {
                let pj = self.place(&p, b, env);
                names.push(J::A(vec![J::s(vi.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        self.reified(r, b, env, &mut refs);
                        let pj = self.place(p, b, env);
                        let rj = self.rvalue(r, b, env);
                        let ln = self.line(st.source_info.span);
                        ss.push(J::A(vec![J::s("="), pj, rj, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, b, env);
                        ss.push(J::A(vec![J::s("disc"), pj, J::I(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(x) => {
                        ss.push(J::A(vec![J::s("intr"), J::s(format!("{x:?}"))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::I(target.as_u32() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, b, env);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::I(v as i128), J::I(t.as_u32() as i128)]))
                        .collect();
                    J::A(vec![
                        J::s("switch"),
                        o,
                        J::A(ts),
                        J::I(targets.otherwise().as_u32() as i128),
                        ln,
                    ])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b, tcx).ty;
                    let dn = self.drop_node(pt, env);
                    let pj = self.place(place, b, env);
                    J::A(vec![
                        J::s("drop"),
                        pj,
                        J::I(target.as_u32() as i128),
                        dn.map(|x| J::I(x as i128)).unwrap_or(J::Null),
                        ln,
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, b, env);
                    let fj = if matches!(func.ty(b, tcx).kind(), ty::FnDef(..)) {
                        J::Null
                    } else {
                        self.operand(func, b, env)
                    };
                    let mut aj = vec![];
                    for a in args {
                        self.reif_op(&a.node, b, env, &mut refs);
                        aj.push(self.operand(&a.node, b, env));
                    }
                    let dj = self.place(destination, b, env);
                    // declared (unresolved) callee path, for readability and trait-method matching
                    let decl = match *func.ty(b, tcx).kind() {
                        ty::FnDef(d, _) => J::s(pstr(tcx, d)),
                        _ => J::Null,
                    };
                    J::A(vec![
                        J::s("call"),
                        J::I(c as i128),
                        J::A(aj),
                        dj,
                        target.map(|t| J::I(t.as_u32() as i128)).unwrap_or(J::Null),
                        ln,
                        decl,
                        fj,
                        self.loops(func, b, env),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, b, env);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            let a = self.operand(len, b, env);
                            let i = self.operand(index, b, env);
                            J::A(vec![J::s("bounds"), a, i])
                        }
                        mir::AssertKind::Overflow(op, x, y) => {
                            let x = self.operand(x, b, env);
                            let y = self.operand(y, b, env);
                            J::A(vec![J::s("overflow"), J::s(format!("{op:?}")), x, y])
                        }
                        mir::AssertKind::OverflowNeg(x) => {
                            let x = self.operand(x, b, env);
                            J::A(vec![J::s("overflowneg"), x])
                        }
                        mir::AssertKind::DivisionByZero(x) => {
                            let x = self.operand(x, b, env);
                            J::A(vec![J::s("div0"), x])
                        }
                        mir::AssertKind::RemainderByZero(x) => {
                            let x = self.operand(x, b, env);
                            J::A(vec![J::s("rem0"), x])
                        }
                        _ => J::A(vec![J::s("other")]),
                    };
                    J::A(vec![
                        J::s("assert"),
                        o,
                        J::B(*expected),
                        J::I(target.as_u32() as i128),
                        m,
                        ln,
                    ])
                }
                TerminatorKind::InlineAsm { targets, .. } => J::A(vec![
                    J::s("asm"),
                    targets.first().map(|t| J::I(t.as_u32() as i128)).unwrap_or(J::Null),
                ]),
                x => J::A(vec![J::s("otherterm"), J::s(format!("{x:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(ss)),
                ("t", tj),
                ("u", J::I(bb.is_cleanup as i128)),
            ]));
        }
        J::O(vec![
            ("n", J::I(b.arg_count as i128)),
            ("l", J::A(locals)),
            ("names", J::A(names)),
            ("b", J::A(blocks)),
            ("r", J::A(refs.keys().map(|c| J::I(*c as i128)).collect())),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return J::I(p.local.as_u32() as i128);
        }
        let _ = env;
        let mut v = vec![];
        for (base, el) in p.iter_projections() {
            let j = match el {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let pt = base.ty(b, tcx);
                    match *pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let va = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if a.is_enum() => {
                                    a.variant(rustc_abi::VariantIdx::from_u32(0))
                                }
                                None => a.non_enum_variant(),
                            };
                            let name = va.fields[f].name.to_string();
                            J::A(vec![J::s("f"), J::s(name), J::s(pstr(tcx, a.did()))])
                        }
                        _ => J::A(vec![J::s("f"), J::s(f.as_u32().to_string()), J::Null]),
                    }
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("c"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(name, vi) => {
                    let n = name.map(|n| n.to_string()).unwrap_or_else(|| {
                        if let ty::Adt(a, _) = base.ty(b, tcx).ty.kind() {
                            a.variant(vi).name.to_string()
                        } else {
                            vi.as_u32().to_string()
                        }
                    });
                    J::A(vec![J::s("v"), J::s(n)])
                }
                _ => J::s("?"),
            };
            v.push(j);
        }
        let t = p.ty(b, tcx).ty;
        let tj = self.ty(t);
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(v), tj])
    }

    fn operand(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p, b, env);
                J::A(vec![J::s("cp"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p, b, env);
                J::A(vec![J::s("mv"), p])
            }
            Operand::Constant(c) => self.konst(c.const_, env),
            #[allow(unreachable_patterns)]
            x => J::A(vec![J::s("k"), J::O(vec![("s", J::s(format!("{x:?}")))])]),
        }
    }

    fn konst(&mut self, c: Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut v = vec![("t", self.ty(t))];
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                v.push(("def", J::s(pstr(tcx, u.def))));
            }
        }
        match *t.kind() {
            ty::FnDef(d, args) => {
                let x = self.resolve(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env);
                v.push(("fn", J::I(x as i128)));
                return J::A(vec![J::s("k"), J::O(v)]);
            }
            _ => {}
        }
        if !c.has_param() || matches!(c, Const::Val(..)) {
            if let Some(bits) = c.try_eval_bits(tcx, env) {
                match *t.kind() {
                    ty::Float(ty::FloatTy::F32) => {
                        v.push(("f", J::s(format!("{:?}", f32::from_bits(bits as u32)))))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        v.push(("f", J::s(format!("{:?}", f64::from_bits(bits as u64)))))
                    }
                    ty::Int(it) => {
                        let w = it.bit_width().unwrap_or(64);
                        let x = ((bits << (128 - w)) as i128) >> (128 - w);
                        v.push(("i", J::I(x)));
                    }
                    ty::Bool => v.push(("i", J::I(bits as i128))),
                    _ => {
                        if bits <= i128::MAX as u128 {
                            v.push(("i", J::I(bits as i128)))
                        }
                    }
                }
                return J::A(vec![J::s("k"), J::O(v)]);
            }
            if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = cv {
                    if let mir::interpret::GlobalAlloc::Static(d) =
                        tcx.global_alloc(p.provenance.alloc_id())
                    {
                        v.push(("static", J::s(pstr(tcx, d))));
                        return J::A(vec![J::s("k"), J::O(v)]);
                    }
                }
                if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str())
                    && matches!(cv, ConstValue::Slice { .. })
                    && let Some(bs) = cv.try_get_slice_bytes_for_diagnostics(tcx)
                {
                    v.push(("str", J::s(String::from_utf8_lossy(bs).to_string())));
                    return J::A(vec![J::s("k"), J::O(v)]);
                }
                if let Some((n, unit)) = self.const_variant(cv, t) {
                    v.push(("ev", J::s(n)));
                    v.push(("eu", J::I(unit as i128)));
                }
                v.push(("s", J::s(cst_str(Const::Val(cv, t)))));
                return J::A(vec![J::s("k"), J::O(v)]);
            }
        }
        // a promoted reference to a variant without fields
        if let Const::Unevaluated(u, _) = c
            && let Some(p) = u.promoted
        {
            let body = &tcx.promoted_mir(u.def)[p];
            let mut assigned = vec![];
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    if let mir::StatementKind::Assign(a) = &s.kind {
                        assigned.push((a.0, &a.1));
                    }
                }
            }
            if let [(l, Rvalue::Aggregate(k, ops)), (r, Rvalue::Ref(_, _, q))] = assigned[..]
                && l == *q
                && l.projection.is_empty()
                && r.local == mir::RETURN_PLACE
                && r.projection.is_empty()
                && ops.is_empty()
                && let AggregateKind::Adt(d, i, ..) = **k
                && tcx.adt_def(d).is_enum()
            {
                v.push(("ev", J::s(tcx.adt_def(d).variant(i).name.to_string())));
                v.push(("eu", J::I(1)));
            }
        }
        // a constant that depends on a type parameter is named with its arguments
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                let n = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
                    tcx.def_path_str_with_args(u.def, u.args)
                )));
                v.push(("gdef", J::s(n)));
            }
        }
        v.push(("s", J::s(cst_str(c))));
        J::A(vec![J::s("k"), J::O(v)])
    }

    /// Name of the variant of a constant enum value, or of the enum value a constant reference points to.
    fn const_variant(&self, cv: ConstValue, t: Ty<'tcx>) -> Option<(String, bool)> {
        let tcx = self.tcx;
        let (cv, t) = match (cv, t.kind()) {
            (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), ty::Ref(_, x, _)) => {
                let (prov, offset) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    mir::interpret::GlobalAlloc::Memory(_) => {}
                    _ => return None,
                }
                (ConstValue::Indirect { alloc_id: prov.alloc_id(), offset }, *x)
            }
            _ => (cv, t),
        };
        let ty::Adt(d, _) = t.kind() else { return None };
        if !d.is_enum() || t.has_param() {
            return None;
        }
        let v = tcx.try_destructure_mir_constant_for_user_output(cv, t)?.variant?;
        Some((d.variant(v).name.to_string(), d.variant(v).fields.is_empty()))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o, b, env);
                J::A(vec![J::s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, b, env);
                J::A(vec![J::s("repeat"), o, J::s(format!("{n}"))])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p, b, env);
                J::A(vec![
                    J::s(if matches!(k, mir::BorrowKind::Mut { .. }) { "refmut" } else { "ref" }),
                    p,
                ])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p, b, env);
                J::A(vec![J::s("rawptr"), p, J::s(format!("{k:?}"))])
            }
            Rvalue::Reborrow(_, _, p) | Rvalue::CopyForDeref(p) => {
                let p = self.place(p, b, env);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), p])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::s(pstr(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(o, b, env);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::s(format!("{k:?}")), oj, t])
            }
            Rvalue::BinaryOp(op, x) => {
                let a = self.operand(&x.0, b, env);
                let c = self.operand(&x.1, b, env);
                J::A(vec![J::s("bin"), J::s(format!("{op:?}")), a, c])
            }
            Rvalue::UnaryOp(op, x) => {
                let a = self.operand(x, b, env);
                J::A(vec![J::s("un"), J::s(format!("{op:?}")), a])
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(b, tcx).ty;
                // variant table for enums, to interpret switches
                let tab = match pt.kind() {
                    ty::Adt(a, _) if a.is_enum() => J::A(
                        a.discriminants(tcx)
                            .map(|(vi, d)| {
                                J::A(vec![J::I(d.val as i128), J::s(a.variant(vi).name.to_string())])
                            })
                            .collect(),
                    ),
                    _ => J::Null,
                };
                let pj = self.place(p, b, env);
                J::A(vec![J::s("discr"), pj, tab])
            }
            Rvalue::Aggregate(k, ops) => {
                let oj: Vec<J> = ops.iter().map(|o| self.operand(o, b, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, act) => {
                        let a = tcx.adt_def(*d);
                        let va = a.variant(*vi);
                        let names: Vec<J> = match act {
                            Some(f) => vec![J::s(va.fields[*f].name.to_string())],
                            None => va.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        J::A(vec![
                            J::s("adt"),
                            J::s(pstr(tcx, *d)),
                            J::s(va.name.to_string()),
                            J::A(names),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance {
                            def: InstanceKind::Item(*d),
                            args: tcx.erase_and_anonymize_regions(args),
                        };
                        let x = self.id(Node::Inst(inst), env);
                        J::A(vec![J::s("closure"), J::I(x as i128), J::s(pstr(tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(oj)])
            }
            Rvalue::WrapUnsafeBinder(o, _) => {
                let o = self.operand(o, b, env);
                J::A(vec![J::s("use"), o])
            }
        }
    }
}
