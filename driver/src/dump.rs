use crate::json::{i, s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::{ExpnKind, Span};
use std::collections::HashMap;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
    statics: HashMap<DefId, ()>,
    static_out: Vec<J>,
    owner: DefId,
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let keys: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    // Force every body before anything can steal one.
    let mut bodies = Vec::new();
    for &k in &keys {
        if matches!(tcx.def_kind(k), DefKind::GlobalAsm | DefKind::Ctor(..)) {
            continue;
        }
        bodies.push((k, tcx.mir_promoted(k)));
    }
    let mut d = D {
        tcx,
        tys: HashMap::new(),
        ty_out: Vec::new(),
        adts: HashMap::new(),
        adt_out: Vec::new(),
        statics: HashMap::new(),
        static_out: Vec::new(),
        owner: keys.first().map(|k| k.to_def_id()).unwrap_or(rustc_span::def_id::CRATE_DEF_ID.to_def_id()),
    };
    let mut b_out = Vec::new();
    let mut stolen = Vec::new();
    for (k, (body, promoted)) in &bodies {
        d.owner = k.to_def_id();
        if body.is_stolen() {
            // evaluated already: constants and statics keep their compile-time form
            if matches!(tcx.def_kind(*k), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst)
                || tcx.is_const_fn(k.to_def_id())
            {
                let b = tcx.mir_for_ctfe(*k);
                b_out.push(d.body(*k, b, None));
                for (n, pb) in tcx.promoted_mir(k.to_def_id()).iter_enumerated() {
                    b_out.push(d.body(*k, pb, Some(n.as_usize())));
                }
            } else {
                stolen.push(s(d.path(k.to_def_id())));
            }
            continue;
        }
        let b = body.borrow();
        b_out.push(d.body(*k, &b, None));
        if !promoted.is_stolen() {
            let p = promoted.borrow();
            for (n, pb) in p.iter_enumerated() {
                b_out.push(d.body(*k, pb, Some(n.as_usize())));
            }
        }
    }
    // impls
    let mut impls = Vec::new();
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for imp in is {
            d.owner = imp.to_def_id();
            let tref = tcx.impl_trait_ref(imp.to_def_id()).instantiate_identity().skip_norm_wip();
            let mut items = Vec::new();
            for it in tcx.associated_items(imp.to_def_id()).in_definition_order() {
                let name = it.opt_name().map(|n| n.to_string()).unwrap_or_else(|| "?".into());
                match it.kind {
                    ty::AssocKind::Fn { .. } => items.push((name, s(d.path(it.def_id)))),
                    ty::AssocKind::Type { .. } => {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = d.ty(t);
                        items.push((format!("type {}", name), t));
                    }
                    _ => items.push((format!("const {}", name), s(d.path(it.def_id)))),
                }
            }
            let targs = d.args(tref.args);
            let selfty = d.ty(tref.self_ty());
            let derived = tcx.is_automatically_derived(imp.to_def_id());
            impls.push(J::O(vec![
                ("trait", s(d.path(*tr))),
                ("args", targs),
                ("self", selfty),
                ("items", J::M(items)),
                ("derived", J::B(derived)),
                ("generics", d.generics(imp.to_def_id())),
            ]));
        }
    }
    // traits with provided methods
    let mut traits = Vec::new();
    for &k in &keys {
        let def = k.to_def_id();
        if let Some(t) = tcx.trait_of_assoc(def) {
            traits.push(J::A(vec![s(d.path(t)), s(tcx.item_name(def).to_string()), s(d.path(def))]));
        }
    }
    // attributes / visibility of every item fn and every local adt
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            d.adt(id.to_def_id());
        }
        if matches!(tcx.def_kind(id), DefKind::Static { .. }) {
            d.static_(id.to_def_id());
        }
    }
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let kind = tcx.crate_types().first().map(|k| format!("{:?}", k)).unwrap_or_default();
    let test = tcx.sess.opts.test;
    let feats: Vec<J> = {
        let mut v: Vec<String> = tcx
            .sess
            .config
            .iter()
            .filter(|(k, _)| k.as_str() == "feature")
            .filter_map(|(_, v)| v.map(|x| x.to_string()))
            .collect();
        v.sort();
        v.into_iter().map(J::S).collect()
    };
    let root = J::O(vec![
        ("crate", s(krate.clone())),
        ("kind", s(kind.clone())),
        ("features", J::A(feats)),
        ("types", J::A(std::mem::take(&mut d.ty_out))),
        ("adts", J::A(std::mem::take(&mut d.adt_out))),
        ("statics", J::A(std::mem::take(&mut d.static_out))),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("stolen", J::A(stolen)),
        ("bodies", J::A(b_out)),
    ]);
    let mut text = String::new();
    root.render(&mut text);
    let name = format!("{}/{}-{}{}.json", out, krate, kind, if test { "-test" } else { "" });
    std::fs::write(&name, text).expect("mirdump: cannot write output");
}

impl<'tcx> D<'tcx> {
    /// Canonical path: crate::module::Type::method, impls named by their self type / trait.
    fn path(&self, def: DefId) -> String {
        let tcx = self.tcx;
        if def.is_crate_root() {
            return tcx.crate_name(def.krate).to_string();
        }
        let key = tcx.def_key(def);
        let parent = match key.parent {
            Some(p) => DefId { krate: def.krate, index: p },
            None => return tcx.crate_name(def.krate).to_string(),
        };
        use rustc_hir::definitions::DefPathData as P;
        match key.disambiguated_data.data {
            P::Impl => {
                let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                if tcx.impl_is_of_trait(def) {
                    let tref = tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip();
                    let a: Vec<String> = tref
                        .args
                        .types()
                        .skip(1)
                        .map(|t| self.ty_name(t))
                        .collect();
                    let a = if a.is_empty() { String::new() } else { format!("<{}>", a.join(",")) };
                    format!("<{} as {}{}>", self.ty_name(st), self.path(tref.def_id), a)
                } else {
                    match st.kind() {
                        TyKind::Adt(a, _) => self.path(a.did()),
                        _ => format!("<{}>", self.ty_name(st)),
                    }
                }
            }
            P::ForeignMod => self.path(parent),
            P::Closure => format!("{}::{{closure#{}}}", self.path(parent), key.disambiguated_data.disambiguator),
            P::Ctor => self.path(parent),
            _ => {
                let seg = match key.disambiguated_data.data.get_opt_name() {
                    Some(n) => n.to_string(),
                    None => format!("{{{:?}#{}}}", key.disambiguated_data.data, key.disambiguated_data.disambiguator),
                };
                let dis = key.disambiguated_data.disambiguator;
                if dis > 0 {
                    format!("{}::{}#{}", self.path(parent), seg, dis)
                } else {
                    format!("{}::{}", self.path(parent), seg)
                }
            }
        }
    }

    fn ty_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, args) => {
                let v: Vec<String> = args.types().map(|t| self.ty_name(t)).collect();
                let p = self.path(a.did());
                if v.is_empty() { p } else { format!("{}<{}>", p, v.join(",")) }
            }
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_name(*t)),
            TyKind::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty_name(t)).collect::<Vec<_>>().join(",")),
            TyKind::Slice(t) => format!("[{}]", self.ty_name(*t)),
            TyKind::Array(t, n) => format!("[{};{}]", self.ty_name(*t), n),
            TyKind::Param(p) => p.name.to_string(),
            TyKind::Closure(d, _) | TyKind::Coroutine(d, _) => self.path(*d),
            TyKind::Dynamic(p, _) => format!(
                "dyn {}",
                p.principal_def_id().map(|d| self.path(d)).unwrap_or_default()
            ),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()),
        }
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<Ty<'tcx>> = a.types().collect();
        J::A(v.into_iter().map(|t| self.ty(t)).collect())
    }

    fn args_slice(&mut self, a: &[ty::GenericArg<'tcx>]) -> J {
        let v: Vec<Ty<'tcx>> = a.iter().filter_map(|x| x.as_type()).collect();
        J::A(v.into_iter().map(|t| self.ty(t)).collect())
    }

    fn generics(&mut self, def: DefId) -> J {
        let mut v = Vec::new();
        let mut g = Some(self.tcx.generics_of(def));
        let mut chain = Vec::new();
        while let Some(x) = g {
            chain.push(x);
            g = x.parent.map(|p| self.tcx.generics_of(p));
        }
        for x in chain.into_iter().rev() {
            for p in &x.own_params {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    v.push(s(p.name.to_string()));
                }
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(n) = self.tys.get(&t) {
            return i(*n as i64);
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(J::Null);
        let j = match *t.kind() {
            TyKind::Adt(a, args) => {
                self.adt(a.did());
                let ar = self.args(args);
                J::A(vec![s("adt"), s(self.path(a.did())), ar])
            }
            TyKind::Ref(_, t, m) => {
                let x = self.ty(t);
                J::A(vec![s("ref"), x, J::B(m.is_mut())])
            }
            TyKind::RawPtr(t, m) => {
                let x = self.ty(t);
                J::A(vec![s("ptr"), x, J::B(m.is_mut())])
            }
            TyKind::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::A(vec![s("tuple"), J::A(v)])
            }
            TyKind::Slice(t) => {
                let x = self.ty(t);
                J::A(vec![s("slice"), x])
            }
            TyKind::Array(t, n) => {
                let x = self.ty(t);
                J::A(vec![s("array"), x, s(n.to_string())])
            }
            TyKind::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            TyKind::Closure(d, a) => {
                let ar = self.args_slice(a.as_closure().parent_args());
                J::A(vec![s("closure"), s(self.path(d)), ar])
            }
            TyKind::CoroutineClosure(d, _) => J::A(vec![s("closure"), s(self.path(d)), J::A(vec![])]),
            TyKind::Coroutine(d, a) => {
                let ar = self.args_slice(a.as_coroutine().parent_args());
                J::A(vec![s("coroutine"), s(self.path(d)), ar])
            }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                let ar = self.args(a);
                J::A(vec![s("fndef"), s(self.path(d)), ar])
            }
            TyKind::Dynamic(p, _) => {
                let v: Vec<J> = p
                    .iter()
                    .filter_map(|p| match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => Some(s(self.path(t.def_id))),
                        _ => None,
                    })
                    .collect();
                J::A(vec![s("dyn"), J::A(v)])
            }
            TyKind::Alias(_, al) => {
                let ar = self.args(al.args);
                let def: DefId = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                J::A(vec![s("alias"), s(self.path(def)), ar])
            }
            TyKind::Bool => J::A(vec![s("bool")]),
            TyKind::Str => J::A(vec![s("str")]),
            TyKind::Never => J::A(vec![s("never")]),
            TyKind::Char => J::A(vec![s("char")]),
            TyKind::Int(x) => J::A(vec![s("int"), s(x.name_str())]),
            TyKind::Uint(x) => J::A(vec![s("int"), s(x.name_str())]),
            TyKind::Float(x) => J::A(vec![s("float"), s(x.name_str())]),
            TyKind::FnPtr(..) => J::A(vec![s("fnptr")]),
            _ => J::A(vec![s("other"), s(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()))]),
        };
        self.ty_out[n] = j;
        i(n as i64)
    }

    fn adt(&mut self, def: DefId) {
        if self.adts.insert(def, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let a = tcx.adt_def(def);
        let mut discr: HashMap<usize, String> = HashMap::new();
        if a.is_enum() {
            for (v, dd) in a.discriminants(tcx) {
                discr.insert(v.as_usize(), dd.val.to_string());
            }
        }
        let mut vs = Vec::new();
        for (vi, v) in a.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in &v.fields {
                let ft = if def.is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    J::Null
                };
                fs.push(J::A(vec![s(f.name.to_string()), ft]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", discr.get(&vi.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null)),
                ("fields", J::A(fs)),
            ]));
        }
        let g = self.generics(def);
        self.adt_out.push(J::O(vec![
            ("path", s(self.path(def))),
            ("enum", J::B(a.is_enum())),
            ("local", J::B(def.is_local())),
            ("generics", g),
            ("variants", J::A(vs)),
        ]));
    }

    fn static_(&mut self, def: DefId) {
        if self.statics.insert(def, ()).is_some() {
            return;
        }
        let t = self.tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let tj = self.ty(t);
        self.static_out.push(J::O(vec![
            ("path", s(self.path(def))),
            ("ty", tj),
            ("local", J::B(def.is_local())),
        ]));
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        i(l.line as i64)
    }

    fn mac(&self, sp: Span) -> J {
        let mut v = Vec::new();
        let mut ctxt = sp.ctxt();
        let mut n = 0;
        while !ctxt.is_root() && n < 16 {
            let e = ctxt.outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, name) => v.push(s(name.to_string())),
                ExpnKind::Desugaring(k) => v.push(s(format!("desugar:{:?}", k))),
                _ => {}
            }
            ctxt = e.call_site.ctxt();
            n += 1;
        }
        if v.is_empty() { J::Null } else { J::A(v) }
    }

    fn body(&mut self, def: LocalDefId, b: &mir::Body<'tcx>, promoted: Option<usize>) -> J {
        let tcx = self.tcx;
        let id = self.path(def.to_def_id());
        let kind = tcx.def_kind(def);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => J::A(vec![t, s(n.clone())]),
                    None => J::A(vec![t]),
                }
            })
            .collect();
        let upvars = if promoted.is_none() && tcx.is_closure_like(def.to_def_id()) {
            let caps = tcx.closure_captures(def);
            J::A(caps
                .iter()
                .map(|c| J::A(vec![s(c.to_symbol().to_string()), J::B(c.is_by_ref())]))
                .collect())
        } else {
            J::Null
        };
        let blocks: Vec<J> = b
            .basic_blocks
            .iter()
            .map(|bb| {
                let st: Vec<J> = bb.statements.iter().filter_map(|x| self.stmt(b, x)).collect();
                let t = self.term(b, bb.terminator());
                let mut o = vec![("s", J::A(st)), ("t", t)];
                if bb.is_cleanup {
                    o.push(("c", J::B(true)));
                }
                J::O(o)
            })
            .collect();
        let sp = tcx.def_span(def);
        let file = {
            let l = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
            format!("{}", l.file.name.prefer_local_unconditionally())
        };
        let coroutine = tcx.coroutine_kind(def.to_def_id()).map(|k| s(format!("{:?}", k))).unwrap_or(J::Null);
        let is_pub = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.effective_visibilities(()).is_exported(def);
        let in_trait_impl = tcx.trait_impl_of_assoc(tcx.typeck_root_def_id(def.to_def_id()));
        let derived = in_trait_impl.map(|x| tcx.is_automatically_derived(x)).unwrap_or(false);
        let generics = self.generics(def.to_def_id());
        J::O(vec![
            ("id", s(match promoted { Some(n) => format!("{}::promoted[{}]", id, n), None => id })),
            ("kind", s(format!("{:?}", kind))),
            ("coroutine", coroutine),
            ("derived", J::B(derived)),
            ("pub", J::B(is_pub)),
            ("mac", self.mac(sp)),
            ("file", s(file)),
            ("line", self.loc(sp)),
            ("generics", generics),
            ("args", i(b.arg_count as i64)),
            ("spread", b.spread_arg.map(|l| i(l.as_usize() as i64)).unwrap_or(J::Null)),
            ("upvars", upvars),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }

    /// The path of a type of the analysed crates that a field or variant belongs to.
    fn owner(&self, t: Ty<'tcx>) -> Option<J> {
        match t.kind() {
            TyKind::Adt(a, _) if self.tcx.crate_name(a.did().krate).as_str().starts_with("hydra") => {
                Some(s(self.path(a.did())))
            }
            _ => None,
        }
    }

    fn place(&mut self, b: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![i(p.local.as_usize() as i64)];
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        TyKind::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            a.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    J::A(vec![s("f"), s(name)].into_iter().chain(self.owner(pt.ty)).collect())
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize() as i64)]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), i(offset as i64), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), i(from as i64), i(to as i64), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, vi) => {
                    let n = match pt.ty.kind() {
                        TyKind::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    J::A(vec![s("v"), s(n)].into_iter().chain(self.owner(pt.ty)).collect())
                }
                _ => s("~"),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }

    fn scalar_ptr(&mut self, alloc: mir::interpret::AllocId) -> J {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Static(d) => {
                self.static_(d);
                J::A(vec![s("static"), s(self.path(d))])
            }
            GlobalAlloc::Function { instance } => J::A(vec![s("fnptr"), s(self.path(instance.def_id()))]),
            GlobalAlloc::Memory(a) => {
                let al = a.inner();
                let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len());
                J::A(vec![s("bytes"), s(String::from_utf8_lossy(bytes).to_string())])
            }
            _ => J::A(vec![s("opaque"), s("ptr")]),
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, a) = *t.kind() {
            return self.fndef(d, a.skip_binder());
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                let ar = self.args(u.args);
                if let Some(p) = u.promoted {
                    J::A(vec![s("promoted"), s(format!("{}::promoted[{}]", self.path(u.def), p.as_usize())), ar])
                } else {
                    if u.args.is_empty() && (t.is_integral() || t.is_bool() || t.is_char()) {
                        if let Ok(v) = tcx.const_eval_poly(u.def) {
                            return self.konst_val(v, t);
                        }
                    }
                    let tj = self.ty(t);
                    J::A(vec![s("const"), s(self.path(u.def)), ar, tj])
                }
            }
            mir::Const::Ty(_, ct) => {
                let tj = self.ty(t);
                J::A(vec![s("tyconst"), s(ct.to_string()), tj])
            }
            mir::Const::Val(v, _) => self.konst_val(v, t),
        }
    }

    fn konst_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
                mir::ConstValue::Scalar(Scalar::Int(x)) => match t.kind() {
                    TyKind::Bool => J::A(vec![s("bool"), J::B(x.try_to_bool().unwrap_or(false))]),
                    TyKind::Char => J::A(vec![s("char"), s(x.to_string())]),
                    TyKind::Int(_) => {
                        let tj = self.ty(t);
                        J::A(vec![s("int"), s(x.to_int(x.size()).to_string()), tj])
                    }
                    TyKind::Uint(_) => {
                        let tj = self.ty(t);
                        J::A(vec![s("int"), s(x.to_uint(x.size()).to_string()), tj])
                    }
                    _ => {
                        let tj = self.ty(t);
                        J::A(vec![s("raw"), s(format!("{:?}", x)), tj])
                    }
                },
                mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => self.scalar_ptr(p.provenance.alloc_id()),
                mir::ConstValue::ZeroSized => {
                    let tj = self.ty(t);
                    J::A(vec![s("zst"), tj])
                }
                mir::ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]),
                    None => J::A(vec![s("opaque"), s("slice")]),
                },
                _ => {
                    let tj = self.ty(t);
                    J::A(vec![s("indirect"), tj])
                }
        }
    }

    fn fndef(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = self.args(a);
        let mut o = vec![("fn", s(self.path(d))), ("args", args), ("generics", self.generics(d))];
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let p = tcx.parent(d);
            let (adt, var) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                (tcx.parent(p), tcx.item_name(p).to_string())
            } else {
                (p, tcx.item_name(p).to_string())
            };
            self.adt(adt);
            o.push(("ctor", J::A(vec![s(self.path(adt)), s(var)])));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(self.owner));
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a)) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d {
                        let ra = self.args(inst.args);
                        let rg = self.generics(rd);
                        o.push(("res", J::A(vec![s(self.path(rd)), ra, rg])));
                    }
                }
            }
        }
        J::O(o)
    }

    fn op(&mut self, b: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(b, p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(b, p)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            _ => J::A(vec![s("k"), J::A(vec![s("opaque"), s("rtcheck")])]),
        }
    }

    fn stmt(&mut self, b: &mir::Body<'tcx>, st: &mir::Statement<'tcx>) -> Option<J> {
        match &st.kind {
            mir::StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let pj = self.place(b, p);
                let rj = self.rv(b, r);
                Some(J::A(vec![s("="), pj, rj, self.loc(st.source_info.span)]))
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(b, place);
                Some(J::A(vec![s("setd"), pj, i(variant_index.as_usize() as i64)]))
            }
            mir::StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), i(l.as_usize() as i64)])),
            _ => None,
        }
    }

    fn rv(&mut self, b: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue as R;
        match r {
            R::Use(o, _) => J::A(vec![s("use"), self.op(b, o)]),
            R::Repeat(o, n) => J::A(vec![s("repeat"), self.op(b, o), s(n.to_string())]),
            R::Ref(_, k, p) => J::A(vec![s("ref"), self.place(b, p), J::B(matches!(k, mir::BorrowKind::Mut { .. }))]),
            R::RawPtr(_, p) => J::A(vec![s("ref"), self.place(b, p), J::B(true)]),
            R::ThreadLocalRef(d) => {
                self.static_(*d);
                J::A(vec![s("tls"), s(self.path(*d))])
            }
            R::Cast(k, o, t) => {
                let oj = self.op(b, o);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), oj, tj, s(format!("{:?}", k))])
            }
            R::BinaryOp(op, x) => J::A(vec![s("bin"), s(format!("{:?}", op)), self.op(b, &x.0), self.op(b, &x.1)]),
            R::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{:?}", op)), self.op(b, x)]),
            R::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(b, p), tj])
            }
            R::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(b, o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, vi, a, _, _) => {
                        self.adt(*d);
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*vi);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        let ar = self.args(a);
                        J::A(vec![s("adt"), s(self.path(*d)), s(var.name.to_string()), J::A(names), ar])
                    }
                    mir::AggregateKind::Closure(d, a) => {
                        let ar = self.args_slice(a.as_closure().parent_args());
                        J::A(vec![s("closure"), s(self.path(*d)), ar])
                    }
                    mir::AggregateKind::Coroutine(d, a) => {
                        let ar = self.args_slice(a.as_coroutine().parent_args());
                        J::A(vec![s("coroutine"), s(self.path(*d)), ar])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            R::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(b, p)])]),
            R::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(b, p)])]),
            R::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(b, o)]),
        }
    }

    fn bbn(&self, x: mir::BasicBlock) -> J {
        i(x.as_usize() as i64)
    }

    fn unw(&self, u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Cleanup(x) => self.bbn(*x),
            _ => J::Null,
        }
    }

    fn term(&mut self, b: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        use mir::TerminatorKind as T;
        let sp = t.source_info.span;
        let mut o: Vec<(&'static str, J)> = match &t.kind {
            T::Goto { target, .. } => vec![("k", s("goto")), ("b", self.bbn(*target))],
            T::SwitchInt { discr, targets } => {
                let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![s(v.to_string()), self.bbn(t)])).collect();
                let ty = discr.ty(b, self.tcx);
                let tj = self.ty(ty);
                vec![
                    ("k", s("switch")),
                    ("o", self.op(b, discr)),
                    ("ty", tj),
                    ("ts", J::A(v)),
                    ("else", self.bbn(targets.otherwise())),
                ]
            }
            T::UnwindResume | T::UnwindTerminate(_) => vec![("k", s("resume"))],
            T::Return => vec![("k", s("return"))],
            T::Unreachable | T::CoroutineDrop => vec![("k", s("unreachable"))],
            T::Drop { place, target, unwind, .. } => {
                let ty = place.ty(b, self.tcx).ty;
                let tj = self.ty(ty);
                vec![
                    ("k", s("drop")),
                    ("p", self.place(b, place)),
                    ("ty", tj),
                    ("b", self.bbn(*target)),
                    ("u", self.unw(unwind)),
                ]
            }
            T::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let v: Vec<J> = args.iter().map(|a| self.op(b, &a.node)).collect();
                let dt = destination.ty(b, self.tcx).ty;
                let dtj = self.ty(dt);
                vec![
                    ("k", s("call")),
                    ("f", self.op(b, func)),
                    ("a", J::A(v)),
                    ("d", self.place(b, destination)),
                    ("dt", dtj),
                    ("b", target.map(|x| self.bbn(x)).unwrap_or(J::Null)),
                    ("u", self.unw(unwind)),
                    ("fl", self.loc(*fn_span)),
                ]
            }
            T::Assert { cond, expected, target, unwind, msg } => vec![
                ("k", s("assert")),
                ("o", self.op(b, cond)),
                ("e", J::B(*expected)),
                ("b", self.bbn(*target)),
                ("u", self.unw(unwind)),
                ("msg", s(format!("{:?}", msg).split('(').next().unwrap_or("").to_string())),
            ],
            T::Yield { resume, .. } => vec![("k", s("yield")), ("b", self.bbn(*resume))],
            T::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("b", self.bbn(*real_target))],
            T::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("b", self.bbn(*real_target)), ("fu", J::B(true))],
            _ => vec![("k", s("other"))],
        };
        o.push(("l", self.loc(sp)));
        let m = self.mac(sp);
        if !matches!(m, J::Null) {
            o.push(("m", m));
        }
        J::O(o)
    }
}
