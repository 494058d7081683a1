//! Types, definitions, items and impls.
use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    pub defs: Vec<J>,
    defmap: HashMap<DefId, usize>,
    pub env: Option<TypingEnv<'tcx>>,
    /// describe the trait bounds of external callees
    pub preds: bool,
}

impl<'tcx> Cx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            defs: vec![],
            defmap: HashMap::new(),
            env: None,
            preds: false,
        }
    }

    pub fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, lo.line))
    }

    /// Stable name of a definition: canonical path for free items, `Trait::m`, `Head::m` for
    /// inherent methods, `<Head as Trait>::m` for methods of trait impls.
    pub fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        if let DefKind::Closure = kind {
            let p = tcx.parent(d);
            let dp = tcx.def_path(d);
            let idx = dp.data.last().map(|x| x.disambiguator).unwrap_or(0);
            return format!("{}::{{closure#{}}}", self.key(p), idx);
        }
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
            let p = tcx.parent(d);
            let name = tcx.item_name(d).to_string();
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let head = self.head(self_ty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> =
                        tr.args.types().skip(1).map(|t| self.head(t)).collect();
                    let tp = self.path(tr.def_id);
                    let ta = if targs.is_empty() {
                        String::new()
                    } else {
                        format!("<{}>", targs.join(","))
                    };
                    return format!("<{} as {}{}>::{}", head, tp, ta, name);
                }
                return format!("{}::{}", head, name);
            }
            return format!("{}::{}", self.path(p), name);
        }
        self.path(d)
    }

    pub fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let dp = tcx.def_path(d);
        let mut o = tcx.crate_name(d.krate).to_string();
        for seg in dp.data.iter() {
            o.push_str("::");
            o.push_str(&seg.data.to_string());
            if seg.disambiguator > 0 {
                o.push_str(&format!("#{}", seg.disambiguator));
            }
        }
        o
    }

    pub fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, m) => {
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*t))
            }
            ty::Slice(t) => format!("[{}]", self.head(*t)),
            ty::Array(t, _) => format!("[{};N]", self.head(*t)),
            ty::Param(p) => format!("{}", p.name),
            ty::Dynamic(preds, _) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".to_string(),
            },
            ty::Closure(d, _) => self.key(*d),
            ty::Tuple(ts) => {
                format!("({})", ts.iter().map(|t| self.head(t)).collect::<Vec<_>>().join(","))
            }
            _ => format!("{}", t),
        }
    }

    pub fn def(&mut self, d: DefId) -> J {
        if let Some(i) = self.defmap.get(&d) {
            return n(*i);
        }
        let i = self.defs.len();
        self.defs.push(J::Null);
        self.defmap.insert(d, i);
        let tcx = self.tcx;
        let mut o = vec![("key", s(self.key(d))), ("local", J::B(d.is_local()))];
        let kind = tcx.def_kind(d);
        o.push(("kind", s(format!("{:?}", kind))));
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
            let p = tcx.parent(d);
            o.push(("name", s(tcx.item_name(d).to_string())));
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(self.path(tr.def_id))));
                }
                DefKind::Trait => o.push(("trait", s(self.path(p)))),
                _ => {}
            }
        }
        self.defs[i] = J::O(o);
        n(i)
    }

    pub fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.types().map(|t| self.ty(t)).collect())
    }

    /// Callee description: definition, type arguments, and the instance it resolves to if known.
    pub fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let mut o = vec![("def", self.def(d)), ("args", self.args(a))];
        if self.preds && !d.is_local() {
            let mut v = vec![];
            for c in self.tcx.clauses_of(d).instantiate(self.tcx, a).clauses {
                let c = c.skip_norm_wip();
                if let Some(t) = c.as_trait_clause() {
                    let tr = t.skip_binder().trait_ref;
                    let p = self.path(tr.def_id);
                    if p == "core::marker::Sized" { continue; }
                    let st = tr.self_ty();
                    v.push(J::A(vec![s(p), self.ty(st)]));
                }
            }
            o.push(("preds", J::A(v)));
        }
        if let Some(env) = self.env {
            let tcx = self.tcx;
            let a2 = tcx.erase_and_anonymize_regions(a);
            if matches!(tcx.def_kind(d), DefKind::AssocFn) && tcx.trait_of_assoc(d).is_some() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a2) {
                    let rd = inst.def_id();
                    if rd != d {
                        let rargs = inst.args;
                        let rd = self.def(rd);
                        let ra = self.args(rargs);
                        o.push(("rdef", rd));
                        o.push(("rargs", ra));
                    } else {
                        // default method or shim
                        let shim = !matches!(inst.def, ty::InstanceKind::Item(_));
                        o.push(("rself", J::B(!shim)));
                    }
                }
            }
        }
        o
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            // callee resolution depends on the environment, so FnDef types are not shared
            return n(*i);
        }
        let share = !matches!(t.kind(), ty::FnDef(..));
        let i = self.types.len();
        self.types.push(J::Null);
        if share {
            self.tymap.insert(t, i);
        }
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(i) => J::O(vec![("k", s("int")), ("name", s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![("k", s("uint")), ("name", s(i.name_str()))]),
            ty::Float(i) => J::O(vec![("k", s("float")), ("name", s(i.name_str()))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(a, args) => {
                let p = self.path(a.did());
                J::O(vec![("k", s("adt")), ("path", s(p)), ("args", self.args(args))])
            }
            ty::Array(e, l) => {
                let len = l.try_to_target_usize(self.tcx);
                J::O(vec![
                    ("k", s("array")),
                    ("t", self.ty(*e)),
                    ("len", len.map(|x| n(x as usize)).unwrap_or(J::Null)),
                ])
            }
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("t", self.ty(*e))]),
            ty::RawPtr(e, m) => J::O(vec![
                ("k", s("ptr")),
                ("mut", J::B(m.is_mut())),
                ("t", self.ty(*e)),
            ]),
            ty::Ref(_, e, m) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(m.is_mut())),
                ("t", self.ty(*e)),
            ]),
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                let mut o = vec![("k", s("fn"))];
                o.extend(self.fnref(*d, a));
                J::O(o)
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(format!("{}", t)))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(self.head(t)))]),
            ty::Closure(d, a) => {
                let d2 = self.def(*d);
                let up: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let up = J::A(up.into_iter().map(|t| self.ty(t)).collect());
                J::O(vec![("k", s("closure")), ("def", d2), ("upvars", up)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("ts", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Alias(_, al) => {
                let st = format!("{}", t);
                let mut o = vec![("k", s("alias")), ("s", s(st))];
                let args = al.args;
                o.push(("args", self.args(args)));
                if let ty::Opaque { .. } = al.kind {
                    o.push(("opaque", J::B(true)));
                }
                if let Some(env) = self.env {
                    if let Ok(nt) = self.tcx.try_normalize_erasing_regions(
                        env,
                        ty::Unnormalized::new_wip(t),
                    ) {
                        if nt != t {
                            o.push(("norm", self.ty(nt)));
                        }
                    }
                }
                J::O(o)
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{}", t)))]),
        };
        self.types[i] = j;
        n(i)
    }
}

pub fn items(cx: &mut Cx<'_>) -> Vec<J> {
    let tcx = cx.tcx;
    let mut v = vec![];
    let ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for d in ids {
        let kind = tcx.def_kind(d);
        let did = d.to_def_id();
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                let attrs = tcx.codegen_fn_attrs(did);
                let exported = attrs.flags.contains(
                    rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE,
                ) || attrs.symbol_name.is_some();
                let vis = tcx.visibility(did).is_public();
                let reach = tcx.effective_visibilities(()).is_reachable(d);
                let name = tcx.item_name(did).to_string();
                let sym = attrs.symbol_name.map(|x| x.to_string()).unwrap_or(name);
                let o = vec![
                    ("def", cx.def(did)),
                    ("kind", s("fn")),
                    ("inputs", J::A(ins)),
                    ("output", cx.ty(sig.output())),
                    ("exported", J::B(exported)),
                    ("symbol", s(sym)),
                    ("abi", s(format!("{:?}", sig.abi()))),
                    ("pub", J::B(vis)),
                    ("reachable", J::B(reach)),
                    ("has_body", J::B(tcx.hir_maybe_body_owned_by(d).is_some())),
                    ("span", cx.span(tcx.def_span(did))),
                ];
                v.push(J::O(o));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, did);
                let freeze = t.is_freeze(tcx, env);
                let o = vec![
                    ("def", cx.def(did)),
                    ("kind", s("static")),
                    ("ty", cx.ty(t)),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(freeze)),
                    ("thread_local", J::B(tcx.is_thread_local_static(did))),
                    ("span", cx.span(tcx.def_span(did))),
                ];
                v.push(J::O(o));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let o = vec![
                    ("def", cx.def(did)),
                    ("kind", s("const")),
                    ("span", cx.span(tcx.def_span(did))),
                ];
                v.push(J::O(o));
            }
            _ => {}
        }
    }
    v
}

pub fn impls(cx: &mut Cx<'_>) -> Vec<J> {
    let tcx = cx.tcx;
    let mut v = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
            let tr = tcx.impl_trait_ref(d.to_def_id()).instantiate_identity().skip_norm_wip();
            let mut ms = vec![];
            for it in tcx.associated_items(d.to_def_id()).in_definition_order() {
                ms.push(J::A(vec![s(it.name().to_string()), cx.def(it.def_id)]));
            }
            let o = vec![
                ("trait", s(cx.path(tr.def_id))),
                ("targs", cx.args(tr.args)),
                ("items", J::A(ms)),
            ];
            v.push(J::O(o));
        }
    }
    v
}

pub fn adts(cx: &mut Cx<'_>) -> Vec<J> {
    let tcx = cx.tcx;
    let mut v = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let a = tcx.adt_def(d.to_def_id());
            let mut vars = vec![];
            for va in a.variants() {
                let mut fs = vec![];
                for f in va.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fs.push(J::A(vec![s(f.name.to_string()), cx.ty(t)]));
                }
                vars.push(J::O(vec![("name", s(va.name.to_string())), ("fields", J::A(fs))]));
            }
            let gens: Vec<J> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| s(p.name.to_string()))
                .collect();
            v.push(J::O(vec![
                ("path", s(cx.path(d.to_def_id()))),
                ("kind", s(format!("{:?}", kind))),
                ("variants", J::A(vars)),
                ("generics", J::A(gens)),
            ]));
        }
    }
    v
}
