//! THIR bodies as expression trees.
use crate::json::{n, s, J};
use crate::types::Cx;
use rustc_ast::LitKind;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, TypingEnv};

pub fn body<'tcx>(cx: &mut Cx<'tcx>, d: LocalDefId, t: &Thir<'tcx>, e: ExprId) -> J {
    let did = d.to_def_id();
    cx.env = Some(TypingEnv::post_analysis(cx.tcx, did));
    let mut b = B { cx, t };
    let params = t
        .params
        .iter()
        .map(|p| {
            let pj = match &p.pat {
                Some(p) => b.pat(p),
                None => J::Null,
            };
            J::O(vec![("pat", pj), ("ty", b.cx.ty(p.ty))])
        })
        .collect();
    let val = b.expr(e);
    let def = b.cx.def(did);
    let gens = generics(b.cx, d);
    let o = vec![
        ("def", def),
        ("kind", s(format!("{:?}", b.cx.tcx.def_kind(d)))),
        ("generics", gens),
        ("params", J::A(params)),
        ("value", val),
        ("span", b.cx.span(b.cx.tcx.def_span(did))),
    ];
    cx.env = None;
    J::O(o)
}

fn generics(cx: &mut Cx<'_>, d: LocalDefId) -> J {
    // names of all type parameters in scope, in the order of FnDef generic arguments
    let args = ty::GenericArgs::identity_for_item(cx.tcx, d.to_def_id());
    J::A(
        args.types()
            .map(|t| match t.kind() {
                ty::Param(p) => s(p.name.to_string()),
                _ => J::Null,
            })
            .collect(),
    )
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    t: &'a Thir<'tcx>,
}

fn var(id: LocalVarId) -> J {
    s(format!("{}", id.0.local_id.as_u32()))
}

fn scope(sc: rustc_middle::middle::region::Scope) -> J {
    s(format!("{}", sc.local_id.as_u32()))
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn block(&mut self, b: BlockId) -> J {
        let blk = &self.t.blocks[b];
        let mut st = vec![];
        for x in blk.stmts.iter() {
            match &self.t.stmts[*x].kind {
                StmtKind::Expr { expr, .. } => {
                    st.push(J::O(vec![("k", s("expr")), ("e", self.expr(*expr))]))
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = match initializer {
                        Some(e) => self.expr(*e),
                        None => J::Null,
                    };
                    let el = match else_block {
                        Some(b) => self.block(*b),
                        None => J::Null,
                    };
                    st.push(J::O(vec![("k", s("let")), ("p", p), ("e", i), ("else", el)]));
                }
            }
        }
        let e = match blk.expr {
            Some(e) => self.expr(e),
            None => J::Null,
        };
        let uns = matches!(blk.safety_mode, BlockSafety::ExplicitUnsafe(_));
        J::O(vec![
            ("k", s("block")),
            ("stmts", J::A(st)),
            ("e", e),
            ("target", J::B(blk.targeted_by_break)),
            ("scope", scope(blk.region_scope)),
            ("unsafe", J::B(uns)),
        ])
    }

    fn exprs(&mut self, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(*e)).collect())
    }

    fn expr(&mut self, e: ExprId) -> J {
        let ex = &self.t.exprs[e];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k {
            ($x:expr) => {
                o.push(("k", s($x)))
            };
        }
        match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                // keep the scope id: break/continue targets refer to it
                k!("scope");
                o.push(("scope", scope(*region_scope)));
                o.push(("e", self.expr(*value)));
                return J::O(o);
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("if");
                o.push(("c", self.expr(*cond)));
                o.push(("t", self.expr(*then)));
                let el = match else_opt {
                    Some(e) => self.expr(*e),
                    None => J::Null,
                };
                o.push(("f", el));
            }
            ExprKind::Call { fun, args, .. } => {
                k!("call");
                o.push(("f", self.expr(*fun)));
                o.push(("a", self.exprs(args)));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                k!("deref");
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("bin");
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("logic");
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::Unary { op, arg } => {
                k!("un");
                o.push(("op", s(format!("{:?}", op))));
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Cast { source } => {
                k!("cast");
                o.push(("e", self.expr(*source)));
            }
            ExprKind::ValueExpr { source } => return self.expr(*source),
            ExprKind::NeverToAny { source } => {
                k!("never");
                o.push(("e", self.expr(*source)));
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                k!("coerce");
                o.push(("c", s(format!("{:?}", cast))));
                o.push(("e", self.expr(*source)));
            }
            ExprKind::Loop { body } => {
                k!("loop");
                o.push(("e", self.expr(*body)));
            }
            ExprKind::Let { expr, pat } => {
                k!("letcond");
                o.push(("e", self.expr(*expr)));
                o.push(("p", self.pat(pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("match");
                o.push(("src", s(format!("{:?}", match_source))));
                o.push(("e", self.expr(*scrutinee)));
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &self.t.arms[*a];
                    let p = self.pat(&arm.pattern);
                    let g = match arm.guard {
                        Some(g) => self.expr(g),
                        None => J::Null,
                    };
                    let b = self.expr(arm.body);
                    v.push(J::O(vec![("p", p), ("g", g), ("e", b)]));
                }
                o.push(("arms", J::A(v)));
            }
            ExprKind::Block { block } => {
                let mut j = self.block(*block);
                if let J::O(v) = &mut j {
                    v.push(("ty", self.cx.ty(ex.ty)));
                }
                return j;
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("assign");
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("assignop");
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("field");
                o.push(("e", self.expr(*lhs)));
                o.push(("v", n(variant_index.as_usize())));
                o.push(("i", n(name.as_usize())));
            }
            ExprKind::Index { lhs, index } => {
                k!("index");
                o.push(("e", self.expr(*lhs)));
                o.push(("i", self.expr(*index)));
            }
            ExprKind::VarRef { id } => {
                k!("var");
                o.push(("v", var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, closure_def_id } => {
                k!("upvar");
                o.push(("v", var(*var_hir_id)));
                o.push(("c", self.cx.def(*closure_def_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("borrow");
                o.push(("b", s(format!("{:?}", borrow_kind))));
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::RawBorrow { mutability, arg } => {
                k!("rawborrow");
                o.push(("b", s(format!("{:?}", mutability))));
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Reborrow { source, .. } => return self.expr(*source),
            ExprKind::Break { label, value } => {
                k!("break");
                o.push(("label", scope(*label)));
                let v = match value {
                    Some(e) => self.expr(*e),
                    None => J::Null,
                };
                o.push(("e", v));
            }
            ExprKind::Continue { label } => {
                k!("continue");
                o.push(("label", scope(*label)));
            }
            ExprKind::Return { value } => {
                k!("return");
                let v = match value {
                    Some(e) => self.expr(*e),
                    None => J::Null,
                };
                o.push(("e", v));
            }
            ExprKind::Repeat { value, count } => {
                k!("repeat");
                o.push(("e", self.expr(*value)));
                let c = count.try_to_target_usize(self.cx.tcx);
                o.push(("n", c.map(|x| n(x as usize)).unwrap_or(J::Null)));
            }
            ExprKind::Array { fields } => {
                k!("array");
                o.push(("es", self.exprs(fields)));
            }
            ExprKind::Tuple { fields } => {
                k!("tuple");
                o.push(("es", self.exprs(fields)));
            }
            ExprKind::Adt(a) => {
                k!("adt");
                let va = a.adt_def.variant(a.variant_index);
                o.push(("path", s(self.cx.path(a.adt_def.did()))));
                o.push(("v", n(a.variant_index.as_usize())));
                o.push(("vn", s(va.name.to_string())));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    fs.push(J::A(vec![n(f.name.as_usize()), self.expr(f.expr)]));
                }
                o.push(("fs", J::A(fs)));
                let base = match &a.base {
                    AdtExprBase::Base(f) => self.expr(f.base),
                    AdtExprBase::None => J::Null,
                    _ => s("defaults"),
                };
                o.push(("base", base));
                o.push(("nf", n(va.fields.len())));
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.expr(*source),
            ExprKind::Closure(c) => {
                k!("closure");
                o.push(("def", self.cx.def(c.closure_id.to_def_id())));
                let up = self.exprs(&c.upvars);
                o.push(("up", up));
                // which variable each capture is rooted in, and the projection it captures
                let tcx = self.cx.tcx;
                let mut caps = vec![];
                for p in tcx.closure_captures(c.closure_id).iter() {
                    let root = p.get_root_variable();
                    let by_ref = !matches!(
                        p.info.capture_kind,
                        ty::UpvarCapture::ByValue
                    );
                    let projs = p
                        .place
                        .projections
                        .iter()
                        .map(|pr| match pr.kind {
                            rustc_middle::hir::place::ProjectionKind::Deref => s("*"),
                            rustc_middle::hir::place::ProjectionKind::Field(f, _) => {
                                n(f.as_usize())
                            }
                            ref o => s(format!("{:?}", o)),
                        })
                        .collect();
                    caps.push(J::O(vec![
                        ("v", s(format!("{}", root.local_id.as_u32()))),
                        ("ref", J::B(by_ref)),
                        ("mutref", J::B(p.is_by_ref() && {
                            matches!(p.info.capture_kind,
                                ty::UpvarCapture::ByRef(k) if !matches!(k, ty::BorrowKind::Immutable))
                        })),
                        ("proj", J::A(projs)),
                    ]));
                }
                o.push(("caps", J::A(caps)));
            }
            ExprKind::Literal { lit, neg } => {
                k!("lit");
                o.push(("neg", J::B(*neg)));
                match lit.node {
                    LitKind::Str(x, _) => {
                        o.push(("t", s("str")));
                        o.push(("v", s(x.to_string())));
                    }
                    LitKind::Int(x, _) => {
                        o.push(("t", s("int")));
                        o.push(("v", s(x.get().to_string())));
                    }
                    LitKind::Float(x, _) => {
                        o.push(("t", s("float")));
                        o.push(("v", s(x.to_string())));
                    }
                    LitKind::Bool(x) => {
                        o.push(("t", s("bool")));
                        o.push(("v", J::B(x)));
                    }
                    LitKind::Char(x) => {
                        o.push(("t", s("char")));
                        o.push(("v", s(x.to_string())));
                    }
                    LitKind::Byte(x) => {
                        o.push(("t", s("int")));
                        o.push(("v", s(x.to_string())));
                    }
                    _ => {
                        o.push(("t", s("other")));
                        o.push(("v", s(format!("{:?}", lit.node))));
                    }
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("nonhir");
                o.push(("v", s(format!("{:?}", lit))));
            }
            ExprKind::ZstLiteral { .. } => {
                k!("zst");
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("const");
                o.push(("def", self.cx.def(*def_id)));
                o.push(("args", self.cx.args(args)));
            }
            ExprKind::ConstBlock { did, .. } => {
                k!("constblock");
                o.push(("def", self.cx.def(*did)));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("static");
                o.push(("def", self.cx.def(*def_id)));
            }
            ExprKind::ThreadLocalRef(d) => {
                k!("threadlocal");
                o.push(("def", self.cx.def(*d)));
            }
            other => {
                k!("other");
                o.push(("s", s(format!("{:?}", other).chars().take(60).collect::<String>())));
            }
        }
        o.push(("ty", self.cx.ty(ex.ty)));
        o.push(("sp", self.cx.span(ex.span)));
        J::O(o)
    }

    fn pats(&mut self, v: &[Pat<'tcx>]) -> J {
        J::A(v.iter().map(|p| self.pat(p)).collect())
    }

    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o.push(("k", s("wild"))),
            PatKind::Never => o.push(("k", s("never"))),
            PatKind::Binding { name, mode, var: v, subpattern, .. } => {
                o.push(("k", s("bind")));
                o.push(("n", s(name.to_string())));
                let by = match mode.0 {
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                    rustc_hir::ByRef::No => "val",
                };
                o.push(("by", s(by)));
                o.push(("v", var(*v)));
                if let Some(sp) = subpattern {
                    o.push(("sub", self.pat(sp)));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", s("variant")));
                o.push(("path", s(self.cx.path(adt_def.did()))));
                o.push(("v", n(variant_index.as_usize())));
                o.push(("vn", s(adt_def.variant(*variant_index).name.to_string())));
                o.push(("fs", self.fpats(subpatterns)));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("leaf")));
                o.push(("fs", self.fpats(subpatterns)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                o.push(("k", s("deref")));
                o.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("const")));
                o.push(("v", s(format!("{}", value))));
            }
            PatKind::Range(r) => {
                o.push(("k", s("range")));
                o.push(("v", s(format!("{}", r))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("slice")));
                o.push(("pre", self.pats(prefix)));
                let m = match slice {
                    Some(p) => self.pat(p),
                    None => J::Null,
                };
                o.push(("mid", m));
                o.push(("suf", self.pats(suffix)));
            }
            PatKind::Or { pats } => {
                o.push(("k", s("or")));
                o.push(("ps", self.pats(pats)));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("s", s(format!("{:?}", other).chars().take(60).collect::<String>())));
            }
        }
        o.push(("ty", self.cx.ty(p.ty)));
        J::O(o)
    }

    fn fpats(&mut self, v: &[FieldPat<'tcx>]) -> J {
        J::A(
            v.iter()
                .map(|f| J::A(vec![n(f.field.as_usize()), self.pat(&f.pattern)]))
                .collect(),
        )
    }
}
