//! MIR (optimisation level 0, drops elaborated).
use crate::json::{n, s, J};
use crate::types::Cx;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TypingEnv};

pub fn body<'tcx>(cx: &mut Cx<'tcx>, d: LocalDefId) -> J {
    let tcx = cx.tcx;
    let did = d.to_def_id();
    cx.env = Some(TypingEnv::post_analysis(tcx, did));
    cx.preds = true;
    let b = tcx.optimized_mir(did);
    let locals = b.local_decls.iter().map(|l| cx.ty(l.ty)).collect();
    let mut blocks = vec![];
    for bb in b.basic_blocks.iter() {
        let mut st = vec![];
        for x in bb.statements.iter() {
            let sp = cx.span(x.source_info.span);
            match &x.kind {
                StatementKind::Assign(a) => {
                    let (p, r) = &**a;
                    let pj = place(p);
                    let rj = rvalue(cx, b, r);
                    st.push(J::O(vec![("k", s("assign")), ("p", pj), ("r", rj), ("sp", sp)]));
                }
                StatementKind::StorageDead(l) => {
                    st.push(J::O(vec![("k", s("dead")), ("l", n(l.as_usize()))]))
                }
                StatementKind::SetDiscriminant { place: p, variant_index } => {
                    st.push(J::O(vec![
                        ("k", s("setdiscr")),
                        ("p", place(p)),
                        ("v", n(variant_index.as_usize())),
                    ]))
                }
                _ => {}
            }
        }
        let t = bb.terminator();
        let sp = cx.span(t.source_info.span);
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => J::Null,
        };
        let tj = match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut v: Vec<J> = targets
                    .iter()
                    .map(|(x, b)| J::A(vec![s(x.to_string()), n(b.as_usize())]))
                    .collect();
                v.push(J::A(vec![J::Null, n(targets.otherwise().as_usize())]));
                J::O(vec![("k", s("switch")), ("d", operand(cx, discr)), ("ts", J::A(v))])
            }
            TerminatorKind::Return => J::O(vec![("k", s("return"))]),
            TerminatorKind::UnwindResume => J::O(vec![("k", s("resume"))]),
            TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("abort"))]),
            TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
            TerminatorKind::Drop { place: p, target, unwind, .. } => {
                let pt = p.ty(b, tcx).ty;
                J::O(vec![
                    ("k", s("drop")),
                    ("p", place(p)),
                    ("ty", cx.ty(pt)),
                    ("t", n(target.as_usize())),
                    ("u", uw(unwind)),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = operand(cx, func);
                let a = args.iter().map(|a| operand(cx, &a.node)).collect();
                let at = args.iter().map(|a| cx.ty(a.node.ty(b, tcx))).collect();
                J::O(vec![
                    ("k", s("call")),
                    ("f", f),
                    ("a", J::A(a)),
                    ("at", J::A(at)),
                    ("p", place(destination)),
                    ("pt", cx.ty(destination.ty(b, tcx).ty)),
                    ("t", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)),
                    ("u", uw(unwind)),
                    ("sp", sp),
                ])
            }
            TerminatorKind::Assert { cond, expected, target, unwind, .. } => J::O(vec![
                ("k", s("assert")),
                ("c", operand(cx, cond)),
                ("e", J::B(*expected)),
                ("t", n(target.as_usize())),
                ("u", uw(unwind)),
                ("sp", sp),
            ]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
            }
            o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
        };
        blocks.push(J::O(vec![
            ("s", J::A(st)),
            ("t", tj),
            ("cleanup", J::B(bb.is_cleanup)),
        ]));
    }
    let o = vec![
        ("def", cx.def(did)),
        ("argc", n(b.arg_count)),
        ("locals", J::A(locals)),
        ("blocks", J::A(blocks)),
        ("span", cx.span(b.span)),
    ];
    cx.env = None;
    cx.preds = false;
    J::O(o)
}

fn place(p: &Place<'_>) -> J {
    let mut v = vec![n(p.local.as_usize())];
    for e in p.projection.iter() {
        v.push(match e {
            ProjectionElem::Deref => s("*"),
            ProjectionElem::Field(f, _) => n(f.as_usize()),
            ProjectionElem::Index(l) => s(format!("[_{}]", l.as_usize())),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                s(format!("[{}{}]", if from_end { "-" } else { "" }, offset))
            }
            ProjectionElem::Downcast(_, v) => s(format!("@{}", v.as_usize())),
            o => s(format!("{:?}", o)),
        });
    }
    J::A(v)
}

fn operand<'tcx>(cx: &mut Cx<'tcx>, o: &Operand<'tcx>) -> J {
    match o {
        Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", place(p))]),
        Operand::Move(p) => J::O(vec![("k", s("move")), ("p", place(p))]),
        Operand::Constant(c) => {
            let t = c.const_.ty();
            let mut v = vec![("k", s("const")), ("ty", cx.ty(t))];
            if !matches!(t.kind(), ty::FnDef(..)) {
                v.push(("v", s(format!("{}", c.const_))));
                if let Some(d) = c.check_static_ptr(cx.tcx) {
                    v.push(("static", cx.def(d)));
                }
            }
            J::O(v)
        }
        _ => J::O(vec![("k", s("other"))]),
    }
}

fn rvalue<'tcx>(cx: &mut Cx<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
    let _ = b;
    match r {
        Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", operand(cx, o))]),
        Rvalue::Repeat(o, _) => J::O(vec![("k", s("repeat")), ("o", operand(cx, o))]),
        Rvalue::Ref(_, k, p) => J::O(vec![
            ("k", s("ref")),
            ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))),
            ("p", place(p)),
        ]),
        Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("def", cx.def(*d))]),
        Rvalue::RawPtr(_, p) => J::O(vec![("k", s("ref")), ("mut", J::B(true)), ("raw", J::B(true)), ("p", place(p))]),
        Rvalue::Cast(k, o, t) => J::O(vec![
            ("k", s("cast")),
            ("c", s(format!("{:?}", k))),
            ("o", operand(cx, o)),
            ("ty", cx.ty(*t)),
        ]),
        Rvalue::BinaryOp(op, ab) => J::O(vec![
            ("k", s("bin")),
            ("op", s(format!("{:?}", op))),
            ("l", operand(cx, &ab.0)),
            ("r", operand(cx, &ab.1)),
        ]),
        Rvalue::UnaryOp(op, o) => J::O(vec![
            ("k", s("un")),
            ("op", s(format!("{:?}", op))),
            ("o", operand(cx, o)),
        ]),
        Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", place(p))]),
        Rvalue::Aggregate(k, os) => {
            let kj = match &**k {
                AggregateKind::Adt(d, v, ..) => J::O(vec![
                    ("k", s("adt")),
                    ("path", s(cx.path(*d))),
                    ("v", n(v.as_usize())),
                ]),
                AggregateKind::Closure(d, _) => {
                    J::O(vec![("k", s("closure")), ("def", cx.def(*d))])
                }
                AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
            };
            let os = os.iter().map(|o| operand(cx, o)).collect();
            J::O(vec![("k", s("agg")), ("a", kj), ("os", J::A(os))])
        }
        Rvalue::CopyForDeref(p) => J::O(vec![
            ("k", s("use")),
            ("o", J::O(vec![("k", s("copy")), ("p", place(p))])),
        ]),
        o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
    }
}
