// Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER and dumps the type-checked program (THIR) of the
// crate under analysis as JSON.  It decides nothing; the rules live in ../engine.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'tcx> Cx<'tcx> {
    fn did(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let s = self.type_json(t);
        let i = self.types.len();
        self.types.push(s);
        self.type_ids.insert(t, i);
        i
    }
    // structured type: [head, arg...] where args are types
    fn type_json(&mut self, t: Ty<'tcx>) -> String {
        let s = esc(&self.tystr(t));
        let (head, args): (String, Vec<Ty<'tcx>>) = match t.kind() {
            ty::Adt(def, args) => (self.did(def.did()), args.types().collect()),
            ty::Ref(_, inner, m) => {
                ((if m.is_mut() { "&mut" } else { "&" }).to_string(), vec![*inner])
            }
            ty::Tuple(ts) => ("tuple".to_string(), ts.iter().collect()),
            ty::Slice(i) => ("slice".to_string(), vec![*i]),
            ty::Array(i, _) => ("array".to_string(), vec![*i]),
            ty::Closure(d, _) => (format!("closure {}", self.did(*d)), vec![]),
            ty::FnDef(d, _) => (format!("fndef {}", self.did(*d)), vec![]),
            ty::FnPtr(..) => ("fnptr".to_string(), vec![]),
            ty::Param(p) => (format!("param {}", p.name), vec![]),
            ty::Dynamic(..) => ("dyn".to_string(), vec![]),
            ty::Alias(..) => ("alias".to_string(), vec![]),
            ty::Never => ("!".to_string(), vec![]),
            _ => (self.tystr(t), vec![]),
        };
        let args: Vec<String> = args.iter().map(|a| self.ty(*a).to_string()).collect();
        format!("{{\"s\":{},\"h\":{},\"a\":[{}]}}", s, esc(&head), args.join(","))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}:{}-{}:{}", name, lo.line, lo.col.0 + 1, hi.line, hi.col.0 + 1))
    }
    fn fnref(&mut self, owner: LocalDefId, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut s = format!(
            "{{\"id\":{},\"path\":{},\"kind\":{},\"targs\":[{}],\"local\":{}",
            esc(&self.did(d)),
            esc(&self.path(d)),
            esc(&format!("{:?}", kind)),
            targs.join(","),
            d.is_local()
        );
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"trait\":{}", esc(&self.did(tr)));
            }
            let env = TypingEnv::post_analysis(tcx, owner);
            let erased = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, erased) {
                let r = inst.def_id();
                if r != d {
                    let ra: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(
                        s,
                        ",\"res\":{{\"id\":{},\"path\":{},\"local\":{},\"targs\":[{}]}}",
                        esc(&self.did(r)),
                        esc(&self.path(r)),
                        r.is_local(),
                        ra.join(",")
                    );
                }
            }
        }
        s.push('}');
        s
    }
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn exprs(&mut self, ids: &[ExprId]) -> String {
        let v: Vec<String> = ids.iter().map(|e| self.expr(*e)).collect();
        format!("[{}]", v.join(","))
    }
    fn opt(&mut self, e: Option<ExprId>) -> String {
        match e {
            Some(e) => self.expr(e),
            None => "null".to_string(),
        }
    }
    fn var(&self, v: LocalVarId) -> String {
        esc(&format!(
            "{}#{}",
            self.cx.tcx.hir_opt_name(v.0).map(|s| s.to_string()).unwrap_or("_".into()),
            v.0.local_id.as_u32()
        ) )
    }
    fn variant(&self, adt: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> String {
        let v = adt.variant(vi);
        format!(
            "\"adt\":{},\"enum\":{},\"variant\":{}",
            esc(&self.cx.did(adt.did())),
            adt.is_enum(),
            esc(v.name.as_str())
        )
    }
    fn field_name(&self, t: Ty<'tcx>, vi: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> String {
        match t.kind() {
            ty::Adt(def, _) => def.variant(vi).fields[f].name.to_string(),
            _ => f.as_u32().to_string(),
        }
    }
    fn expr(&mut self, id: ExprId) -> String {
        let thir = self.thir;
        let e = &thir[id];
        let body = match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                let inner = &thir[*value];
                if let ExprKind::Loop { body } = inner.kind {
                    let b = self.expr(body);
                    format!("\"k\":\"Loop\",\"lbl\":{},\"body\":{}", region_scope.local_id.as_u32(), b)
                } else {
                    return self.expr(*value);
                }
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(*cond);
                let t = self.expr(*then);
                let l = self.opt(*else_opt);
                format!("\"k\":\"If\",\"c\":{},\"th\":{},\"el\":{}", c, t, l)
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                let a = self.exprs(args);
                let f = if let ty::FnDef(d, ga) = ty.kind() {
                    let skip = matches!(unscope(thir, *fun).kind, ExprKind::ZstLiteral { .. } | ExprKind::NamedConst{..});
                    let ga = ga.skip_binder();
                    let r = self.cx.fnref(self.owner, *d, ga);
                    if skip {
                        format!("\"fn\":{}", r)
                    } else {
                        let x = self.expr(*fun);
                        format!("\"fn\":{},\"fx\":{}", r, x)
                    }
                } else {
                    let x = self.expr(*fun);
                    format!("\"fx\":{}", x)
                };
                format!("\"k\":\"Call\",{},\"a\":{},\"op\":{}", f, a, !from_hir_call)
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => format!("\"k\":\"Deref\",\"e\":{}", self.expr(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                let l = self.expr(*lhs);
                let r = self.expr(*rhs);
                format!("\"k\":\"Binary\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, l, r)
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let l = self.expr(*lhs);
                let r = self.expr(*rhs);
                format!("\"k\":\"Logical\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, l, r)
            }
            ExprKind::Unary { op, arg } => {
                format!("\"k\":\"Unary\",\"op\":\"{:?}\",\"e\":{}", op, self.expr(*arg))
            }
            ExprKind::Cast { source } => format!("\"k\":\"Cast\",\"e\":{}", self.expr(*source)),
            ExprKind::ValueExpr { source } => return self.expr(*source),
            ExprKind::NeverToAny { source } => {
                format!("\"k\":\"Never\",\"e\":{}", self.expr(*source))
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                format!("\"k\":\"Coerce\",\"c\":{},\"e\":{}", esc(&format!("{:?}", cast)), self.expr(*source))
            }
            ExprKind::Loop { body } => {
                format!("\"k\":\"Loop\",\"lbl\":-1,\"body\":{}", self.expr(*body))
            }
            ExprKind::Let { expr, pat } => {
                let x = self.expr(*expr);
                let p = self.pat(pat);
                format!("\"k\":\"Let\",\"e\":{},\"p\":{}", x, p)
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let x = self.expr(*scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &thir[*a];
                    let p = self.pat(&arm.pattern);
                    let g = self.opt(arm.guard);
                    let b = self.expr(arm.body);
                    v.push(format!("{{\"p\":{},\"g\":{},\"b\":{}}}", p, g, b));
                }
                format!(
                    "\"k\":\"Match\",\"e\":{},\"arms\":[{}],\"src\":{}",
                    x,
                    v.join(","),
                    esc(&format!("{:?}", match_source))
                )
            }
            ExprKind::Block { block } => {
                let b = self.block(*block);
                format!("\"k\":\"Block\",{}", b)
            }
            ExprKind::Assign { lhs, rhs } => {
                let l = self.expr(*lhs);
                let r = self.expr(*rhs);
                format!("\"k\":\"Assign\",\"l\":{},\"r\":{}", l, r)
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let l = self.expr(*lhs);
                let r = self.expr(*rhs);
                format!("\"k\":\"AssignOp\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, l, r)
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let f = self.field_name(thir[*lhs].ty, *variant_index, *name);
                let ft = self.cx.ty(thir[*lhs].ty);
                let l = self.expr(*lhs);
                format!("\"k\":\"Field\",\"e\":{},\"f\":{},\"bt\":{}", l, esc(&f), ft)
            }
            ExprKind::Index { lhs, index } => {
                let l = self.expr(*lhs);
                let i = self.expr(*index);
                format!("\"k\":\"Index\",\"e\":{},\"i\":{}", l, i)
            }
            ExprKind::VarRef { id } => format!("\"k\":\"Var\",\"v\":{}", self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                format!("\"k\":\"Upvar\",\"v\":{}", self.var(*var_hir_id))
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                format!("\"k\":\"Borrow\",\"m\":{},\"e\":{}", m, self.expr(*arg))
            }
            ExprKind::Reborrow { source, mutability, .. } => {
                format!("\"k\":\"Borrow\",\"m\":{},\"e\":{}", mutability.is_mut(), self.expr(*source))
            }
            ExprKind::RawBorrow { arg, .. } => format!("\"k\":\"RawBorrow\",\"e\":{}", self.expr(*arg)),
            ExprKind::Break { label, value } => {
                let v = self.opt(*value);
                format!("\"k\":\"Break\",\"lbl\":{},\"e\":{}", label.local_id.as_u32(), v)
            }
            ExprKind::Continue { label } => {
                format!("\"k\":\"Continue\",\"lbl\":{}", label.local_id.as_u32())
            }
            ExprKind::Return { value } => format!("\"k\":\"Return\",\"e\":{}", self.opt(*value)),
            ExprKind::Repeat { value, count } => {
                let v = self.expr(*value);
                format!("\"k\":\"Repeat\",\"e\":{},\"n\":{}", v, esc(&format!("{:?}", count)))
            }
            ExprKind::Array { fields } => format!("\"k\":\"Array\",\"a\":{}", self.exprs(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"Tuple\",\"a\":{}", self.exprs(fields)),
            ExprKind::Adt(adt) => {
                let mut v = vec![];
                for f in adt.fields.iter() {
                    let n = adt.adt_def.variant(adt.variant_index).fields[f.name].name;
                    let x = self.expr(f.expr);
                    v.push(format!("{}:{}", esc(n.as_str()), x));
                }
                let base = match &adt.base {
                    AdtExprBase::Base(fru) => self.expr(fru.base),
                    _ => "null".to_string(),
                };
                let vr = self.variant(adt.adt_def, adt.variant_index);
                format!("\"k\":\"Adt\",{},\"fs\":{{{}}},\"base\":{}", vr, v.join(","), base)
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.expr(*source),
            ExprKind::Closure(c) => {
                let u = self.exprs(&c.upvars);
                let id = self.cx.did(c.closure_id.to_def_id());
                format!("\"k\":\"Closure\",\"id\":{},\"up\":{}", esc(&id), u)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (lk, v) = match &lit.node {
                    Str(s, _) => ("str", esc(s.as_str())),
                    ByteStr(b, _) | CStr(b, _) => {
                        ("bytes", esc(&b.as_byte_str().iter().map(|b| *b as char).collect::<String>()))
                    }
                    Byte(b) => ("int", b.to_string()),
                    Char(c) => ("char", esc(&c.to_string())),
                    Int(n, _) => ("int", format!("{}{}", if *neg { "-" } else { "" }, n.get())),
                    Float(s, _) => ("float", esc(s.as_str())),
                    Bool(b) => ("bool", b.to_string()),
                    Err(_) => ("err", "null".to_string()),
                };
                format!("\"k\":\"Lit\",\"lk\":\"{}\",\"v\":{}", lk, v)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                format!("\"k\":\"Lit\",\"lk\":\"scalar\",\"v\":{}", esc(&format!("{:?}", lit)))
            }
            ExprKind::ZstLiteral { .. } => {
                if let ty::FnDef(d, ga) = e.ty.kind() {
                    let r = self.cx.fnref(self.owner, *d, ga.skip_binder());
                    format!("\"k\":\"Fn\",\"fn\":{}", r)
                } else {
                    format!("\"k\":\"Zst\"")
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let r = self.cx.fnref(self.owner, *def_id, args);
                format!("\"k\":\"Const\",\"fn\":{}", r)
            }
            ExprKind::ConstBlock { did, .. } => {
                format!("\"k\":\"ConstBlock\",\"id\":{}", esc(&self.cx.did(*did)))
            }
            ExprKind::StaticRef { def_id, .. } => {
                format!("\"k\":\"Static\",\"id\":{}", esc(&self.cx.did(*def_id)))
            }
            other => {
                let s = format!("{:?}", other);
                let s: String = s.chars().take(60).collect();
                format!("\"k\":\"Other\",\"v\":{}", esc(&s))
            }
        };
        let t = self.cx.ty(e.ty);
        format!("{{{},\"t\":{},\"s\":{}}}", body, t, self.cx.span(e.span))
    }
    fn block(&mut self, b: BlockId) -> String {
        let thir = self.thir;
        let blk = &thir[b];
        let mut v = vec![];
        for s in blk.stmts.iter() {
            match &thir[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    let x = self.expr(*expr);
                    v.push(format!("{{\"k\":\"E\",\"e\":{}}}", x));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = self.opt(*initializer);
                    let e = match else_block {
                        Some(b) => format!("{{\"k\":\"Block\",{},\"t\":0,\"s\":\"\"}}", self.block(*b)),
                        None => "null".to_string(),
                    };
                    v.push(format!("{{\"k\":\"L\",\"p\":{},\"e\":{},\"el\":{}}}", p, i, e));
                }
            }
        }
        let e = self.opt(blk.expr);
        let un = matches!(blk.safety_mode, BlockSafety::ExplicitUnsafe(_));
        format!(
            "\"st\":[{}],\"e\":{},\"unsafe\":{},\"tb\":{},\"lbl\":{}",
            v.join(","),
            e,
            un,
            blk.targeted_by_break,
            blk.region_scope.local_id.as_u32()
        )
    }
    fn pats(&mut self, ps: &[Pat<'tcx>]) -> String {
        let v: Vec<String> = ps.iter().map(|p| self.pat(p)).collect();
        format!("[{}]", v.join(","))
    }
    fn subpats(&mut self, t: Ty<'tcx>, vi: rustc_abi::VariantIdx, ps: &[FieldPat<'tcx>]) -> String {
        let mut v = vec![];
        for fp in ps {
            let n = self.field_name(t, vi, fp.field);
            let p = self.pat(&fp.pattern);
            v.push(format!("{}:{}", esc(&n), p));
        }
        format!("{{{}}}", v.join(","))
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> String {
        let body = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"Wild\"".to_string(),
            PatKind::Binding { mode, var, subpattern, .. } => {
                let s = match subpattern {
                    Some(s) => self.pat(s),
                    None => "null".to_string(),
                };
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "val",
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                };
                format!("\"k\":\"Bind\",\"v\":{},\"by\":\"{}\",\"sub\":{}", self.var(*var), by, s)
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let vr = self.variant(*adt_def, *variant_index);
                let s = self.subpats(p.ty, *variant_index, subpatterns);
                format!("\"k\":\"Variant\",{},\"fs\":{}", vr, s)
            }
            PatKind::Leaf { subpatterns } => {
                let s = self.subpats(p.ty, rustc_abi::FIRST_VARIANT, subpatterns);
                format!("\"k\":\"Leaf\",\"fs\":{}", s)
            }
            PatKind::Deref { subpattern, .. } => {
                format!("\"k\":\"Deref\",\"p\":{}", self.pat(subpattern))
            }
            PatKind::DerefPattern { subpattern, .. } => {
                format!("\"k\":\"Deref\",\"p\":{}", self.pat(subpattern))
            }
            PatKind::Constant { value } => {
                if let Some(b) = value.try_to_raw_bytes(self.cx.tcx) {
                    format!("\"k\":\"ConstStr\",\"v\":{}", esc(&String::from_utf8_lossy(b)))
                } else {
                    format!("\"k\":\"Const\",\"v\":{}", esc(&format!("{}", value)))
                }
            }
            PatKind::Range(r) => format!("\"k\":\"Range\",\"v\":{}", esc(&format!("{}", r))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = self.pats(prefix);
                let s = match slice {
                    Some(s) => self.pat(s),
                    None => "null".to_string(),
                };
                let z = self.pats(suffix);
                format!("\"k\":\"Slice\",\"pre\":{},\"sl\":{},\"suf\":{}", a, s, z)
            }
            PatKind::Or { pats } => format!("\"k\":\"Or\",\"ps\":{}", self.pats(pats)),
            _ => "\"k\":\"OtherPat\"".to_string(),
        };
        let t = self.cx.ty(p.ty);
        format!("{{{},\"t\":{}}}", body, t)
    }
}

fn unscope<'a, 'tcx>(thir: &'a Thir<'tcx>, mut id: ExprId) -> &'a Expr<'tcx> {
    loop {
        match &thir[id].kind {
            ExprKind::Scope { value, .. } => id = *value,
            _ => return &thir[id],
        }
    }
}

// the source text of a derive helper attribute, such as the lexer's token patterns
fn attr_text(tcx: TyCtxt<'_>, a: &rustc_attr_ir::Attribute) -> Option<String> {
    match a {
        rustc_attr_ir::Attribute::DeriveHelper(item) => {
            tcx.sess.source_map().span_to_snippet(item.span).ok().map(|s| esc(&s))
        }
        _ => None,
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

// does the body contain code which the user wrote, rather than generated by a derive?
fn has_user_code<'tcx>(_tcx: TyCtxt<'tcx>, thir: &Thir<'tcx>) -> bool {
    thir.exprs.len() < 5000
        && thir.exprs.iter().any(|e| {
            !e.span.from_expansion() && !matches!(e.kind, ExprKind::Scope { .. })
        })
}

fn expn(tcx: TyCtxt<'_>, sp: Span) -> String {
    let _ = tcx;
    let mut out = vec![];
    let mut sp = sp;
    let mut n = 0;
    while sp.from_expansion() && n < 10 {
        let d = sp.ctxt().outer_expn_data();
        out.push(format!("{:?}", d.kind));
        sp = d.call_site;
        n += 1;
    }
    out.join("<")
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], type_ids: HashMap::new() };
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    write!(f, "{{\"bodies\":[").unwrap();
    let mut first = true;
    let ev = tcx.effective_visibilities(());
    for owner in tcx.hir_body_owners() {
        let d = owner.to_def_id();
        let kind = tcx.def_kind(d);
        let ex = expn(tcx, tcx.def_span(d));
        let parent_ex = expn(tcx, tcx.def_span(tcx.typeck_root_def_id(d)));
        let logos = ex.contains("Logos") || parent_ex.contains("Logos");
        let Ok((thir, root)) = tcx.thir_body(owner) else { continue };
        let thir = thir.borrow();
        if thir.exprs.is_empty() {
            continue;
        }
        // generated state machines of the lexer are described by their attributes instead
        if logos && !cx.span(tcx.def_span(d)).is_empty() && !has_user_code(tcx, &thir) {
            continue;
        }
        let mut b = B { cx: &mut cx, thir: &thir, owner };
        let mut params = vec![];
        for p in thir.params.iter() {
            let ps = match &p.pat {
                Some(p) => b.pat(p),
                None => "null".to_string(),
            };
            let t = b.cx.ty(p.ty);
            params.push(format!("{{\"p\":{},\"t\":{}}}", ps, t));
        }
        let body = b.expr(root);
        if !first {
            writeln!(f, ",").unwrap();
        }
        first = false;
        let parent = tcx.opt_parent(d).map(|p| cx.did(p)).unwrap_or_default();
        let mut extra = String::new();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            let r = cx.ty(sig.output());
            let _ = write!(extra, ",\"ret\":{},\"unsafe\":{}", r, sig.safety().is_unsafe());
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).skip_binder();
                let stid = cx.ty(st);
                let _ = write!(extra, ",\"self\":{}", stid);
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    let ta: Vec<String> = tr.args.types().map(|t| cx.ty(t).to_string()).collect();
                    let _ = write!(
                        extra,
                        ",\"trait\":{},\"trait_args\":[{}]",
                        esc(&cx.did(tr.def_id)),
                        ta.join(",")
                    );
                }
            }
            let _ = write!(extra, ",\"reach\":{}", ev.is_reachable(owner));
        }
        write!(
            f,
            "{{\"id\":{},\"path\":{},\"kind\":{},\"name\":{},\"parent\":{},\"s\":{},\"expn\":{},\"logos\":{},\"params\":[{}],\"body\":{}{}}}",
            esc(&cx.did(d)),
            esc(&cx.path(d)),
            esc(&format!("{:?}", kind)),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            esc(&parent),
            cx.span(tcx.def_span(d)),
            esc(&ex),
            logos,
            params.join(","),
            body,
            extra
        )
        .unwrap();
    }
    write!(f, "],\n\"adts\":[").unwrap();
    first = true;
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(d);
                let mut vs = vec![];
                for v in adt.variants() {
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let t = cx.ty(tcx.type_of(fd.did).skip_binder());
                        fs.push(format!(
                            "{{\"n\":{},\"t\":{},\"vis\":{}}}",
                            esc(fd.name.as_str()),
                            t,
                            esc(&format!("{:?}", fd.vis))
                        ));
                    }
                    let attrs: Vec<String> = v
                        .def_id
                        .as_local()
                        .map(|l| {
                            tcx.hir_attrs(tcx.local_def_id_to_hir_id(l))
                                .iter()
                                .filter_map(|a| attr_text(tcx, a))
                                .collect()
                        })
                        .unwrap_or_default();
                    vs.push(format!(
                        "{{\"n\":{},\"fs\":[{}],\"attrs\":[{}]}}",
                        esc(v.name.as_str()),
                        fs.join(","),
                        attrs.join(",")
                    ));
                }
                let attrs: Vec<String> = tcx
                    .hir_attrs(tcx.local_def_id_to_hir_id(id))
                    .iter()
                    .filter_map(|a| attr_text(tcx, a))
                    .collect();
                if !first {
                    writeln!(f, ",").unwrap();
                }
                first = false;
                write!(
                    f,
                    "{{\"id\":{},\"path\":{},\"enum\":{},\"vis\":{},\"reach\":{},\"s\":{},\"variants\":[{}],\"attrs\":[{}]}}",
                    esc(&cx.did(d)),
                    esc(&cx.path(d)),
                    adt.is_enum(),
                    esc(&format!("{:?}", tcx.visibility(d))),
                    ev.is_reachable(id),
                    cx.span(tcx.def_span(d)),
                    vs.join(","),
                    attrs.join(",")
                )
                .unwrap();
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).skip_binder();
                let st = cx.ty(st);
                let tr = if of_trait {
                    esc(&cx.did(tcx.impl_trait_ref(d).skip_binder().def_id))
                } else {
                    "null".to_string()
                };
                let us = false;
                let items: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|i| esc(&cx.did(i.def_id)))
                    .collect();
                impls.push(format!(
                    "{{\"id\":{},\"self\":{},\"trait\":{},\"items\":[{}],\"unsafe\":{},\"expn\":{},\"s\":{}}}",
                    esc(&cx.did(d)),
                    st,
                    tr,
                    items.join(","),
                    us,
                    esc(&expn(tcx, tcx.def_span(d))),
                    cx.span(tcx.def_span(d))
                ));
            }
            _ => {}
        }
    }
    write!(f, "],\n\"impls\":[{}]", impls.join(",\n")).unwrap();
    write!(f, ",\n\"types\":[{}]}}\n", cx.types.join(",\n")).unwrap();
    f.flush().unwrap();
}

extern crate rustc_abi;

fn main() {
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("FACTS_OUT").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("FACTS_CRATE").unwrap_or_default();
    if out.is_empty() || name != want {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
