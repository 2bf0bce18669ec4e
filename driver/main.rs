// Fact extractor: a rustc driver that dumps instance-resolved MIR as JSON.
// Built with: rustc +nightly -O main.rs   (no dependencies)
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_session::Session;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::OnceLock;

type PromotedFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<IndexVec<mir::Promoted, mir::Body<'tcx>>>,
);
static ORIG: OnceLock<PromotedFn> = OnceLock::new();
thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, (Body<'static>, IndexVec<Promoted, Body<'static>>)>> = RefCell::new(HashMap::new());
}

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<IndexVec<mir::Promoted, mir::Body<'tcx>>>,
) {
    let r = ORIG.get().unwrap()(tcx, def);
    let b: Body<'tcx> = r.0.borrow().clone();
    let p: IndexVec<Promoted, Body<'tcx>> = r.1.borrow().clone();
    // The bodies only live as long as tcx; they are only read in after_analysis.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    let p: IndexVec<Promoted, Body<'static>> = unsafe { std::mem::transmute(p) };
    BODIES.with(|m| m.borrow_mut().insert(def, (b, p)));
    r
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct InstKey<'tcx> {
    def: DefId,
    args: GenericArgsRef<'tcx>,
    promoted: Option<Promoted>,
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<Option<String>>,
    insts: HashMap<InstKey<'tcx>, usize>,
    inst_json: Vec<Option<String>>,
    work: Vec<(usize, InstKey<'tcx>, ty::TypingEnv<'tcx>)>,
    env: ty::TypingEnv<'tcx>,
}

const STD_BODY_PREFIXES: &[&str] = &[
    "core::option::", "core::result::", "core::task::poll::", "core::pin::", "core::ops::control_flow::",
    "core::ops::try_trait::", "core::convert::", "core::ops::function::", "core::bool::", "core::future::",
    "core::mem::maybe_uninit::", "core::mem::manually_drop::", "core::ptr::non_null::", "core::cell::",
    "core::panic::", "core::clone::", "core::cmp::", "core::borrow::", "core::hint::", "core::time::",
    "core::ops::deref::", "core::array::", "core::tuple::",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let c = tcx.crate_name(d.krate).to_string();
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
        );
        let _ = c;
        p
    }
    fn mod_path(&self, d: DefId) -> String {
        // crate::module path of the item (modules only), independent of impl headers
        let tcx = self.tcx;
        let mut segs = vec![];
        let mut cur = d;
        loop {
            if matches!(tcx.def_kind(cur), DefKind::Mod) && !cur.is_crate_root() {
                segs.push(tcx.item_name(cur).to_string());
            }
            match tcx.opt_parent(cur) {
                Some(p) => cur = p,
                None => break,
            }
        }
        segs.push(tcx.crate_name(d.krate).to_string());
        segs.reverse();
        segs.join("::")
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, args: GenericArgsRef<'tcx>, v: T) -> T {
        self.tcx
            .try_instantiate_and_normalize_erasing_regions(args, self.env, ty::EarlyBinder::bind(self.tcx, v))
            .unwrap_or_else(|_| v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(None);
        let tcx = self.tcx;
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o = format!("{{\"s\":{}", js(&name));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(it) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            ty::Uint(it) => {
                let _ = write!(o, ",\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Ref(_, p, m) => {
                let p = self.ty(p);
                let _ = write!(o, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", p, m.is_mut());
            }
            ty::RawPtr(p, m) => {
                let p = self.ty(p);
                let _ = write!(o, ",\"k\":\"ptr\",\"to\":{},\"mut\":{}", p, m.is_mut());
            }
            ty::Slice(p) => {
                let p = self.ty(p);
                let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", p);
            }
            ty::Array(p, n) => {
                let p = self.ty(p);
                let n = match n.try_to_target_usize(tcx) {
                    Some(v) => v.to_string(),
                    None => js(&format!("{n}")),
                };
                let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"n\":{}", p, n);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"fields\":[{}]", v.join(","));
            }
            ty::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"name\":{}", js(p.name.as_str()));
            }
            ty::Alias(..) => o.push_str(",\"k\":\"alias\""),
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder());
                let _ = write!(o, ",\"k\":\"fndef\",\"callee\":{}", c);
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Closure(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups.iter().map(|t| self.ty(*t).to_string()).collect();
                let inst = self.inst(d, args, None);
                let kind = format!("{:?}", args.as_closure().kind());
                let _ = write!(o, ",\"k\":\"closure\",\"fields\":[{}],\"inst\":{},\"ckind\":{},\"path\":{}", v.join(","), inst, js(&kind), js(&self.path(d)));
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_coroutine().upvar_tys().iter().collect();
                let v: Vec<String> = ups.iter().map(|t| self.ty(*t).to_string()).collect();
                let inst = if d.is_local() { self.inst(d, args, None).to_string() } else { "null".into() };
                let _ = write!(o, ",\"k\":\"coroutine\",\"fields\":[{}],\"inst\":{},\"path\":{}", v.join(","), inst, js(&self.path(d)));
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{},\"local\":{},\"ak\":{}", js(&p), def.did().is_local(),
                    js(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}));
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"args\":[{}]", targs.join(","));
                if def.is_box() {
                    o.push_str(",\"box\":true");
                }
                let cn = tcx.crate_name(def.did().krate);
                let expand = def.did().is_local() || (cn.as_str() == "core");
                if expand {
                    let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![] };
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or_else(|_| ft.skip_norm_wip());
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", js(f.name.as_str()), ft));
                        }
                        let d = discrs.get(vi.as_usize()).map(|d| d.to_string()).unwrap_or("0".into());
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(v.name.as_str()), d, fs.join(",")));
                    }
                    let _ = write!(o, ",\"variants\":[{}]", vs.join(","));
                }
                if def.did().is_local() {
                    let adt_has_dtor = tcx.adt_destructor(def.did()).is_some();
                    if adt_has_dtor {
                        let drop_trait = tcx.lang_items().drop_trait().unwrap();
                        let m = tcx.associated_item_def_ids(drop_trait)[0];
                        let a = tcx.mk_args(&[t.into()]);
                        let c = self.callee(m, a);
                        let _ = write!(o, ",\"dtor\":{}", c);
                    }
                } else if tcx.adt_destructor(def.did()).is_some() {
                    o.push_str(",\"xdtor\":true");
                }
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        let nd = t.needs_drop(tcx, self.env);
        let _ = write!(o, ",\"nd\":{}", nd);
        let fz = t.is_freeze(tcx, self.env);
        let _ = write!(o, ",\"freeze\":{}", fz);
        o.push('}');
        self.ty_json[i] = Some(o);
        i
    }

    fn inst(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<Promoted>) -> usize {
        let k = InstKey { def, args, promoted };
        if let Some(&i) = self.insts.get(&k) {
            return i;
        }
        let i = self.inst_json.len();
        self.insts.insert(k, i);
        self.inst_json.push(None);
        self.work.push((i, k, self.env));
        i
    }

    fn std_body_ok(&self, d: DefId) -> bool {
        let m = format!("{}::", self.mod_path(d));
        STD_BODY_PREFIXES.iter().any(|p| m.starts_with(p)) && self.tcx.is_mir_available(d)
    }

    // JSON description of a callee; `args` already instantiated.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"path\":{}", js(&self.path(d)));
        let tas: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"targs\":[{}]", tas.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{},\"method\":{}", js(&self.path(tr)), js(tcx.item_name(d).as_str()));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let variant_or_struct = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(variant_or_struct) {
                DefKind::Variant => {
                    let adt = tcx.parent(variant_or_struct);
                    (adt, tcx.adt_def(adt).variant_index_with_id(variant_or_struct).as_usize())
                }
                _ => (variant_or_struct, 0),
            };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let t = self.tcx.erase_and_anonymize_regions(t);
            let t = self.ty(t);
            let _ = write!(o, ",\"ctor\":[{},{}]}}", t, vi);
            return o;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, self.env, d, args)));
        match r {
            Ok(Ok(Some(inst))) => {
                match inst.def {
                    InstanceKind::Item(id) => {
                        let _ = write!(o, ",\"rk\":\"item\",\"rpath\":{},\"mod\":{},\"local\":{}", js(&self.path(id)), js(&self.mod_path(id)), id.is_local());
                        let rt: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                        let _ = write!(o, ",\"rtargs\":[{}]", rt.join(","));
                        if tcx.is_closure_like(id) {
                            let _ = write!(o, ",\"closure\":true");
                        }
                        if let DefKind::Ctor(..) = tcx.def_kind(id) {
                            o.push('}');
                            return o;
                        }
                        if let Some(im) = tcx.impl_of_assoc(id) {
                            let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                            let st = self.tcx.erase_and_anonymize_regions(st);
                            let st = self.ty(st);
                            let _ = write!(o, ",\"iself\":{}", st);
                        }
                        let nm = tcx.opt_item_name(id).map(|s| s.to_string()).unwrap_or_default();
                        let _ = write!(o, ",\"name\":{}", js(&nm));
                        if id.is_local() || self.std_body_ok(id) {
                            let i = self.inst(id, inst.args, None);
                            let _ = write!(o, ",\"inst\":{}", i);
                        }
                    }
                    InstanceKind::Intrinsic(id) => {
                        let _ = write!(o, ",\"rk\":\"intrinsic\",\"name\":{}", js(tcx.item_name(id).as_str()));
                    }
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        // call_once on a closure whose body takes self by reference
                        let cargs = match *args.type_at(0).kind() {
                            ty::Closure(_, a) => a,
                            _ => inst.args,
                        };
                        let i = self.inst(closure, cargs, None);
                        let _ = write!(o, ",\"rk\":\"closure_once\",\"rpath\":{},\"inst\":{},\"closure\":true", js(&self.path(closure)), i);
                    }
                    InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) => {
                        let t2 = self.ty(t);
                        let _ = write!(o, ",\"rk\":\"fnptr\",\"fnty\":{}", t2);
                    }
                    InstanceKind::Shim(ty::ShimKind::Clone(_, t)) => {
                        let t2 = self.ty(t);
                        let _ = write!(o, ",\"rk\":\"clone\",\"cty\":{}", t2);
                    }
                    InstanceKind::Virtual(id, _) => {
                        let _ = write!(o, ",\"rk\":\"virtual\",\"rpath\":{}", js(&self.path(id)));
                    }
                    other => {
                        let _ = write!(o, ",\"rk\":\"shim\",\"dbg\":{}", js(&format!("{other:?}")));
                    }
                }
            }
            _ => {
                let _ = write!(o, ",\"rk\":\"unresolved\"");
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, b: &Body<'tcx>, args: GenericArgsRef<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("{}", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"c\",{offset},{from_end},{min_length}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => "\"o\"".to_string(),
                _ => "\"o\"".to_string(),
            });
        }
        let t = p.ty(&b.local_decls, self.tcx).ty;
        let t = self.norm(args, t);
        let t = self.ty(t);
        format!("{{\"l\":{},\"p\":[{}],\"t\":{}}}", p.local.as_usize(), pr.join(","), t)
    }

    fn konst(&mut self, args: GenericArgsRef<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let k = self.norm(args, c.const_);
        let t = k.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"c\":{{\"t\":{}", ti);
        if let ty::FnDef(d, a) = *t.kind() {
            let cal = self.callee(d, a.skip_binder());
            let _ = write!(o, ",\"fn\":{}", cal);
            o.push_str("}}");
            return o;
        }
        let mut done = false;
        if let Const::Unevaluated(uv, _) = k {
            if uv.promoted.is_some() {
                if uv.def.is_local() {
                    let i = self.inst(uv.def, uv.args, uv.promoted);
                    let _ = write!(o, ",\"body\":{}", i);
                }
                done = true;
            }
        }
        if !done {
            let has_param = k.has_param();
            let r = k.eval(tcx, self.env, c.span);
            match r {
                Ok(v) => {
                    match v {
                        ConstValue::Scalar(mir::interpret::Scalar::Int(s)) => {
                            let _ = write!(o, ",\"v\":\"{}\"", s.to_bits(s.size()));
                        }
                        ConstValue::Scalar(_) => {
                            let _ = write!(o, ",\"ptr\":{}", js(&format!("{k}")));
                        }
                        ConstValue::ZeroSized => o.push_str(",\"z\":true"),
                        ConstValue::Slice { .. } => {
                            let _ = write!(o, ",\"str\":{}", js(&format!("{k}")));
                        }
                        ConstValue::Indirect { .. } => {
                            let _ = write!(o, ",\"ind\":true");
                            if let Const::Unevaluated(uv, _) = k {
                                if uv.def.is_local() && !has_param {
                                    let i = self.inst(uv.def, uv.args, None);
                                    let _ = write!(o, ",\"body\":{}", i);
                                }
                            }
                        }
                    }
                }
                Err(_) => {
                    if let Const::Unevaluated(uv, _) = k {
                        let _ = write!(o, ",\"path\":{}", js(&self.path(uv.def)));
                        if uv.def.is_local() {
                            let i = self.inst(uv.def, uv.args, None);
                            let _ = write!(o, ",\"body\":{}", i);
                        }
                    }
                    let _ = write!(o, ",\"g\":{}", js(&format!("{k}")));
                }
            }
        }
        o.push_str("}}");
        o
    }

    fn operand(&mut self, b: &Body<'tcx>, args: GenericArgsRef<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(b, args, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(b, args, p)),
            Operand::Constant(c) => self.konst(args, c),
            Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, args: GenericArgsRef<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(b, args, op)),
            Rvalue::Repeat(op, n) => {
                let n = self.norm(args, *n);
                let ns = match n.try_to_target_usize(self.tcx) { Some(v) => v.to_string(), None => js(&format!("{n}")) };
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(b, args, op), ns)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"bk\":{},\"p\":{}}}", js(&format!("{bk:?}")), self.place(b, args, p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"bk\":\"raw\",\"p\":{}}}", self.place(b, args, p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(b, args, p)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(b, args, p)),
            Rvalue::Cast(k, op, t) => {
                let t = self.norm(args, *t);
                let t = self.ty(t);
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"t\":{}}}", js(&format!("{k:?}")), self.operand(b, args, op), t)
            }
            Rvalue::BinaryOp(op, ab) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{op:?}")), self.operand(b, args, &ab.0), self.operand(b, args, &ab.1)),
            Rvalue::UnaryOp(op, a) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{op:?}")), self.operand(b, args, a)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(b, args, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(b, args, o)).collect();
                let t = r.ty(&b.local_decls, self.tcx);
                let t = self.norm(args, t);
                let t = self.ty(t);
                let (kk, vi, af) = match **k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, vi, _, _, af) => ("adt", vi.as_usize(), af.map(|f| f.as_usize())),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::Coroutine(..) => ("coroutine", 0, None),
                    AggregateKind::CoroutineClosure(..) => ("coroutineclosure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                };
                format!("{{\"k\":\"agg\",\"ak\":\"{}\",\"t\":{},\"vi\":{},\"af\":{},\"ops\":[{}]}}", kk, t, vi,
                    af.map(|x| x.to_string()).unwrap_or("null".into()), os.join(","))
            }
            other => format!("{{\"k\":\"other\",\"dbg\":{}}}", js(&format!("{other:?}"))),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate(_) => "\"term\"".into(),
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, lo.line))
    }

    fn body(&mut self, b: &Body<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        let mut o = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let _ = write!(o, "\"argc\":{},\"spread\":{},\"locals\":[", b.arg_count, b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        for (i, d) in b.local_decls.iter_enumerated() {
            let t = self.norm(args, d.ty);
            let t = self.ty(t);
            if i.as_usize() > 0 {
                o.push(',');
            }
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, js(n));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for s in &bb.statements {
                let j = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        Some(format!("{{\"k\":\"=\",\"p\":{},\"r\":{},\"sp\":{}}}", self.place(b, args, p), self.rvalue(b, args, r), self.span(s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("{{\"k\":\"sd\",\"p\":{},\"v\":{}}}", self.place(b, args, place), variant_index.as_usize()))
                    }
                    StatementKind::StorageLive(l) => Some(format!("{{\"k\":\"sl\",\"l\":{}}}", l.as_usize())),
                    StatementKind::StorageDead(l) => Some(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => Some(format!("{{\"k\":\"assume\",\"o\":{}}}", self.operand(b, args, op))),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => Some(format!("{{\"k\":\"memcpy\",\"src\":{},\"dst\":{},\"n\":{}}}",
                            self.operand(b, args, &c.src), self.operand(b, args, &c.dst), self.operand(b, args, &c.count))),
                    },
                    _ => None,
                };
                if let Some(j) = j {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&j);
                }
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"b\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.norm(args, dt);
                    let dt = self.ty(dt);
                    format!("{{\"k\":\"switch\",\"o\":{},\"t\":{},\"vs\":[{}],\"e\":{}}}", self.operand(b, args, discr), dt, v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "{\"k\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"}".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("{{\"k\":\"drop\",\"p\":{},\"b\":{},\"u\":{}}}", self.place(b, args, place), target.as_usize(), Self::unwind(unwind))
                }
                TerminatorKind::Call { func, args: cargs, destination, target, unwind, .. } => {
                    let v: Vec<String> = cargs.iter().map(|a| self.operand(b, args, &a.node)).collect();
                    format!("{{\"k\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"b\":{},\"u\":{}}}", self.operand(b, args, func), v.join(","), self.place(b, args, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), Self::unwind(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    format!("{{\"k\":\"assert\",\"o\":{},\"ex\":{},\"m\":{},\"b\":{},\"u\":{}}}", self.operand(b, args, cond), expected, js(&format!("{msg:?}")), target.as_usize(), Self::unwind(unwind))
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    format!("{{\"k\":\"yield\",\"o\":{},\"b\":{},\"ra\":{},\"drop\":{}}}", self.operand(b, args, value), resume.as_usize(), self.place(b, args, resume_arg),
                        drop.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::CoroutineDrop => "{\"k\":\"cdrop\"}".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                other => format!("{{\"k\":\"other\",\"dbg\":{}}}", js(&format!("{other:?}"))),
            };
            // append span
            let _ = write!(o, "{},\"sp\":{}}}", &t[..t.len() - 1], sp);
            o.push('}');
        }
        o.push(']');
        o
    }

    fn run_inst(&mut self, i: usize, k: InstKey<'tcx>, env: ty::TypingEnv<'tcx>) {
        self.env = env;
        let tcx = self.tcx;
        let mut o = format!("{{\"path\":{},\"mod\":{},\"local\":{}", js(&self.path(k.def)), js(&self.mod_path(k.def)), k.def.is_local());
        let a: Vec<String> = k.args.types().map(|t| self.ty(t).to_string()).collect();
        let nm = tcx.opt_item_name(k.def).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(o, ",\"name\":{},\"targs\":[{}],\"sp\":{}", js(&nm), a.join(","), self.span(tcx.def_span(k.def)));
        if let Some(p) = k.promoted {
            let _ = write!(o, ",\"promoted\":{}", p.as_usize());
        }
        if let Some(im) = tcx.impl_of_assoc(k.def) {
            let st = tcx.type_of(im).instantiate(tcx, k.args).skip_norm_wip();
            let st = tcx.erase_and_anonymize_regions(st);
            let st = self.ty(st);
            let _ = write!(o, ",\"iself\":{}", st);
            if tcx.impl_opt_trait_ref(im).is_some() {
                let tr = tcx.impl_trait_ref(im).skip_binder();
                let _ = write!(o, ",\"itrait\":{}", js(&self.path(tr.def_id)));
            }
        }
        if tcx.is_closure_like(k.def) {
            o.push_str(",\"closure\":true");
            if tcx.coroutine_kind(k.def).is_some() {
                o.push_str(",\"coroutine\":true");
            }
        }
        let body: Option<Body<'tcx>> = if let Some(l) = k.def.as_local() {
            let r: Option<Body<'static>> = BODIES.with(|m| {
                let m = m.borrow();
                match (m.get(&l), k.promoted) {
                    (Some((b, _)), None) => Some(b.clone()),
                    (Some((_, p)), Some(pi)) => p.get(pi).cloned(),
                    _ => None,
                }
            });
            r.map(|b| unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) })
        } else {
            Some(tcx.optimized_mir(k.def).clone())
        };
        match body {
            Some(b) => {
                let bj = self.body(&b, k.args);
                let _ = write!(o, ",{}", bj);
            }
            None => o.push_str(",\"nobody\":true"),
        }
        o.push('}');
        self.inst_json[i] = Some(o);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s: &Session, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("FACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        if crate_name != std::env::var("FACTS_CRATE").unwrap_or("thingbuf".into()) {
            return Compilation::Continue;
        }
        // make sure every local body was built
        for d in tcx.hir_body_owners() {
            if !tcx.is_trivial_const(d) && !BODIES.with(|m| m.borrow().contains_key(&d)) {
                let _ = tcx.mir_promoted(d);
            }
        }
        let env0 = ty::TypingEnv::fully_monomorphized();
        let mut d = Dump { tcx, tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(), inst_json: vec![], work: vec![], env: env0 };
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    d.env = ty::TypingEnv::post_analysis(tcx, did);
                    if tcx.trait_of_assoc(did).is_some() && !tcx.defaultness(did).has_value() {
                        continue;
                    }
                    let i = d.inst(did, args, None);
                    let exported = ev.is_exported(id);
                    let mut o = format!("{{\"inst\":{},\"path\":{},\"name\":{},\"exported\":{},\"mod\":{}", i, js(&d.path(did)), js(tcx.item_name(did).as_str()), exported, js(&d.mod_path(did)));
                    if let Some(im) = tcx.impl_of_assoc(did) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let st = tcx.erase_and_anonymize_regions(st);
                        let st = d.ty(st);
                        let _ = write!(o, ",\"iself\":{}", st);
                        if tcx.impl_opt_trait_ref(im).is_some() {
                            let tr = tcx.impl_trait_ref(im).skip_binder();
                            let _ = write!(o, ",\"itrait\":{}", js(&d.path(tr.def_id)));
                        }
                    }
                    if tcx.asyncness(did).is_async() {
                        o.push_str(",\"async\":true");
                    }
                    o.push('}');
                    roots.push(o);
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    d.env = ty::TypingEnv::post_analysis(tcx, did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = d.ty(t);
                    adts.push(format!("{{\"ty\":{},\"path\":{},\"name\":{},\"exported\":{},\"mod\":{}}}", ti, js(&d.path(did)), js(tcx.item_name(did).as_str()), ev.is_exported(id), js(&d.mod_path(did))));
                }
                DefKind::Impl { .. } => {
                    d.env = ty::TypingEnv::post_analysis(tcx, did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let ti = d.ty(t);
                    let tr = if tcx.impl_opt_trait_ref(did).is_some() {
                        let tr = tcx.impl_trait_ref(did).skip_binder();
                        js(&d.path(tr.def_id))
                    } else {
                        "null".into()
                    };
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"sp\":{}}}", ti, tr, d.span(tcx.def_span(did))));
                }
                _ => {}
            }
        }
        while let Some((i, k, env)) = d.work.pop() {
            d.run_inst(i, k, env);
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"types\":[\n", js(&crate_name));
        o.push_str(&d.ty_json.iter().map(|x| x.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
        o.push_str("],\n\"insts\":[\n");
        o.push_str(&d.inst_json.iter().map(|x| x.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
        let _ = write!(o, "],\n\"roots\":[\n{}],\n\"adts\":[\n{}],\n\"impls\":[\n{}]}}\n", roots.join(",\n"), adts.join(",\n"), impls.join(",\n"));
        std::fs::write(&out, o).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("verif driver", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
