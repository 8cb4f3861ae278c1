use crate::json::{i, s, J};
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_attr_ir::LangItem;
use rustc_middle::mir::interpret::GlobalId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv,
};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    built: HashMap<LocalDefId, Body<'tcx>>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<String>,
    bodies: Vec<J>,
}

type Built = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;

static ORIGINAL: std::sync::OnceLock<Built> = std::sync::OnceLock::new();

thread_local! {
    /// Every body as it was built, kept before anything can steal it. The lifetime is that of
    /// the `TyCtxt` of the one session this process runs; `dump` takes them out under it.
    static KEPT: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = Default::default();
}

pub fn keep_built(queries: &mut rustc_middle::queries::Providers) {
    let _ = ORIGINAL.set(queries.mir_built);
    queries.mir_built = |tcx, def| {
        let out = (ORIGINAL.get().unwrap())(tcx, def);
        let body: Body<'_> = out.borrow().clone();
        let body: Body<'static> = unsafe { std::mem::transmute(body) };
        KEPT.with(|k| k.borrow_mut().insert(def, body));
        out
    };
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut built = HashMap::new();
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for &d in &owners {
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        let _ = tcx.mir_built(d);
        let body = KEPT.with(|k| k.borrow_mut().remove(&d));
        match body {
            Some(b) => {
                let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                built.insert(d, b);
            }
            None => {
                eprintln!("mirdump: no MIR of {:?}", d);
                std::process::exit(3);
            }
        }
    }
    tcx.ensure_ok().analysis(());
    if tcx.dcx().has_errors().is_some() {
        return;
    }
    let mut cx = Cx {
        tcx,
        built,
        ty_ids: HashMap::new(),
        ty_out: vec![],
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        bodies: vec![],
    };
    let mut roots: Vec<LocalDefId> = cx.built.keys().copied().collect();
    roots.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
    for d in roots {
        let inst = Instance::new_raw(
            d.to_def_id(),
            tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d.to_def_id())),
        );
        cx.enqueue(inst);
    }
    while let Some(inst) = cx.queue.pop_front() {
        if inst.def_id().is_local() {
            cx.dump_instance(inst);
        } else {
            // a std function that cannot be dumped is a call without a body to the analyses
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.dump_instance(inst)));
            if r.is_err() {
                eprintln!("mirdump: cannot dump {}", cx.path(inst.def_id()));
            }
        }
    }
    // trait impls of the crate, for class-hierarchy resolution of dyn calls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity();
            let tr = tr.skip_normalization();
            let mut items = vec![];
            for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                if it.is_fn() {
                    if let Some(t) = it.trait_item_def_id() {
                        items.push((cx.path(t), s(cx.path(it.def_id))));
                    }
                }
            }
            impls.push(J::Obj(vec![
                ("trait", s(cx.path(tr.def_id))),
                ("self", s(with_no_trimmed_paths!(tr.self_ty().to_string()))),
                ("items", J::Map(items)),
            ]));
        }
    }
    // signatures of trait methods without body, statics, consts: names only
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Static { .. }) {
            consts.push(s(cx.path(id.to_def_id())));
        }
    }
    // public API of the crate
    let eff = tcx.effective_visibilities(());
    let mut public = vec![];
    for d in cx.built.keys() {
        if eff.is_reachable(*d) {
            public.push(cx.path(d.to_def_id()));
        }
    }
    public.sort();
    let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let top = J::Obj(vec![
        ("crate", s(crate_name)),
        ("types", J::Arr(std::mem::take(&mut cx.ty_out))),
        ("adts", J::Map(std::mem::take(&mut cx.adts).into_iter().collect())),
        ("impls", J::Arr(impls)),
        ("statics", J::Arr(consts)),
        ("public", J::Arr(public.into_iter().map(s).collect())),
        ("bodies", J::Arr(std::mem::take(&mut cx.bodies))),
    ]);
    let mut o = String::new();
    top.write(&mut o);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

const TRANSPARENT: &[&str] = &[
    "::option::",
    "::result::",
    "::iter::",
    "::ops::arith",
    "::ops::bit",
    "::ops::function",
    "::ops::try_trait",
    "::ops::control_flow",
    "::ops::range",
    "::convert::",
    "::future::",
    "::pin::",
    "::task::poll",
    "::bool::",
    "::cmp::",
    "::tuple::",
];

impl<'tcx> Cx<'tcx> {
    /// crate-qualified verbose path, e.g. core::option::{impl#0}::map
    fn path(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    /// readable path, e.g. core::option::Option::map
    fn pretty(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let self_ty = tcx.type_of(imp).instantiate_identity().skip_normalization();
            let base = match self_ty.kind() {
                ty::Adt(a, _) => self.path(a.did()),
                _ => with_no_trimmed_paths!(self_ty.to_string()),
            };
            let name = tcx.item_name(d);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_normalization();
                return format!("<{} as {}>::{}", base, self.path(tr.def_id), name);
            }
            return format!("{}::{}", base, name);
        }
        self.path(d)
    }

    fn transparent(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if k == "ratelmq" {
            return false;
        }
        if !(k == "core" || k == "alloc" || k == "std") {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        if k != "core" {
            return false;
        }
        TRANSPARENT.iter().any(|t| p.starts_with(t))
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let root = self.tcx.typeck_root_def_id(d);
        if d.is_local() && !self.tcx.generics_of(root).requires_monomorphization(self.tcx) {
            return self.path(d);
        }
        let a = with_no_trimmed_paths!(format!("{:?}", inst.args));
        format!("{}{}", self.path(d), a)
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let d = inst.def_id();
        if !self.transparent(d) {
            return None;
        }
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        if d.is_local() {
            if !self.built.contains_key(&d.expect_local()) {
                return None;
            }
        } else {
            if self.tcx.is_intrinsic(d, rustc_span::sym::abort) {
                return None;
            }
            if !self.tcx.is_mir_available(d) || self.tcx.is_constructor(d) {
                return None;
            }
        }
        let k = self.key(inst);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(inst);
        }
        Some(k)
    }

    fn env(&self, inst: Instance<'tcx>) -> TypingEnv<'tcx> {
        use rustc_middle::ty::TypeVisitableExt;
        if inst.args.has_param() {
            TypingEnv::post_analysis(self.tcx, inst.def_id())
        } else {
            TypingEnv::fully_monomorphized()
        }
    }

    fn dump_instance(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let env = self.env(inst);
        let raw: Body<'tcx> = if let Some(l) = d.as_local() {
            self.built[&l].clone()
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let body: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(
            inst.args,
            env,
            EarlyBinder::bind(tcx, tcx.erase_and_anonymize_regions(raw.clone())),
        ) {
            Ok(b) => b,
            Err(_) => {
                eprintln!("mirdump: cannot normalize {}", self.path(d));
                tcx.erase_and_anonymize_regions(raw)
            }
        };
        let key = self.key(inst);
        let kind = if tcx.is_closure_like(d) {
            if tcx.is_coroutine(d) {
                "coroutine"
            } else {
                "closure"
            }
        } else {
            "fn"
        };
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.to_string());
                }
            }
        }
        let mut upvars = vec![];
        if let Some(l) = d.as_local() {
            if tcx.is_closure_like(d) {
                for n in tcx.closure_captures(l) {
                    upvars.push(s(n.to_string(tcx)));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, decl)| {
                let t = self.ty(decl.ty);
                J::Arr(vec![i(t), names.get(&l).map(|n| s(n.clone())).unwrap_or(J::Null)])
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(x, &body, env) {
                    st.push(j);
                }
            }
            let t = self.term(bb.terminator(), &body, env);
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", t),
                ("cleanup", J::Bool(bb.is_cleanup)),
            ]));
        }
        let parent = if tcx.is_closure_like(d) {
            s(self.path(tcx.parent(d)))
        } else {
            J::Null
        };
        let sp = self.span(tcx.def_span(d));
        let coro_of = if kind == "coroutine" { J::Bool(true) } else { J::Bool(false) };
        let asyncness = !tcx.is_closure_like(d) && tcx.asyncness(d).is_async();
        self.bodies.push(J::Obj(vec![
            ("key", s(key)),
            ("path", s(self.path(d))),
            ("pretty", s(self.pretty(d))),
            ("kind", s(kind)),
            ("local", J::Bool(d.is_local())),
            ("async", J::Bool(asyncness)),
            ("coroutine", coro_of),
            ("parent", parent),
            ("span", sp),
            ("derived", J::Bool(self.derived(d))),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)),
            ("upvars", J::Arr(upvars)),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
        ]));
    }

    fn derived(&self, d: DefId) -> bool {
        match self.tcx.impl_of_assoc(d) {
            Some(imp) => self.tcx.is_automatically_derived(imp),
            None => false,
        }
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let cs = sp.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{:?}", o),
        };
        // outermost macro
        let mut mac = J::Null;
        let mut c = sp.ctxt();
        while !c.is_root() {
            let data = c.outer_expn_data();
            match data.kind {
                ExpnKind::Macro(_, name) => {
                    let k = data
                        .macro_def_id
                        .map(|m| self.tcx.crate_name(m.krate).to_string())
                        .unwrap_or_default();
                    mac = J::Arr(vec![s(name.to_string()), s(k)]);
                }
                ExpnKind::Desugaring(k) => {
                    if matches!(mac, J::Null) {
                        mac = J::Arr(vec![s(format!("desugar:{:?}", k)), s("")]);
                    }
                }
                _ => {}
            }
            c = data.call_site.ctxt();
        }
        J::Arr(vec![s(file), i(lo.line), mac])
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.ty_ids.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.ty_ids.insert(t, n);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let name = with_no_trimmed_paths!(t.to_string());
        let mut f: Vec<(&'static str, J)> = vec![("s", s(name))];
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(a, args) => {
                let p = self.path(a.did());
                f.push(("def", s(p.clone())));
                let ids: Vec<J> = args.types().map(|x| i(self.ty(x))).collect();
                f.push(("args", J::Arr(ids)));
                self.adt(*a, p);
                "adt"
            }
            ty::Ref(_, to, m) => {
                f.push(("to", i(self.ty(*to))));
                f.push(("mut", J::Bool(m.is_mut())));
                "ref"
            }
            ty::RawPtr(to, m) => {
                f.push(("to", i(self.ty(*to))));
                f.push(("mut", J::Bool(m.is_mut())));
                "ptr"
            }
            ty::Slice(e) => {
                f.push(("to", i(self.ty(*e))));
                "slice"
            }
            ty::Array(e, n) => {
                f.push(("to", i(self.ty(*e))));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    f.push(("len", i(n)));
                }
                "array"
            }
            ty::Tuple(ts) => {
                let ids: Vec<J> = ts.iter().map(|x| i(self.ty(x))).collect();
                f.push(("args", J::Arr(ids)));
                "tuple"
            }
            ty::Closure(d, a) => {
                f.push(("def", s(self.path(*d))));
                let up: Vec<J> =
                    a.as_closure().upvar_tys().iter().map(|x| i(self.ty(x))).collect();
                f.push(("args", J::Arr(up)));
                "closure"
            }
            ty::Coroutine(d, a) => {
                f.push(("def", s(self.path(*d))));
                let up: Vec<J> =
                    a.as_coroutine().upvar_tys().iter().map(|x| i(self.ty(x))).collect();
                f.push(("args", J::Arr(up)));
                "coroutine"
            }
            ty::FnDef(d, _) => {
                f.push(("def", s(self.path(*d))));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, _) => {
                if let Some(p) = preds.principal() {
                    f.push(("def", s(self.path(p.def_id()))));
                }
                "dyn"
            }
            ty::Alias(_, a) => {
                let d = match a.kind {
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id),
                    _ => None,
                };
                if let Some(d) = d {
                    let d: DefId = d.into();
                    f.push(("def", s(self.path(d))));
                    f.push(("parent", s(self.path(tcx.parent(d)))));
                }
                "alias"
            }
            ty::Param(_) => "param",
            _ => "other",
        };
        f.push(("k", s(k)));
        self.ty_out[n] = J::Obj(f);
        n
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>, p: String) {
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val } else { 0 };
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|fd| {
                    let t = tcx.type_of(fd.did).instantiate_identity().skip_normalization();
                    let shown = with_no_trimmed_paths!(t.to_string());
                    let idx = if a.did().is_local() { i(self.ty(t) as i128) } else { s(shown.clone()) };
                    J::Arr(vec![s(fd.name.to_string()), idx, s(shown)])
                })
                .collect();
            vs.push(J::Obj(vec![
                ("name", s(v.name.to_string())),
                ("discr", i(discr as i128)),
                ("fields", J::Arr(fields)),
            ]));
        }
        let kind = if a.is_enum() {
            "enum"
        } else if a.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adts.insert(
            p,
            J::Obj(vec![
                ("kind", s(kind)),
                ("local", J::Bool(a.did().is_local())),
                ("variants", J::Arr(vs)),
            ]),
        );
    }

    fn field_name(&self, t: Ty<'tcx>, v: Option<VariantIdx>, f: FieldIdx) -> String {
        match t.kind() {
            ty::Adt(a, _) => {
                let var = match v {
                    Some(v) => a.variant(v),
                    None => {
                        if a.is_enum() {
                            return f.as_usize().to_string();
                        }
                        a.non_enum_variant()
                    }
                };
                var.fields.get(f).map(|x| x.name.to_string()).unwrap_or(f.as_usize().to_string())
            }
            _ => f.as_usize().to_string(),
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let base = pt;
            pt = pt.projection_ty(tcx, e);
            match e {
                ProjectionElem::Deref => proj.push(J::Arr(vec![s("*")])),
                ProjectionElem::Field(f, _) => {
                    let name = self.field_name(base.ty, base.variant_index, f);
                    proj.push(J::Arr(vec![s("f"), i(f.as_usize()), s(name)]));
                }
                ProjectionElem::Index(l) => proj.push(J::Arr(vec![s("i"), i(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(J::Arr(vec![s("ci"), i(offset), J::Bool(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(J::Arr(vec![s("ss"), i(from), i(to), J::Bool(from_end)]))
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = match base.ty.kind() {
                        ty::Adt(a, _) if a.is_enum() => a.variant(v).name.to_string(),
                        _ => name.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    proj.push(J::Arr(vec![s("v"), i(v.as_usize()), s(n)]))
                }
                _ => proj.push(J::Arr(vec![s("oc")])),
            }
        }
        let t = self.ty(pt.ty);
        J::Arr(vec![i(p.local.as_usize()), J::Arr(proj), i(t)])
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = v.try_to_scalar_int() {
                    let bits = sc.to_bits(sc.size());
                    let val: i128 = if let ty::Int(_) = t.kind() {
                        sc.size().sign_extend(bits) as i128
                    } else {
                        bits as i128
                    };
                    return J::Obj(vec![("int", J::Int(val)), ("ty", i(tid))]);
                }
            }
            ty::Ref(_, to, _) => {
                if to.is_str() || matches!(to.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return self.bytes(b, tid, to.is_str());
                        }
                    }
                }
                if let ty::Array(e, n) = to.kind() {
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), Some(n)) =
                            (v, n.try_to_target_usize(tcx))
                        {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let interpret::GlobalAlloc::Memory(m) =
                                tcx.global_alloc(prov.alloc_id())
                            {
                                let a = off.bytes() as usize;
                                let b = m
                                    .inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(
                                        a..a + n as usize,
                                    )
                                    .to_vec();
                                return self.bytes(&b, tid, false);
                            }
                        }
                    }
                }
                // a reference to a constant array stands for the array
                if let (ty::Array(..), ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) =
                    (to.kind(), v)
                {
                    let (prov, offset) = p.prov_and_relative_offset();
                    let inner = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset };
                    if let J::Obj(mut o) = self.constval(inner, *to, depth + 1) {
                        if o.iter().any(|(k, _)| *k == "agg") {
                            o.retain(|(k, _)| *k != "ty");
                            o.push(("ty", i(tid)));
                            return J::Obj(o);
                        }
                    }
                }
            }
            ty::Array(_, n)
                if depth < 3 && n.try_to_target_usize(tcx).is_some_and(|n| n <= 256) =>
            {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> =
                        dc.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                    return J::Obj(vec![
                        ("agg", s("array")),
                        ("fields", J::Arr(fs)),
                        ("ty", i(tid)),
                    ]);
                }
            }
            ty::Adt(..) | ty::Tuple(_) if depth < 3 => {
                if let ConstValue::ZeroSized = v {
                    if let ty::Adt(a, _) = t.kind() {
                        if a.is_struct() {
                            return J::Obj(vec![
                                ("agg", s(self.path(a.did()))),
                                ("v", i(0)),
                                ("fields", J::Arr(vec![])),
                                ("ty", i(tid)),
                            ]);
                        }
                    }
                    return J::Obj(vec![("zst", J::Bool(true)), ("ty", i(tid))]);
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> =
                        dc.fields.iter().map(|(v, t)| self.constval(*v, *t, depth + 1)).collect();
                    let p = match t.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        _ => "tuple".into(),
                    };
                    return J::Obj(vec![
                        ("agg", s(p)),
                        ("v", i(dc.variant.map(|v| v.as_usize()).unwrap_or(0))),
                        ("fields", J::Arr(fs)),
                        ("ty", i(tid)),
                    ]);
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            return J::Obj(vec![("zst", J::Bool(true)), ("ty", i(tid))]);
        }
        J::Obj(vec![("opaque", s(format!("{:?}", v))), ("ty", i(tid))])
    }

    fn bytes(&mut self, b: &[u8], tid: usize, is_str: bool) -> J {
        if is_str {
            J::Obj(vec![("str", s(String::from_utf8_lossy(b).to_string())), ("ty", i(tid))])
        } else {
            J::Obj(vec![
                ("bytes", J::Arr(b.iter().map(|x| i(*x)).collect())),
                ("ty", i(tid)),
            ])
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return J::Obj(vec![("fn", self.callee(*d, a.skip_binder(), env)), ("ty", i(self.ty(t)))]);
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => Some(self.path(u.def)),
            _ => None,
        };
        // a promoted constant belongs to the body it was taken from, whatever its path resolves to
        let promoted = match c.const_ {
            Const::Unevaluated(u, _) => u.promoted.map(|p| (u, p)),
            _ => None,
        };
        let value = match promoted {
            Some((u, p)) if p.as_usize() < tcx.promoted_mir(u.def).len() => {
                let instance = Instance::new_raw(u.def, u.args);
                tcx.const_eval_global_id(env, GlobalId { instance, promoted: Some(p) }, c.span)
            }
            Some(_) => return J::Obj(vec![("opaque", s(format!("{:?}", c.const_))), ("ty", i(self.ty(t)))]),
            None => c.const_.eval(tcx, env, c.span),
        };
        let mut r = match value {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => J::Obj(vec![("opaque", s(format!("{:?}", c.const_))), ("ty", i(self.ty(t)))]),
        };
        if let (J::Obj(v), Some(n)) = (&mut r, name) {
            v.push(("cname", s(n)));
        }
        r
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("cp"), self.place(p, body)]),
            Operand::Move(p) => J::Arr(vec![s("mv"), self.place(p, body)]),
            Operand::Constant(c) => J::Arr(vec![s("c"), self.konst(c, env)]),
            _ => J::Arr(vec![s("rt")]),
        }
    }

    fn stmt(&mut self, st: &Statement<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let rv = self.rvalue(r, body, env);
                let pl = self.place(p, body);
                let sp = self.span(st.source_info.span);
                Some(J::Arr(vec![s("="), pl, rv, sp]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(place, body);
                Some(J::Arr(vec![s("sd"), pl, i(variant_index.as_usize())]))
            }
            StatementKind::StorageLive(l) => Some(J::Arr(vec![s("sl"), i(l.as_usize())])),
            StatementKind::StorageDead(l) => Some(J::Arr(vec![s("dead"), i(l.as_usize())])),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, _) => J::Arr(vec![s("repeat"), self.operand(o, body, env)]),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    _ => "shared",
                };
                J::Arr(vec![s("ref"), s(m), self.place(p, body)])
            }
            Rvalue::Reborrow(_, _, p) => J::Arr(vec![s("ref"), s("mut"), self.place(p, body)]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), s("raw"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::IntToInt
                    | CastKind::FloatToInt
                    | CastKind::FloatToFloat
                    | CastKind::IntToFloat => format!("{:?}", k),
                    CastKind::PointerCoercion(c, _) => format!("Coerce:{:?}", c),
                    o => format!("{:?}", o),
                };
                J::Arr(vec![s("cast"), s(kk), self.operand(o, body, env), i(self.ty(*t))])
            }
            Rvalue::BinaryOp(op, b) => J::Arr(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env),
                i(self.ty(b.0.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => J::Arr(vec![
                s("un"),
                s(format!("{:?}", op)),
                self.operand(o, body, env),
            ]),
            Rvalue::Discriminant(p) => J::Arr(vec![s("discr"), self.place(p, body)]),
            Rvalue::Aggregate(k, fs) => {
                let fields: Vec<J> = fs.iter().map(|o| self.operand(o, body, env)).collect();
                let (kind, def, v, t) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), 0, None),
                    AggregateKind::Tuple => ("tuple", String::new(), 0, None),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        if let Some(a) = active {
                            (
                                "union",
                                self.path(*d),
                                a.as_usize(),
                                Some(self.ty(t)),
                            )
                        } else {
                            ("adt", self.path(*d), v.as_usize(), Some(self.ty(t)))
                        }
                    }
                    AggregateKind::Closure(d, _) => ("closure", self.path(*d), 0, None),
                    AggregateKind::Coroutine(d, _) => ("coroutine", self.path(*d), 0, None),
                    AggregateKind::CoroutineClosure(d, _) => ("closure", self.path(*d), 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), 0, None),
                };
                J::Arr(vec![
                    s("agg"),
                    s(kind),
                    s(def),
                    i(v),
                    J::Arr(fields),
                    t.map(i).unwrap_or(J::Null),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(p, body);
                J::Arr(vec![s("use"), J::Arr(vec![s("cp"), pl])])
            }
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![s("use"), self.operand(o, body, env)]),
        }
    }

    /// How a call to `def<args>` resolves.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, J)> = vec![("name", s(self.path(d)))];
        f.push(("pretty", s(self.pretty(d))));
        let targs: Vec<J> = args.types().map(|t| i(self.ty(t))).collect();
        f.push(("targs", J::Arr(targs)));
        if tcx.is_constructor(d) {
            let p = tcx.parent(d);
            // variant ctor or struct ctor
            let (adt, v) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let adt = tcx.parent(p);
                    let idx = tcx.adt_def(adt).variant_index_with_id(p).as_usize();
                    (adt, idx)
                }
                _ => (p, 0),
            };
            f.push(("ctor", s(self.path(adt))));
            f.push(("ctor_v", i(v)));
            return J::Obj(f);
        }
        let trait_of = tcx.trait_of_assoc(d);
        if let Some(t) = trait_of {
            f.push(("trait", s(self.path(t))));
        }
        f.push(("method", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        // Iterator methods other than next/size_hint always run their default body: the contract
        // of the trait makes the overriding ones equivalent.
        let mut inst = None;
        if let Some(t) = trait_of {
            if self.path(t) == "core::iter::traits::iterator::Iterator"
                && tcx.defaultness(d).has_value()
                && !matches!(tcx.item_name(d).as_str(), "size_hint" | "advance_by" | "nth")
                // its `next` rests on its own `try_fold`
                && !matches!(args.types().next().map(|t| t.kind()), Some(ty::Adt(a, _))
                    if tcx.opt_item_name(a.did()).is_some_and(|n| n.as_str() == "GenericShunt"))
            {
                inst = Some(Instance::new_raw(d, args));
            }
        }
        let inst = match inst {
            Some(x) => Some(x),
            None => Instance::try_resolve(tcx, env, d, args).ok().flatten(),
        };
        if let Some(inst) = inst {
            let rd = inst.def_id();
            f.push(("rname", s(self.path(rd))));
            f.push(("rpretty", s(self.pretty(rd))));
            match inst.def {
                InstanceKind::Item(_) => {
                    if let Some(k) = self.enqueue(inst) {
                        f.push(("body", s(k)));
                    }
                }
                InstanceKind::Virtual(..) => f.push(("virtual", J::Bool(true))),
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                    f.push(("intrinsic", J::Bool(true)))
                }
                InstanceKind::Shim(sh) => match sh {
                    ShimKind::ClosureOnce { closure, .. } => {
                        if let ty::Closure(cd, cargs) = inst.args.type_at(0).kind() {
                            let _ = closure;
                            let ci = Instance::new_raw(*cd, cargs);
                            if let Some(k) = self.enqueue(ci) {
                                f.push(("closure_once", s(k)));
                            }
                        }
                        f.push(("shim", s("closure_once")));
                    }
                    ShimKind::FnPtr(_, t) => {
                        f.push(("shim", s("fnptr")));
                        if let ty::FnDef(td, ta) = t.kind() {
                            let c = self.callee(*td, ta.skip_binder(), env);
                            f.push(("target", c));
                        }
                    }
                    ShimKind::Clone(..) => f.push(("shim", s("clone"))),
                    _ => f.push(("shim", s("other"))),
                },
            }
        }
        // closures and fn items handed over as type arguments: what calling them runs
        let mut cls = vec![];
        for t in args.types() {
            match t.kind() {
                ty::Closure(cd, cargs) => {
                    let ci = Instance::new_raw(*cd, cargs);
                    if let Some(k) = self.enqueue(ci) {
                        cls.push(J::Obj(vec![("ty", i(self.ty(t))), ("body", s(k))]));
                    }
                }
                ty::FnDef(fd, fa) => {
                    let fa = fa.skip_binder();
                    if *fd != d {
                        let c = self.callee(*fd, fa, env);
                        cls.push(J::Obj(vec![("ty", i(self.ty(t))), ("fn", c)]));
                    }
                }
                _ => {}
            }
        }
        if !cls.is_empty() {
            f.push(("closures", J::Arr(cls)));
        }
        // opaque consumers of iterators: say how the iterator argument advances
        let m = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
        if let Some(t) = trait_of {
            let tp = self.path(t);
            if (tp == "core::iter::traits::collect::FromIterator" && m == "from_iter")
                || (tp == "core::iter::traits::collect::Extend" && m == "extend")
            {
                if let Some(it) = args.types().last() {
                    if let Some(j) = self.iter_calls(it, env) {
                        f.push(("consumes", j));
                    }
                }
            }
        } else if m == "join_all" || m == "from_iter" {
            if let Some(it) = args.types().last() {
                if let Some(j) = self.iter_calls(it, env) {
                    f.push(("consumes", j));
                }
            }
        }
        J::Obj(f)
    }

    fn iter_calls(&mut self, it: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let into = tcx.lang_items().get(LangItem::IntoIterIntoIter)?;
        let next = tcx.lang_items().get(LangItem::IteratorNext)?;
        let into_args = tcx.mk_args(&[it.into()]);
        let into_j = self.callee(into, into_args, env);
        let sig = tcx.fn_sig(into).instantiate(tcx, into_args).skip_normalization();
        let out = tcx
            .try_normalize_erasing_regions(
                env,
                ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig.output())),
            )
            .ok()?;
        let next_j = self.callee(next, tcx.mk_args(&[out.into()]), env);
        Some(J::Obj(vec![("into_iter", into_j), ("next", next_j), ("iter_ty", i(self.ty(out)))]))
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let b = |x: BasicBlock| i(x.as_usize());
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), b(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.operand(discr, body, env);
                let dt = self.ty(discr.ty(&body.local_decls, self.tcx));
                let vs: Vec<J> = targets
                    .iter()
                    .map(|(v, t)| J::Arr(vec![J::Int(v as i128), b(t)]))
                    .collect();
                J::Arr(vec![s("switch"), o, J::Arr(vs), b(targets.otherwise()), sp, i(dt)])
            }
            TerminatorKind::UnwindResume => J::Arr(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("abort")]),
            TerminatorKind::Return => J::Arr(vec![s("return")]),
            TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place, body);
                J::Arr(vec![s("drop"), p, b(*target), sp])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fo = self.operand(func, body, env);
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                let dst = self.place(destination, body);
                J::Arr(vec![
                    s("call"),
                    fo,
                    J::Arr(a),
                    dst,
                    target.map(b).unwrap_or(J::Null),
                    sp,
                ])
            }
            TerminatorKind::TailCall { .. } => J::Arr(vec![s("unreachable")]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let o = self.operand(cond, body, env);
                let (m, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => (
                        "BoundsCheck".into(),
                        vec![self.operand(len, body, env), self.operand(index, body, env)],
                    ),
                    AssertKind::Overflow(op, l, r) => (
                        format!("Overflow:{:?}", op),
                        vec![self.operand(l, body, env), self.operand(r, body, env)],
                    ),
                    AssertKind::OverflowNeg(_) => ("OverflowNeg".into(), vec![]),
                    AssertKind::DivisionByZero(_) => ("DivisionByZero".into(), vec![]),
                    AssertKind::RemainderByZero(_) => ("RemainderByZero".into(), vec![]),
                    _ => ("Other".into(), vec![]),
                };
                J::Arr(vec![
                    s("assert"),
                    o,
                    J::Bool(*expected),
                    s(m),
                    J::Arr(ops),
                    b(*target),
                    sp,
                ])
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => {
                let p = self.place(resume_arg, body);
                J::Arr(vec![s("yield"), b(*resume), p])
            }
            TerminatorKind::CoroutineDrop => J::Arr(vec![s("return")]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::Arr(vec![s("goto"), b(*real_target)])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::Arr(vec![s("goto"), b(*real_target)])
            }
            TerminatorKind::InlineAsm { .. } => J::Arr(vec![s("unreachable")]),
        }
    }
}
